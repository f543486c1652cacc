"""Setup: nothing to build (the code under test is pure Python), so only see that it can be run."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
import gemd  # noqa: E402

assert os.path.abspath(gemd.__file__).startswith("/repo/"), gemd.__file__
for k in range(1, 28):
    importlib.import_module(f"vf.props.c{k:02d}")
print("27 property modules import; gemd from", gemd.__file__)
