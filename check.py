#!/opt/venv/bin/python
"""Entry point: check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--index N]."""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"

if __name__ == "__main__":
    # Run under the project's interpreter, with a fixed string hash and no byte code in /repo.
    env = dict(os.environ)
    wanted = {"PYTHONHASHSEED": env.get("VERIF_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1",
              "PYTHONPYCACHEPREFIX": "/nonexistent/no-pycache", "VERIF_REEXEC": "1"}
    if env.get("VERIF_REEXEC") != "1":
        env.update(wanted)
        env.pop("PYTHONPATH", None)
        os.execve(PYTHON, [PYTHON, os.path.join(HERE, "check.py")] + sys.argv[1:], env)

    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    parser.add_argument("--index", type=int)
    args = parser.parse_args()

    sys.path.insert(0, HERE)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    try:
        import gemd
        if not os.path.abspath(gemd.__file__).startswith(repo + os.sep):
            print(f"imported gemd from {gemd.__file__}, not from {repo}")
            sys.exit(2)
        from vf import core
        mod = importlib.import_module(f"vf.props.{args.property.lower()}")
    except Exception as e:
        import traceback
        traceback.print_exc()
        print(f"{args.property}: cannot load: {type(e).__name__}: {e}")
        sys.exit(2)

    only, seed, tier = args.index, args.seed, args.tier
    if args.replay:
        with open(args.replay) as f:
            first = json.load(f)[0]
        only, seed, tier = first["index"], first["seed"], first["tier"]
    sys.exit(core.run_property(args.property.upper(), mod, tier, seed, only=only))
