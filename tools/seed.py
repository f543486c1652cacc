#!/usr/bin/env python3
"""Make and try planted bugs (development tool; no registered check uses it).

seed.py make DEFS.py [id ...]   confirm each definition in a scratch copy and store it in seeded/
seed.py run [id ...]            run each stored bug's own check against a scratch copy with it
A definition is BUG(id, property, [(file, old, new), ...], demo, needs, breaks) in DEFS.py.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# Exit 0 when the guarantee holds for the shown case, nonzero otherwise.
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timed out\n")


def scratch():
    base = Path(tempfile.mkdtemp(prefix="seed_"))
    copy = base / "repo"
    sh(["git", "clone", "-q", str(REPO), str(copy)])
    return base, copy


def pytest(copy):
    env = dict(os.environ, PYTHONPATH=str(copy), PYTHONDONTWRITEBYTECODE="1")
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], copy, env, timeout=180)
    return r


def make(defs, only):
    ns = {"BUGS": []}

    def bug(*a):
        ns["BUGS"].append(a)
    ns["BUG"] = bug
    exec(compile(open(defs).read(), defs, "exec"), ns)
    for id_, prop, edits, demo, needs, breaks in ns["BUGS"]:
        if only and id_ not in only:
            continue
        base, copy = scratch()
        try:
            dd = base / "demo"
            dd.mkdir()
            (dd / "demo.py").write_text(demo.lstrip("\n"))
            (dd / "demo.sh").write_text(DEMO_SH)
            r = sh(["bash", str(dd / "demo.sh")], copy, timeout=120)
            if r.returncode:
                print(f"{id_}: DEMO FAILS ON CLEAN\n{r.stdout[-600:]}")
                continue
            bad = False
            for f, old, new in edits:
                p = copy / f
                t = p.read_text()
                if t.count(old) != 1:
                    print(f"{id_}: {t.count(old)} matches in {f} for {old!r}")
                    bad = True
                p.write_text(t.replace(old, new))
            if bad:
                continue
            r = sh(["bash", str(dd / "demo.sh")], copy, timeout=120)
            if r.returncode == 0:
                print(f"{id_}: DEMO PASSES WITH PATCH")
                continue
            t = pytest(copy)
            if t.returncode:
                fails = [x for x in t.stdout.splitlines() if x.startswith("FAILED")]
                print(f"{id_}: TESTS CATCH IT {fails or t.stdout[-300:]}")
                continue
            diff = sh(["git", "diff"], copy).stdout
            d = VERIF / "seeded" / id_
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(diff)
            (d / "demo.py").write_text((dd / "demo.py").read_text())
            (d / "demo.sh").write_text(DEMO_SH)
            (d / "meta.json").write_text(json.dumps(
                {"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
            print(f"{id_}: stored ({r.stdout.strip().splitlines()[-1][:100]})")
        finally:
            shutil.rmtree(base)


def run(ids):
    ids = ids or sorted(p.name for p in (VERIF / "seeded").iterdir() if p.is_dir())
    missed = []
    for id_ in ids:
        meta = json.loads((VERIF / "seeded" / id_ / "meta.json").read_text())
        base, copy = scratch()
        try:
            a = sh(["git", "apply", str(VERIF / "seeded" / id_ / "patch.diff")], copy)
            if a.returncode:
                print(f"{id_}: does not apply\n{a.stdout}")
                continue
            env = dict(os.environ, VERIF_REPO=str(copy), VERIF_SEED="1", VERIF_TIER="quick")
            r = sh([str(VERIF / "check.py"), meta["property"]], VERIF, env)
            hit = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
            why = next((x for x in r.stdout.splitlines() if "VIOLATION" not in x and x.strip()), "")
            print(f"{id_}: {'caught' if hit else 'MISSED rc=%d' % r.returncode} "
                  f"[{meta['property']}] {why[:160]}", flush=True)
            if not hit:
                missed.append(id_)
        finally:
            shutil.rmtree(base)
    print(f"{len(ids) - len(missed)} of {len(ids)} caught; missed: {missed}")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], set(sys.argv[3:]))
    else:
        run(sys.argv[2:])
