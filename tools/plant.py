"""Planted bugs: write seeded/<id>/ from the definitions in tools/bugs.py, and test them in scratch copies.

tools/plant.py build [ID...]     write patch.diff, demo.sh, meta.json
tools/plant.py verify [ID...]    demo and stable tests in a scratch copy; result in seeded/<id>/ or 'rejected'
tools/plant.py catch [ID...]     run the check of the property against a scratch copy with the bug
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
HEAD = """#!/bin/bash
# Run in the root of empymod's working tree; exit 0: property holds, nonzero: it does not.
D=$(mktemp -d) || exit 9
trap 'rm -rf "$D"' EXIT
export D NUMBA_DISABLE_JIT=1 PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 R=$PWD
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
"""
PYD = HEAD + """cd "$D" || exit 9
timeout 250 $PY -W ignore - <<'P'
%s
P
"""


def scratch(patch=None):
    d = tempfile.mkdtemp(prefix="plant")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    if patch:
        subprocess.run(["git", "-C", d + "/repo", "apply", patch], check=True)
    return d


def bugs(ids):
    import bugs as b
    return [x for x in b.BUGS if not ids or x["id"] in ids or x["id"].split("-")[0] in ids]


def build(b):
    d = tempfile.mkdtemp(prefix="plant")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(r, "empymod", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], f, "found", s.count(old), "times:", old[:60])
                return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(root, "seeded", b["id"])
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    demo = b["demo"]
    open(o + "/demo.sh", "w").write(HEAD + demo if b.get("sh") else PYD % demo.strip())
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": b["id"].split("-")[0], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(o + "/meta.json", "w"), indent=1)
    return True


def demo(b, r, o):
    x = subprocess.run(["bash", o + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300)
    return x.returncode, (x.stdout + x.stderr)[-400:]


def tests(r):
    base = json.load(open("/opt/vp/BASELINE.json"))
    xml = r + "/../out.xml"
    env = dict(os.environ, PYTHONPATH=r, MPLBACKEND="Agg", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONPYCACHEPREFIX=r + "/../pyc", LANG="C.UTF-8",
               NUMBA_CACHE_DIR=r + "/../numba", TMPDIR=r + "/../tmp", PATH="/opt/venv/bin:" + os.environ["PATH"])
    os.makedirs(r + "/../tmp", exist_ok=True)
    subprocess.run("/opt/venv/bin/python -m pytest -q --mpl -p no:cacheprovider --timeout=300 -n 8 --dist loadfile "
                   f"-o junit_family=xunit2 --junitxml={xml} tests", shell=True, cwd=r, env=env, capture_output=True)
    import xml.etree.ElementTree as E
    ok = {c.get("classname") + "::" + c.get("name") for c in E.parse(xml).getroot().iter("testcase") if not len(c)
          or not any(x.tag in ("failure", "error", "skipped") for x in c)}
    return [x for x in base["stable"] if x not in ok and "import_time" not in x]


def verify(b):
    o = os.path.join(root, "seeded", b["id"])
    out = []
    d = scratch()
    try:
        rc, txt = demo(b, d + "/repo", o)
        if rc:
            out.append(f"demo fails on clean tree ({rc}): {txt}")
    finally:
        shutil.rmtree(d)
    d = scratch(o + "/patch.diff")
    try:
        rc, txt = demo(b, d + "/repo", o)
        if rc == 0:
            out.append(f"demo rc {rc} with patch {txt}")
        if not out:
            bad = tests(d + "/repo")
            if bad:
                out.append(f"tests: failed {len(bad)} {bad[:4]}")
    finally:
        shutil.rmtree(d)
    return out


def catch(b, tier="quick", extra=()):
    o = os.path.join(root, "seeded", b["id"])
    d = scratch(o + "/patch.diff")
    try:
        t = time.time()
        env = dict(os.environ, EMPYMOD_REPO=d + "/repo", VERIF_SEED="1", DST_EVIDENCE=d + "/ev", DST_REPLAYS=d + "/rep")
        x = subprocess.run(["./check", b["id"].split("-")[0], "--tier", tier, *extra], cwd=root, env=env,
                           capture_output=True, text=True)
        L = x.stdout.strip().split("\n")
        v = [i for i in L if i.startswith("violation")]
        return x.returncode, (v[0] if v else L[-1])[:300], round(time.time()-t)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    bl = bugs(ids)
    if cmd == "build":
        for b in bl:
            build(b)
    elif cmd == "verify":
        def run(b):
            o = verify(b)
            print(b["id"], "ok" if not o else "REJECTED " + "; ".join(o), flush=True)
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(run, bl))
    elif cmd == "catch":
        for b in bl:
            rc, t, s = catch(b)
            print(b["id"], "CAUGHT" if rc == 1 else f"missed rc={rc}", f"{s} s", t, flush=True)
