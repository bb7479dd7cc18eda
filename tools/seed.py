"""tools/seed.py ID... [--no-tests] [--no-check] [--props P01,P02]: try planted bugs in a scratch copy of /repo."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, env=None, timeout=1800):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout


def one(sid, a):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed_%s_" % sid)
    res = {}
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        env = {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"}
        demo = os.path.join(w, "demo")
        shutil.copytree(d, demo)
        rc, out = run(["bash", os.path.join(demo, "demo.sh")], repo, env, 300)
        res["demo_clean"] = rc
        if rc:
            print(sid, "demo fails on clean tree:\n", out[-1500:])
        rc, out = run(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            print(sid, "patch does not apply", out)
            return
        rc, out = run(["bash", os.path.join(demo, "demo.sh")], repo, env, 300)
        res["demo_patched"] = rc
        if not rc:
            print(sid, "demo passes with the patch:\n", out[-1500:])
        if not a.no_check:
            caught = []
            for p in (a.props or meta["property"]).split(","):
                rc, out = run([os.path.join(V, "run.sh"), p, "quick"], V, {"SYMX_REPO": repo, "SYMX_EVIDENCE": w}, 1800)
                caught.append("%s:%d" % (p, rc))
                res["last"] = [l for l in out.splitlines() if "VIOLATION" in l][:2] or out.splitlines()[-3:]
            res["check"] = caught
        if not a.no_tests:
            t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
            ts = os.path.join(w, "test.sh")
            open(ts, "w").write(t)
            run(["bash", ts, os.path.join(w, "out.json")], repo, env, 1800)
            r = json.load(open(os.path.join(w, "out.json")))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("stable") or base.get("passed") or base.get("tests")
            ok = set(r.get("passed", []))
            bad = [s for s in stable if s not in ok]
            res["tests_broken"] = bad
        print(sid, meta["property"], json.dumps(res))
        sys.stdout.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--props")
a = ap.parse_args()
for s in a.ids or sorted(os.listdir(os.path.join(V, "seeded"))):
    one(s, a)
