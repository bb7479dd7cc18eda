"""Create seeded/<id> from a text replacement: mkseed.mk(id, property, file, [(old, new)...], needs, breaks, demo)"""
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def mk(sid, prop, edits, needs, breaks, demo):
    w = tempfile.mkdtemp(prefix="mk_")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, "cyclic_boosting", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True, check=True).stdout
        d = os.path.join(V, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(w)
