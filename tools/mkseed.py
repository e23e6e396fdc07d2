"""Write a planted bug: seed(id, property, edits, needs, breaks, files, demo).

edits is a list of (file, old, new) on /repo's HEAD; the diff is taken in a scratch worktree."""
import json
import os
import shutil
import subprocess

HDR = """#!/bin/bash
# exits 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
REL=$PWD/_build/clang-release/toywasm/toywasm
DBG=$PWD/_build/gcc-debug/toywasm/toywasm
"""


def seed(sid, prop, edits, needs, breaks, files=None, demo=""):
    d = "/verif/seeded/" + sid
    wt = "/tmp/mkseed-wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    for f, old, new in edits:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff"], check=True, stdout=subprocess.PIPE, text=True).stdout
    assert diff
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(HDR + demo.strip("\n") + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    for n, c in (files or {}).items():
        open(os.path.join(d, n), "wb" if isinstance(c, bytes) else "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(wt)
    print("wrote", sid)
