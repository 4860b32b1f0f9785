#!/usr/bin/env python3
"""Builds /verif/seeded from the descriptions in seedlist.py: each patch is made in a scratch copy of /repo's HEAD and kept as a diff.

usage: seeds.py [ID...]      (re)write the folders
       seeds.py --verify [ID...]   also build, run the stable tests, and the demonstration with and without the patch, in the sandbox's /repo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seedlist import SEEDS, DEMO_H


def make(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % w, shell=True, check=True)
        subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True, cwd=w)
        for f, a, b in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            n = t.count(a)
            if n != s.get("count", 1):
                raise SystemExit("%s: %r occurs %d times in %s" % (s["id"], a, n, f))
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.run(["git", "diff"], cwd=w, check=True, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(w)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for f, t in s["files"].items():
        open(os.path.join(d, f), "w").write(t)
    if "demo.h" in "".join(s["files"].values()):
        open(os.path.join(d, "demo.h"), "w").write(DEMO_H)
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\n# %s\nset -u\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\nd=$(mktemp -d)\ntrap 'rm -rf \"$d\"' EXIT\n%s" % (s["breaks"], s["demo"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


def sh(c, t=900):
    try:
        return subprocess.run(c, shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = "timeout", b""
        return R


def verify(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    c = sh("bash %s/demo.sh" % d, 300)
    if c.returncode != 0:
        return "demo fails on the clean tree: %r" % c.stdout[-300:]
    if sh("git apply %s/patch.diff" % d).returncode:
        return "patch does not apply"
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "does not build: %r" % b.stdout[-400:]
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        r = json.load(open("/tmp/seedtest.json"))
        bad = stable - set(r["passed"])
        if bad:
            return "tests fail: %s" % sorted(bad)[:4]
        c = sh("bash %s/demo.sh" % d, 300)
        if c.returncode == 0:
            return "demo passes with the patch"
        return "ok (%r)" % c.stdout[-100:]
    finally:
        sh("git checkout -- .")


if __name__ == "__main__":
    a = sys.argv[1:]
    v = "--verify" in a
    a = [x for x in a if x != "--verify"]
    todo = [s for s in SEEDS if not a or s["id"] in a]
    for s in todo:
        make(s)
    if v:
        for s in todo:
            print(s["id"], verify(s), flush=True)
        sh("bash /opt/vp/build.sh")
