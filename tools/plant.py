#!/usr/bin/env python3
"""Development tool: confirm a planted change and store it under seeded/<id>/ (no check uses this).

usage: plant.py DEFDIR [id...]
DEFDIR/<id>.py defines PROP, FILE, EDITS=[(old,new)...], NEEDS, BREAKS, DEMO (C++ source), optional FLAGS, STD.
The change is built and tested in a copy of /repo bind-mounted over /repo in a private namespace.
"""
import json, os, subprocess, sys, runpy, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/plant/repo"

DEMO_SH = """#!/bin/sh
# exit 0 when the property holds, non-zero otherwise; run from /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++{std} {flags} -Iinclude -I. "$here/demo.cpp" -o "$tmp/demo" || exit 99
"$tmp/demo"
"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def ns(cmd):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (COPY, cmd))

def one(defdir, pid):
    d = runpy.run_path(os.path.join(defdir, pid + ".py"))
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (COPY, COPY, COPY))
    edits = d["EDITS"]
    for e in edits:
        f, old, new = e if len(e) == 3 else (d["FILE"],) + tuple(e)
        path = os.path.join(COPY, f)
        s = open(path, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            return "edit matches %d times: %r" % (s.count(old), old)
        open(path, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", COPY, "diff"], capture_output=True).stdout
    work = tempfile.mkdtemp(prefix="plant_")
    open(work + "/patch.diff", "wb").write(diff)
    open(work + "/demo.cpp", "w").write(d["DEMO"].lstrip("\n"))
    open(work + "/demo.sh", "w").write(d.get("SH") or DEMO_SH.format(std=d.get("STD", "17"), flags=d.get("FLAGS", "-O1")))
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(work + "/meta.json", "w"), indent=1)
    try:
        r = ns("bash /opt/vp/test.sh /tmp/plant/out.json")
        tail = r.stdout.strip().splitlines()[-1:] 
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open("/tmp/plant/out.json"))
        want = set(base["stable"] if "stable" in base else base.get("passed", base.get("tests", [])))
        miss = want - set(out["passed"])
        if not want or miss:
            return "tests fail: %s %s %s" % (tail, sorted(miss)[:5], r.stderr[-800:])
        p = ns("sh %s/demo.sh" % work)
        if p.returncode == 0:
            return "demo passes on patched tree"
        if p.returncode == 99 and not d.get("COMPILE"):
            return "demo does not compile patched: " + p.stderr[-1500:]
        c = sh("cd /repo && sh %s/demo.sh" % work)
        if c.returncode != 0:
            return "demo fails on the clean tree: %d %s" % (c.returncode, (c.stdout + c.stderr)[-1500:])
        # original lines only
        dst = os.path.join(VERIF if not os.environ.get("PLANT_OUT") else os.environ["PLANT_OUT"], "seeded", pid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(work, dst)
        os.chmod(dst + "/demo.sh", 0o755)
        return "KEPT (%s; demo %d: %s)" % (tail, p.returncode, (p.stdout + p.stderr).strip()[-120:])
    finally:
        shutil.rmtree(work)

if __name__ == "__main__":
    defdir = sys.argv[1]
    ids = sys.argv[2:] or sorted(f[:-3] for f in os.listdir(defdir) if f.endswith(".py"))
    for i in ids:
        print(i, one(defdir, i), flush=True)
