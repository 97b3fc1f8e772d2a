#!/usr/bin/env python3
"""plant.py FILE [ID...]: make (or remake) planted bugs, /verif/seeded/<id>, from the list SEEDS in FILE.

Every change is confirmed: it applies, builds, passes the stable tests, and its demonstration exits 0 without the
change and nonzero with it. The change is applied to /repo, and undone directly afterwards.
"""
import json, os, subprocess, sys, tempfile, runpy, shutil

REPO = "/repo"
OUT = "/verif/seeded"
DEMO = """#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
g++ -O1 -std=c++17 %s-DGOOSEFEM_VERSION='"0.0"' -I"$PWD/include" -I/usr/include/eigen3 "$here/demo.cpp" -o "$d/demo" || exit 2
timeout 200 "$d/demo"
"""


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def git(cmd):
    p = run(f"git -C {REPO} {cmd}")
    assert p.returncode == 0, p.stdout
    return p.stdout


def demo(d):
    p = run(f"bash {d}/demo.sh", cwd=REPO)
    return p.returncode, p.stdout[-500:]


seeds = runpy.run_path(sys.argv[1])["SEEDS"]
want = sys.argv[2:]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
assert git("status --porcelain") == "", "/repo is not clean"
original = {}
for s in seeds:
    if want and s["id"] not in want:
        continue
    d = f"{OUT}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/demo.cpp", "w") as f:
        f.write(s["demo"].lstrip())
    with open(f"{d}/demo.sh", "w") as f:
        f.write(s.get("sh") or DEMO % s.get("flags", ""))
    for src in s.get("copy", []):  # files that the demonstration needs beside it
        shutil.copytree(src, f"{d}/{os.path.basename(src)}", dirs_exist_ok=True)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    msg = []
    try:
        rc, out = demo(d)
        if rc != 0:
            msg.append(f"demo fails without change ({rc}): {out}")
        for file, old, new, *nth in s["edits"]:
            path = f"{REPO}/{file}" if "/" in file else f"{REPO}/include/GooseFEM/{file}"
            t = open(path).read()
            n = t.count(old)
            k = nth[0] if nth else 0
            if n == 0 or (n > 1 and not nth):
                raise RuntimeError(f"{n} matches in {file}: {old}")
            parts = t.split(old)
            t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(path, "w").write(t)
        with open(f"{d}/patch.diff", "w") as f:
            f.write(git("diff"))
        rc, out = demo(d)
        if rc == 0:
            msg.append("demo passes with change")
        elif rc == 2:
            msg.append("demo does not compile with change: " + out)
        p = run(f"bash /opt/vp/test.sh /tmp/plant/out.json")
        r = json.load(open("/tmp/plant/out.json"))
        bad = [t for t in base if t not in r["passed"]]
        if bad:
            msg.append(f"tests fail: {bad[:4]} {p.stdout[-500:] if len(bad) > 80 else ''}")
    except Exception as e:
        msg.append(repr(e))
    finally:
        git("checkout -- .")
    print(s["id"], s["property"], "OK" if not msg else msg, flush=True)
    if msg:
        shutil.rmtree(d)
run("bash /opt/vp/build.sh")
assert git("status --porcelain") == ""
