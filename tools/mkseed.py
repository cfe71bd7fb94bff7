#!/usr/bin/env python3-vt
"""planted bugs: tools/mkseed.py make [ids]  writes /verif/seeded/<id>/ from tools/seeds.py
                tools/mkseed.py test [ids]  applies each to /repo in turn: builds, runs the stable tests, the demo and the check, reverts"""
import json, os, subprocess, sys, shutil, importlib
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
import seeds
REPO = "/repo"
DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++23 -O1 -g {flags} -DFMT_HEADER_ONLY -w -I"$D/stubs" -Iinclude "$D/demo.cc" {srcs} -o "$T/demo" -pthread || exit 2
cd "$T" && timeout 60 ./demo
"""

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def make(s):
    d = os.path.join(R, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert sh(f"git -C {REPO} status --porcelain").stdout.strip() == "", "dirty repo"
    for f, old, new in s["edits"]:
        p = os.path.join(REPO, f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(p, "w", newline="").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True).stdout
    sh(f"git -C {REPO} checkout -- .")
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.format(flags=s.get("flags", "-fsanitize=address,undefined -fno-sanitize-recover=all"), srcs=s.get("srcs", "")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if s.get("stubs"):
        shutil.copytree(os.path.join(R, "stubs"), os.path.join(d, "stubs"))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)

def test(sid, check=True):
    d = os.path.join(R, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean = sh(f"bash {d}/demo.sh", cwd=REPO)
    r = sh(f"git -C {REPO} apply {d}/patch.diff")
    if r.returncode:
        return sid, "APPLY FAILED " + r.stderr
    try:
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json", cwd=REPO)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        ok = base - set(json.load(open("/tmp/seed_out.json"))["passed"])
        bad = sh(f"bash {d}/demo.sh", cwd=REPO)
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3-vt -m vf.run {prop}", cwd=R) if check else None
    finally:
        sh(f"git -C {REPO} checkout -- .")
    v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")] if c else []
    fi = [l for l in c.stdout.split("\n") if "failing input" in l or "undischarged" in l][:4] if c else []
    return sid, f"{prop} demo clean={clean.returncode} patched={bad.returncode} tests {'ok' if not ok else 'BROKEN ' + str(sorted(ok)[:3])} check rc={c.returncode if c else '-'} {v} {(c.stdout+c.stderr)[-300:] if c and c.returncode not in (0,1) else ''} {fi}"

if __name__ == "__main__":
    ids = sys.argv[2:]
    if sys.argv[1] == "make":
        for s in seeds.SEEDS:
            if not ids or s["id"] in ids:
                make(s)
                print("made", s["id"])
    else:
        for s in (ids or sorted(os.listdir(os.path.join(R, "seeded")))):
            print(*test(s), flush=True)
        sh("bash /opt/vp/build.sh")
