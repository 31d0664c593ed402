#!/usr/bin/env python3
"""Author-time helper: make /verif/seeded/<id>/ from an edit and a demonstration, and confirm it.
   ./tools/seed.py [--test] [--nocheck] ID...   (definitions in tools/seeds.py)"""
import json, os, subprocess, sys, shutil, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import seeds
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = """#!/bin/bash
# run with cwd /repo
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++20 -O1 -w %(fl)s -I. -I"$D" -I"$D/stubs" "$D/demo.cc" %(src)s -o "$T/demo" %(libs)s
timeout 60 "$T/demo"
"""
MANY = DEMO.replace('g++ -std=c++20 -O1 -w %(fl)s -I. -I"$D" -I"$D/stubs" "$D/demo.cc" %(src)s -o "$T/demo" %(libs)s', '''for f in "$D/demo.cc" %(src)s; do g++ -std=c++20 -O1 -w %(fl)s -I. -I"$D" -I"$D/stubs" -c "$f" -o "$T/$(basename $f).o" & done
wait
g++ "$T"/*.o -o "$T/demo" %(libs)s''')
ids = [a for a in sys.argv[1:] if a[0] != '-']
for s in seeds.SEEDS:
    if ids and s["id"] not in ids: continue
    d = f"{V}/seeded/{s['id']}"
    if sh("git -C /repo status --porcelain -uno").stdout.strip(): sys.exit("/repo not clean")
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    ok = True
    try:
        for f, a, b in s["edits"]:
            t = open(f"/repo/{f}").read()
            if t.count(a) != 1: sys.exit(f"{s['id']}: {f}: {t.count(a)} matches for {a!r}")
            open(f"/repo/{f}", "w").write(t.replace(a, b))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    open(f"{d}/demo.cc", "w").write(s["demo"])
    open(f"{d}/demo.sh", "w").write((MANY if len(s.get("src", [])) > 6 else DEMO) % dict(src=" ".join(s.get("src", [])), fl=s.get("fl", ""), libs=s.get("libs", "")))
    for st in s.get("stubs", []):
        o = f"{d}/stubs/{st}"
        src = f"{V}/stubs/{st}"
        os.makedirs(os.path.dirname(o), exist_ok=True)
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, o)
    json.dump(dict(property=s["p"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    res = [f"demo clean rc={r0.returncode}"]
    if r0.returncode: print(r0.stdout[-1500:])
    if "--test" in sys.argv:
        try:
            r = sh(f"git -C /repo apply {d}/patch.diff")
            if r.returncode: print("apply", r.stdout)
            r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_t.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            t = json.load(open("/tmp/seed_t.json"))
            miss = [x for x in base["stable"] if x not in t["passed"]]
            res.append(f"tests {'ok' if not miss else 'BROKEN ' + str(miss[:3])}")
        finally:
            sh("git -C /repo checkout -- .")
    C = f"/tmp/vseed/{s['id']}"
    shutil.rmtree(C, ignore_errors=True); os.makedirs("/tmp/vseed", exist_ok=True)
    sh(f"git -C /repo archive --prefix={s['id']}/ HEAD | tar x -C /tmp/vseed")
    r = sh(f"patch -p1 -s < {d}/patch.diff", cwd=C)
    if r.returncode: print("patch", r.stdout)
    r1 = sh(f"bash {d}/demo.sh", cwd=C)
    res.append(f"demo patched rc={r1.returncode}")
    if "--nocheck" not in sys.argv:
        c = sh(f"timeout 900 ./check {s['p']}", cwd=V, env=dict(os.environ, VERIF_REPO=C))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        res.append(f"check rc={c.returncode} {v[:1]}")
        if c.returncode != 1: print(c.stdout[-1500:])
    shutil.rmtree(C)
    print(s["id"], s["p"], "; ".join(res), flush=True)
if "--test" in sys.argv: sh("bash /opt/vp/build.sh")
