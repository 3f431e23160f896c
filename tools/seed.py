#!/usr/bin/env python3
"""Planted bugs, for work on the checks only (no check uses this).

seed.py new ID PROPERTY MAIN.rs NEEDS WHAT   take /repo's uncommitted diff as planted bug ID
seed.py try ID [check ...]                   build, tests, demo on both trees, then the checks (default: own)
"""
import json, os, shutil, subprocess, sys, time
S = "/verif/seeded"
KIT = "/verif/tools/demokit"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def revert(): sh("git -C /repo checkout -- .")
cmd, i = sys.argv[1:3]
d = f"{S}/{i}"
if cmd == "new":
    prop, main, needs, what = sys.argv[3:7]
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff, "no diff"
    open(f"{d}/patch.diff", "w").write(diff)
    revert()
    shutil.rmtree(f"{d}/kit", ignore_errors=True)
    os.makedirs(f"{d}/kit/src")
    for f in ("Cargo.toml", "build.rs"): shutil.copy(f"{KIT}/{f}", f"{d}/kit/{f}")
    shutil.copytree("/verif/llvm", f"{d}/kit/llvm", symlinks=True, ignore=shutil.ignore_patterns("lib"))
    for f in ("exec.rs", "host.rs", "src.rs"): shutil.copy(f"/verif/harness/src/{f}", f"{d}/kit/src/{f}")
    shutil.copy(f"{KIT}/src/kit.rs", f"{d}/kit/src/kit.rs")
    body = open(main).read()
    open(f"{d}/kit/src/main.rs", "w").write("#![allow(warnings)]\nmod exec;\nmod host;\nmod kit;\nmod src;\n" + body)
    shutil.copy(f"{KIT}/demo.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    print("wrote", d)
elif cmd == "try":
    assert not sh("git -C /repo status --porcelain").stdout, "/repo not clean"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    env = dict(os.environ, DEMO_TARGET="/tmp/demot")
    out = []
    r = sh(f"cd /repo && bash {d}/demo.sh", env=env); out.append(f"demo clean rc={r.returncode}")
    if r.returncode: print(r.stdout[-1500:], r.stderr[-500:])
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stderr
        r = sh("bash /opt/vp/build.sh"); out.append(f"build rc={r.returncode}")
        if r.returncode: print(r.stderr[-2500:])
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        o = json.load(open("/tmp/seed-out.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        out.append(f"tests missing={sorted(st-set(o['passed']))[:6]}")
        sh("find /tmp/demot -name 'nothing'")
        r = sh(f"cd /repo && bash {d}/demo.sh", env=env); out.append(f"demo patched rc={r.returncode}")
        print(r.stdout[-600:])
        for c in (sys.argv[3:] or [prop]):
            t = time.time()
            r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh {c} quick")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check {c} rc={r.returncode} {v[-1] if v else ''} {time.time()-t:.0f}s")
            if r.returncode == 1: out.append("   " + r.stdout.strip()[:300].replace("\n", " | "))
    finally:
        revert()
    print(i, prop); print("\n".join(out))
