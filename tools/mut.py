#!/usr/bin/env python3
"""Mutation campaign in a private mount namespace, for work on the checks only (no check uses this).

mut.py MUTANTS.py OUT.jsonl [NAME-SUBSTRING ...]
MUTANTS.py defines M = [(name, property, file, old, new), ...]; old must occur exactly once in file
(file, old and new may be lists of equal length for changes at several places).
Copies /repo, /verif and /opt/vp to /tmp/lane$LANE and mounts them over the real paths, so the real ones stay free.
"""
import json, os, subprocess, sys, time
LANE = os.environ.get("LANE", "0")
L = f"/tmp/lane{LANE}"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
if os.environ.get("IN_LANE") != "1":
    os.makedirs(L, exist_ok=True)
    for s, d in (("/repo/", "repo"), ("/verif/", "verif"), ("/opt/vp/", "vp")):
        r = sh(f"rsync -a --delete {s} {L}/{d}/ || (rm -rf {L}/{d} && cp -a {s} {L}/{d})"); 
        if r.returncode: print(r.stderr); sys.exit(1)
    sh(f"cp {sys.argv[1]} {L}/mutants.py")
    a = " ".join(sys.argv[2:])
    c = f"mount --bind {L}/repo /repo && mount --bind {L}/verif /verif && mount --bind {L}/vp /opt/vp && cd /verif && IN_LANE=1 exec python3 {os.path.abspath(__file__) if not os.path.abspath(__file__).startswith('/verif') else '/verif/tools/mut.py'} {L}/mutants.py {a}"
    os.execvp("unshare", ["unshare", "-m", "bash", "-c", c])
ns = {}
exec(open(sys.argv[1]).read(), ns)
out = sys.argv[2]; only = sys.argv[3:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
aslist = lambda x: x if isinstance(x, list) else [x]
for name, prop, f, old, new in ns["M"]:
    if only and not any(o in name for o in only): continue
    sh("git -C /repo checkout -- .")
    rec = {"name": name, "prop": prop}
    try:
        fs, os_, ns_ = aslist(f), aslist(old), aslist(new)
        if len(fs) == 1: fs = fs * len(os_)
        for ff, o, n in zip(fs, os_, ns_):
            p = "/repo/crates/" + ff
            s = open(p).read()
            assert s.count(o) == 1, f"{ff}: {s.count(o)} occurrences of {o!r}"
            open(p, "w").write(s.replace(o, n))
    except Exception as e:
        rec["err"] = str(e)
        print(json.dumps(rec), flush=True); open(out, "a").write(json.dumps(rec) + "\n"); continue
    if os.environ.get("NOTEST") != "1":
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: rec["build"] = (r.stderr or r.stdout)[-1500:]
        else:
            sh(f"bash /opt/vp/test.sh {L}/o.json")
            o = json.load(open(f"{L}/o.json")); rec["tests"] = sorted(stable - set(o["passed"]))[:4]
    if "build" not in rec:
        for c in aslist(prop):
            t = time.time()
            r = sh(f"cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick timeout 900 ./check.sh {c} quick")
            rec[c] = r.returncode
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") and "replay=" in l]
            if v:
                try: rec["replay"] = open(v[-1].split("replay=")[1].strip()).read()[:20000]
                except OSError: pass
            rec["secs"] = round(time.time() - t)
            rec["msg"] = (r.stdout.strip()[:250] if r.returncode == 1 else r.stdout.strip()[-200:] + r.stderr.strip()[-800:] if r.returncode else "MISSED")
            if os.environ.get("STOP") == "1" and r.returncode: break
    print(json.dumps(rec), flush=True); open(out, "a").write(json.dumps(rec) + "\n")
sh("git -C /repo checkout -- .")
