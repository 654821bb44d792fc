#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy bound over /repo in a private mount namespace (never in the real /repo).
usage: plant.py ID...          confirm (builds, stable tests pass, demo 0 without / nonzero with) and run the property's check
       plant.py --check ID...  only run the check against the bug
Prints one line per bug."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, timeout=1500, env=None):
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("latin-1")
def one(a):
    bid, only = a
    d = f"{V}/seeded/{bid}"
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    out = []
    try:
        rc, o = sh(f"cp -a /repo {w}/repo && git -C {w}/repo checkout -q -- . && git -C {w}/repo apply {d}/patch.diff")
        if rc:
            return f"{bid}: patch does not apply: {o[:300]}"
        ns = lambda cmd: sh(f"unshare -Urm bash -c 'mount --bind {w}/repo /repo && cd /repo && {cmd}'")
        if not only:
            shutil.copytree(d, f"{w}/demo")
            for f in os.listdir(f"{w}/demo"):
                if f.endswith((".diff", ".patch")) or f == "meta.json":
                    os.remove(f"{w}/demo/{f}")
            rc0, o0 = sh(f"cd /repo && bash {w}/demo/demo.sh", 300)
            rc, o = ns(f"bash /opt/vp/build.sh >{w}/b.log 2>&1 && bash /opt/vp/test.sh {w}/out.json >{w}/t.log 2>&1; bash {w}/demo/demo.sh")
            o1 = o
            try:
                st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                miss = sorted(st - set(json.load(open(f"{w}/out.json"))["passed"]))
            except Exception as e:
                miss = [str(e), open(f"{w}/b.log", errors="replace").read()[-1500:]]
            out.append(f"demo clean {rc0} patched {rc}; tests missing {len(miss)}")
            if rc0:
                out.append("DEMO FAILS ON CLEAN: " + o0[-600:])
            if rc == 0:
                out.append("DEMO PASSES ON PATCHED")
            if miss:
                out.append("MISSING " + str(miss[:3])[-1800:])
        c = f"{V}/checks/{meta['property']}.py"
        if os.path.exists(c):
            rc, o = sh(f"python3 {c}", 1200, dict(os.environ, VERIF_REPO=f"{w}/repo", VERIF_EVID=f"{w}/ev", VERIF_KEEP="40"))
            br = [l for l in o.splitlines() if "broken:" in l]
            out.append(f"check {'CAUGHT' if rc == 1 and 'VIOLATION' in o else 'MISSED'} rc={rc} {br[:1] or o[-200:]}")
        else:
            out.append("no check yet")
        return f"{bid}: " + "; ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
ids = [x for x in sys.argv[1:] if not x.startswith("-")]
if "--all" in sys.argv:
    ids = sorted(os.listdir(V + "/seeded"))
only = "--check" in sys.argv
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [(i, only) for i in ids]):
        print(r, flush=True)
