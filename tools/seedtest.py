#!/usr/bin/env python3
"""seedtest.py ID... : applies seeded/ID to /repo, builds, runs the stable tests and the demo, runs the property's check,
reverts and runs the demo on the clean build. Prints a verdict per planted bug (development tool, not a check)."""
import json, subprocess, sys, os, time
V = "/verif"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
nochk = "--nocheck" in ids
ids = [i for i in ids if not i.startswith("--")]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        print(i, "PATCH FAILS", r.stdout); continue
    try:
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        o = json.load(open("/tmp/seed_out.json"))
        broke = stable - set(o["passed"])
        dm = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        res = "-"
        if not nochk:
            t0 = time.time()
            c = sh(f"VERIF_SEED=1 python3-vt run.py {meta['property']}", cwd=V)
            res = "caught" if c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout else "MISSED rc=%d" % c.returncode
            res += " %.0fs " % (time.time() - t0) + " ".join(l for l in c.stdout.splitlines() if "failed:" in l)[:200]
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    cl = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
    print(f"{i} [{meta['property']}] tests {'ok' if not broke else 'BROKEN ' + str(sorted(broke)[:3])}; demo patched={dm.returncode} clean={cl.returncode}"
          f"{'' if cl.returncode == 0 else cl.stdout[-300:]}; check: {res}", flush=True)
