#!/usr/bin/env python3
"""tryseeds.py [seed | patch.diff ...] [--all-checks] [--tier T] [--checks C01,C02]: what the checks say of planted bugs.

A development aid; no registered check uses it. Every trial has its own mount namespace, in which a
copy of the two trees lies over /repo and /verif, so that the real ones are never touched."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
opt = lambda n, d=None: args[args.index(n) + 1] if n in args else d
tier, only = opt("--tier", "quick"), opt("--checks")
names = [a for i, a in enumerate(args) if not a.startswith("-") and (i == 0 or args[i - 1] not in ("--tier", "--checks"))]
names = names or sorted(os.listdir(S))
checks = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
W = "/tmp/tryseeds.%d" % os.getpid()
os.makedirs(W)
try:
    subprocess.check_call("cp -a /repo %s/repo; mkdir %s/verif; cp -a %s/. %s/verif/" % (W, W, V, W), shell=True)
    for s in names:
        if s.endswith(".diff") or s == "none":
            patch, props = os.path.abspath(s), checks
            b = os.path.basename(s).split("-")[0]       # C01-what.diff: tried against C01
            if b in checks: props = [b]
        else:
            patch = os.path.join(S, s, "patch.diff")
            props = [json.load(open(os.path.join(S, s, "meta.json")))["property"]]
        if "--all-checks" in args: props = checks
        if only: props = only.split(",")
        subprocess.check_call("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", shell=True, cwd=W + "/repo")
        if s != "none" and subprocess.run(["git", "apply", patch], cwd=W + "/repo").returncode:
            print(s, "DOES NOT APPLY"); continue
        got = []
        for p in props:
            t = time.time()
            r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=%s exec ./check %s" % (W, W, tier, p)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            hit = r.returncode == 1 and ("VIOLATION property=" + p) in r.stdout
            got.append("%s:%s(%.0fs)" % (p, "CAUGHT" if hit else "rc%d" % r.returncode, time.time() - t))
            if len(props) == 1 or "-v" in args:
                got.append(" | ".join((r.stdout.strip().splitlines() or r.stderr.strip().splitlines()[-1:])[:1])[:300])
            if r.returncode not in (0, 1):
                got.append("STDERR " + r.stderr[-600:])
        print(s, " ".join(got), flush=True)
finally:
    shutil.rmtree(W)
