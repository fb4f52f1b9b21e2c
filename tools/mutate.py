#!/usr/bin/env python3
"""Mutation campaign: applies each planted change of mutants.py to a scratch copy of /repo
and runs the checks of the properties it should break, from a scratch copy of /verif.
usage: mutate.py [worker-count] [id-substring ...]      (scratch: /tmp/mut<n>, removed at the end)"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mutants import M
SRC = os.environ.get("MUT_REPO", "/repo"); VER = os.environ.get("MUT_VERIF", "/verif")
nw = int(sys.argv[1]) if len(sys.argv) > 1 else 2
sel = sys.argv[2:]
ms = [m for m in M if not sel or any(s in m[0] for s in sel)]
local = threading.local()
free = list(range(nw)); lock = threading.Lock()
def setup(i):
    d = f"/tmp/mut{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/verif")
    subprocess.check_call(["cp", "-a", SRC, d + "/repo"])
    shutil.rmtree(d + "/repo/target", ignore_errors=True)
    subprocess.check_call(["cp", "-a"] + [f"{VER}/{x}" for x in ("pbt", "run.sh", "MANIFEST.json", "properties.jsonl")] + [d + "/verif/"])
    subprocess.check_call(["sed", "-i", f"s#^knx-ip-client = .*#knx-ip-client = {{ path = \"{d}/repo\" }}#", d + "/verif/pbt/Cargo.toml"])
    for f in ("replays", "evidence"):
        os.makedirs(d + "/verif/" + f, exist_ok=True)
    return d
def run(m):
    if not hasattr(local, "d"):
        with lock: i = free.pop()
        local.d = setup(i)
    d = local.d
    mid, edits, props = m
    subprocess.check_call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
    for f, old, new in edits:
        p = f"{d}/repo/src/{f}"
        s = open(p).read()
        n = 1
        if isinstance(old, tuple): old, n = old   # n-th occurrence
        parts = s.split(old)
        if len(parts) <= n: return mid, "BAD-EDIT", f"{f}: {old[:60]!r} occurs {len(parts)-1}x"
        s = old.join(parts[:n]) + new + old.join(parts[n:])
        open(p, "w").write(s)
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_DIR=d + "/verif", CARGO_NET_OFFLINE="true")
    t = subprocess.run(["cargo", "test", "--offline", "--lib", "-q"], cwd=d + "/repo", env=env, capture_output=True, text=True)
    mm = re.search(r"(\d+) passed; (\d+) failed", t.stdout)
    if not mm: return mid, "NO-BUILD", t.stderr[-800:]
    if int(mm.group(1)) < 7: return mid, "TESTS", t.stdout[-600:]
    out = []
    caught = False
    for p in props:
        t0 = time.time()
        r = subprocess.run(["timeout", "900", d + "/verif/run.sh", p], env=env, capture_output=True, text=True)
        v = re.search(r"VIOLATION property=(\S+)", r.stdout)
        ok = r.returncode == 1 and v and v.group(1) == p
        caught |= bool(ok)
        line = next((l for l in r.stdout.splitlines() + r.stderr.splitlines() if "FAIL" in l or "violat" in l.lower()), "")
        out.append(f"{p}:{'caught' if ok else 'rc'+str(r.returncode)} {time.time()-t0:.0f}s {'' if ok else (r.stdout+r.stderr)[-300:]}")
    return mid, ("ok" if all('caught' in o for o in out) else "partial" if caught else "MISSED"), " | ".join(out)
with ThreadPoolExecutor(nw) as ex:
    for mid, st, info in ex.map(run, ms):
        print(f"{st:8} {mid:40} {info}", flush=True)
for i in range(nw): shutil.rmtree(f"/tmp/mut{i}", ignore_errors=True)
