#!/usr/bin/env python3
"""Applies each refactoring of tools/refactors (changes that keep the behaviour) to a scratch copy of
/repo and runs the checks (from a scratch copy of /verif): every check must stay quiet.
usage: refactors.py [-seed N] [name ...] [-p id ...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
seed = "1"
if "-seed" in a:
    i = a.index("-seed"); seed = a[i + 1]; del a[i:i + 2]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
if "-p" in a:
    i = a.index("-p"); props = a[i + 1:]; del a[i:]
names = a or sorted(f[:-5] for f in os.listdir(V + "/tools/refactors"))
bad = 0
for name in names:
    d = f"/tmp/refactor{os.getpid()}"
    os.makedirs(d + "/verif/evidence"); os.makedirs(d + "/repo")
    try:
        subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {d}/repo && cp /repo/Cargo.lock {d}/repo/", shell=True)
        subprocess.check_call(["patch", "-s", "-p1", "-d", d + "/repo", "-i", f"{V}/tools/refactors/{name}.diff"])
        subprocess.check_call(["cp", "-a", V + "/pbt", V + "/run.sh", V + "/MANIFEST.json", V + "/properties.jsonl", d + "/verif/"])
        for f in ("known_findings.txt",):
            if os.path.exists(f"{V}/{f}"): shutil.copy(f"{V}/{f}", d + "/verif/")
        subprocess.check_call(["sed", "-i", f's#path = "/repo"#path = "{d}/repo"#', d + "/verif/pbt/Cargo.toml"])
        env = dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick", VERIF_DIR=d + "/verif", CARGO_NET_OFFLINE="true")
        t0 = time.time()
        for p in props:
            r = subprocess.run(["timeout", "900", d + "/verif/run.sh", p], env=env, capture_output=True, text=True)
            if r.returncode:
                bad += 1
                print(f"{name} {p} rc={r.returncode} {(r.stdout + r.stderr)[-1500:]}", flush=True)
        print(f"{name}: {len(props)} checks, {time.time() - t0:.0f} s", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("alarms", bad)
