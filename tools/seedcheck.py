#!/usr/bin/env python3
"""For each planted bug of /verif/seeded: in a scratch copy of /repo, applies the patch, runs the unit
tests and then the check of its property (from a scratch copy of /verif); also tells whether the
patch replaces lines of the original repository. usage: seedcheck.py [-all] [id ...]
-all: runs every check, not only that of the property."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
every = "-all" in a
ids = [x for x in a if x != "-all"] or sorted(os.listdir(V + "/seeded"))
d = f"/tmp/seedcheck{os.getpid()}"
os.makedirs(d + "/verif/evidence")
subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
shutil.rmtree(d + "/repo/target", ignore_errors=True)
subprocess.check_call(["cp", "-a", V + "/pbt", V + "/run.sh", V + "/MANIFEST.json", V + "/properties.jsonl", d + "/verif/"])
subprocess.check_call(["sed", "-i", f's#path = "/repo"#path = "{d}/repo"#', d + "/verif/pbt/Cargo.toml"])
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_DIR=d + "/verif", CARGO_NET_OFFLINE="true")
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
try:
    for i in ids:
        prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        git = ["git", "-C", d + "/repo"]
        subprocess.check_call(git + ["checkout", "-q", "--", "."])
        orig = fix = 0
        f = None
        for l in open(f"{V}/seeded/{i}/patch.diff"):
            if l.startswith("--- a/"): f = l[6:].strip()
            elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith(" "): n += 1
            elif l.startswith("-"):
                b = subprocess.check_output(git + ["blame", "-s", "-b", "-L", f"{n},{n}", f], text=True)
                if b.startswith(" "): orig += 1
                else: fix += 1
                n += 1
        subprocess.check_call(git + ["apply", f"{V}/seeded/{i}/patch.diff"])
        t = subprocess.run(["cargo", "test", "--offline", "--lib", "-q"], cwd=d + "/repo", env=env, capture_output=True, text=True)
        m = re.search(r"(\d+) passed; (\d+) failed", t.stdout)
        out = []
        for p in props if every else [prop]:
            t0 = time.time()
            r = subprocess.run(["timeout", "900", d + "/verif/run.sh", p], env=env, capture_output=True, text=True)
            ok = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            if ok or p == prop or r.returncode not in (0, 1):
                out.append(f"{p}:{'caught' if ok else 'rc%d' % r.returncode} {time.time()-t0:.0f}s" + ("" if ok else " " + (r.stdout + r.stderr)[-300:]))
        print(f"{i:28} original lines {orig} own {fix} tests {m.groups() if m else t.stderr[-300:]} {' '.join(out)}", flush=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
