#!/usr/bin/env python3
"""Development aid: apply each planted change to /repo, run the stable tests and the property's check, undo.
usage: seedrun.py [--tests] [ID...]"""
import sys, os, json, subprocess, time
args = [a for a in sys.argv[1:] if not a.startswith("--")]
S = "/verif/seeded"
base = json.load(open("/opt/vp/BASELINE.json"))
for i in args or sorted(os.listdir(S)):
    d = S + "/" + i; m = json.load(open(d + "/meta.json"))
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        t = ""
        if "--tests" in sys.argv:
            b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedrun.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            c = subprocess.run(["python3", "/verif/tools/cmp_baseline.py", "/tmp/seedrun.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            t = "tests rc=%d %s" % (c.returncode, c.stdout.strip()[-200:])
        t0 = time.time()
        r = subprocess.run(["python3", "/verif/tools/check.py", m["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print("%-8s %s %s rc=%d %.0fs %s | %s" % ("CAUGHT" if r.returncode == 1 else "MISSED", i, m["property"], r.returncode, time.time() - t0, [l for l in r.stdout.splitlines() if "VIOLATION" in l or r.returncode == 2][-1:], t), flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
if "--tests" in sys.argv: subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
