#!/usr/bin/env python3
"""Create seeded/<id>/ from a spec file (python): ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO_C or DEMO_SH.
Works in a scratch copy; verifies that the edit applies, that the repository builds and demo passes/fails."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
for sp in spec["SPECS"]:
    ID = sp["id"]; d = "/verif/seeded/" + ID
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    wt = tempfile.mkdtemp(prefix="plant-")
    subprocess.check_call(["git", "clone", "-q", "/repo", wt + "/r"])
    r = wt + "/r"
    for f, old, new in sp["edits"]:
        p = r + "/" + f; s = open(p).read()
        n = sp.get("occ", 0); every = sp.get("all") or old.startswith("ALL:")
        if old.startswith("ALL:"): old = old[4:]
        assert old in s, (ID, f, old)
        if every: s = s.replace(old, new)
        elif n:
            i = -1
            for _ in range(n): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else:
            assert s.count(old) == 1, (ID, f, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    if "demo_c" in sp:
        open(d + "/demo.c", "w").write(sp["demo_c"])
        open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
SRC=$(ls src/*.c | grep -v '^src/cli\\.c$')
gcc -O1 %s -w -Iinclude "$D/demo.c" $SRC -lm -lpthread -o "$T/demo" || exit 3
timeout 120 "$T/demo"
""" % sp.get("cflags", ""))
    else:
        open(d + "/demo.sh", "w").write(sp["demo_sh"])
        for n, t in sp.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # build the CLI in the clone for shell demos, then run demo unchanged/changed
    def demo(env):
        subprocess.run(["make", "-B", "-s", "CC=gcc", "flatcv_linux"], cwd=r, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(r + "/flatcv_linux"): subprocess.run(["ln", "-sf", "flatcv_linux", r + "/flatcv"])
        return subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    a = demo("changed")
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
    b = demo("unchanged")
    ok = a.returncode != 0 and a.returncode != 3 and b.returncode == 0
    print(("OK  " if ok else "BAD ") + ID, "changed:", a.returncode, a.stdout[-150:].strip(), "| unchanged:", b.returncode, "" if b.returncode == 0 else b.stdout[-300:])
    shutil.rmtree(wt, ignore_errors=True)
