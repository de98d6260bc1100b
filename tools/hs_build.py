"""Build the Haskell request driver (src/hs/Driver.hs) against the bindings in /repo, as cabal would, with the generated flatcv.c."""
import os, shutil, subprocess
class Error(Exception): pass
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def need(cmd, cwd, what):
    r = sh(cmd, cwd)
    if r.returncode: raise Error("%s: %s" % (what, r.stdout[-3000:]))
def build(REPO, ROOT, W):
    d = W + "/hs"; os.makedirs(d)
    for n in ("src", "include"): shutil.copytree(REPO + "/" + n, d + "/c/" + n)
    for n in ("makefile", "license.txt"): shutil.copy(REPO + "/" + n, d + "/c")
    need(["make", "-B", "-s", "CC=gcc", "flatcv.h", "flatcv.c"], d + "/c", "amalgamation cannot be generated")
    b = d + "/b"; os.makedirs(b + "/gen/FlatCV")
    shutil.copytree(REPO + "/bindings/flatcv-hs/src", b + "/src")
    shutil.copy(d + "/c/flatcv.h", b); shutil.copy(d + "/c/flatcv.c", b + "/flatcv_impl.c"); shutil.rmtree(d + "/c")
    for n in ("Driver.hs", "probe.c"): shutil.copy(ROOT + "/src/hs/" + n, b)
    need(["c2hs", "-C-I.", "--output-dir=gen", "--output=FlatCV/Raw.hs", "src/FlatCV/Raw.chs"], b, "c2hs fails on the bindings")
    for san in (["-fsanitize=address"], []): # without the sanitizer where its runtime does not start under GHC's
        objs = []
        for src in ("flatcv_impl.c", "gen/FlatCV/Raw.chs.c", "probe.c"):
            if not os.path.exists(b + "/" + src): continue
            o = os.path.basename(src) + ".o"; objs.append(o)
            need(["gcc", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", *san, "-I.", "-Igen", "-Igen/FlatCV", "-c", src, "-o", o], b, "the bindings' C part does not compile")
        need(["ghc", "-O0", "--make", "-w", "-XRecordWildCards", "-isrc", "-igen", "-outputdir", "out", "Driver.hs", *objs, *["-optl" + s for s in san], "-optl-no-pie", "-o", "driver"], b, "the bindings do not compile")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        r = sh([b + "/driver"], b, input="", env=env, timeout=60)
        if r.returncode == 0: return b + "/driver"
    raise Error("the Haskell driver does not start: " + r.stdout[-1000:])
