#!/usr/bin/env python3
"""Build the harness of one property from /repo's working tree and run it.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--scale F] [--only SUB] [--repo DIR]
Exit 0: property held on everything explored; 1: VIOLATION line printed; 2: error.
"""
import glob, json, re, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, argparse, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("--tier"); ap.add_argument("--replay"); ap.add_argument("--scale", default="1")
ap.add_argument("--only", default=""); ap.add_argument("--repo", default=os.environ.get("VERIF_REPO", "/repo"))
ap.add_argument("--seed"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--jobs", default="8"); ap.add_argument("--cap", default="0")
A = ap.parse_args()
tier = A.tier or os.environ.get("VERIF_TIER") or "quick"
seed = A.seed or os.environ.get("VERIF_SEED") or "1"
REPO = A.repo
W = tempfile.mkdtemp(prefix="verif-%s-" % A.id)
def cleanup():
    if not A.keep: shutil.rmtree(W, ignore_errors=True)
def die(msg):
    sys.stderr.write("check error: %s\n" % msg); cleanup(); sys.exit(2)
signal.signal(signal.SIGTERM, lambda *a: die("terminated"))

# what each property needs: lib flavour, cli flavour, extras
NEEDS = {
 "C04": dict(cli="asan"), "C09": dict(lib="asan2"), "C02": dict(cli="asan"), "C05": dict(cli="asan"), "C18": dict(cli="plain", lib="asan2"), "C19": dict(lib="asan2"),
 "C21": dict(cli="asan", lib="plain"), "C22": dict(cli="asan", lib="plain"), "C23": dict(cli="asan", lib="plain", clioom=True), "C24": dict(cli="asan", lib="plain"),
 "C25": dict(asan="max_allocation_size_mb=250"),
 "C26": dict(lib="asan", tsan=True, wrap=True, asan="max_allocation_size_mb=250"), "C27": dict(amalg=True, asan="detect_odr_violation=0:max_allocation_size_mb=250"), "C28": dict(hs=True, lib="plain"),
 "C30": dict(lib="plain", wrap=True, jobs="3"),
 "C29": dict(lib="asan2", wrap=True, asan="max_allocation_size_mb=250"),
}
# multiplier of the generated cases in the quick tier, balancing the run times of the checks
QS = {"C28": 3, "C04": 2, "C06": 6, "C09": 10, "C02": 4, "C03": 4, "C05": 2, "C07": 5, "C08": 4, "C10": 8, "C12": 8, "C14": 2, "C15": 2, "C16": 20, "C17": 10, "C20": 3, "C24": 2}
LEVEL = {"C29": "fault_enumeration"}
N = NEEDS.get(A.id, {})
SAN = {
 "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
 "asan2": ["-O2", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
 "plain": ["-O2", "-g1"],
 "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def srcs(cli):
    l = sorted(glob.glob(REPO + "/src/*.c"))
    return l if cli else [s for s in l if os.path.basename(s) != "cli.c"]

# development only (mutation runs): objects are reused by content when VERIF_OBJCACHE names a directory
CACHE = os.environ.get("VERIF_OBJCACHE")
def content(*paths):
    import hashlib
    h = hashlib.sha256()
    for p in paths: h.update(open(p, "rb").read()); h.update(b"|")
    return h.hexdigest()
def cached(cmd, src, o, deps):
    if not CACHE: return sh(cmd + ["-c", src, "-o", o])
    import hashlib
    flags = " ".join(a for a in cmd if not a.startswith("-I" + W) and not a.startswith("-I" + REPO))
    k = os.path.join(CACHE, hashlib.sha256((flags + os.path.basename(src) + content(src, *deps)).encode()).hexdigest() + ".o")
    if not os.path.exists(k):
        r = sh(cmd + ["-c", src, "-o", o])
        if r.returncode: return r
        t = tempfile.mktemp(dir=CACHE); shutil.copy(o, t); os.rename(t, k)
    else: os.symlink(k, o)
    return subprocess.CompletedProcess(cmd, 0, "", "")

def compile_c(cc, src, flavour, outdir, extra=()):
    o = os.path.join(outdir, os.path.basename(src) + ".o")
    ign = ["-fsanitize-ignorelist=" + ROOT + "/tools/ubsan_ignore.txt"] if cc == "clang" and flavour == "asan" else []
    r = cached([cc, *SAN[flavour], *ign, "-w", "-I" + REPO + "/include", *extra], src, o, sorted(glob.glob(REPO + "/include/*.h")))
    return o, r
def build_objs(flavour, cli, extra=(), tag=""):
    for cc in ("clang", "gcc"):
        d = os.path.join(W, "obj-%s-%s%s-%s" % (flavour, "cli" if cli else "lib", tag, cc)); os.makedirs(d)
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda s: compile_c(cc, s, flavour, d, extra), srcs(cli)))
        bad = [r for o, r in rs if r.returncode]
        if not bad: return cc, [o for o, r in rs]
    die("the repository's sources do not compile: " + bad[0].stdout[-2000:])

def gen_header():
    hs = sorted(os.path.basename(h) for h in glob.glob(REPO + "/include/*.h") if not os.path.basename(h).startswith("stb_"))
    with open(W + "/flatcv_all.h", "w") as f:
        f.write("#include <stdint.h>\n#include <stdbool.h>\n#include <stddef.h>\n#include <stdlib.h>\n")
        for h in hs: f.write('#include "%s"\n' % h)

def build_harness(flavour, objs, name):
    exe = os.path.join(W, name)
    san = [f for f in SAN[flavour] if f.startswith("-fsanitize")]
    # the harness itself is only instrumented for what linking needs
    hsan = ["-fsanitize=address"] if flavour.startswith("asan") else ["-fsanitize=thread"] if flavour == "tsan" else []
    o = exe + ".o"
    r = cached(["clang++", "-std=c++17", "-O2", "-g1", "-w", *hsan, "-I" + W, "-I" + ROOT + "/src", "-I" + REPO + "/include",
            "-DHARNESS_" + flavour.upper()], "%s/src/%s.cpp" % (ROOT, A.id), o, sorted(glob.glob(ROOT + "/src/*.hpp") + glob.glob(REPO + "/include/*.h")))
    if r.returncode: die("harness does not compile: " + r.stdout[-4000:])
    r = sh(["clang++", *san, o, *objs, "-o", exe, "-lm", "-lz", "-lpthread", "-ldl", "-rdynamic", *(["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"] if N.get("wrap") else [])])
    if r.returncode: die("harness does not link: " + r.stdout[-3000:])
    return exe

def build_cli(flavour, name="flatcv_cli"):
    cc, objs = build_objs(flavour, True)
    exe = os.path.join(W, name)
    r = sh([cc, *SAN[flavour], *objs, "-o", exe, "-lm"])
    if r.returncode: die("CLI does not link: " + r.stdout[-3000:])
    if N.get("clioom"): # the same objects once more, with an allocator that can fail
        r = sh([cc, *SAN[flavour], *objs, ROOT + "/src/oomshim.c", "-o", exe + "_oom", "-lm", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup"])
        if r.returncode: die("CLI does not link with the failing allocator: " + r.stdout[-3000:])
    return exe

def build_amalg():
    """Generate flatcv.h/flatcv.c with the makefile's own rules and build them; a failure is left in the logs for the harness to judge."""
    d = W + "/amalg"; os.makedirs(d)
    for n in ("src", "include"): shutil.copytree(REPO + "/" + n, d + "/" + n)
    for n in ("makefile", "license.txt"): shutil.copy(REPO + "/" + n, d)
    r = sh(["make", "-B", "-s", "CC=gcc", "flatcv.h", "flatcv.c"], cwd=d)
    if r.returncode: die("amalgamation cannot be generated: " + r.stdout[-2000:])
    o = d + "/out"; os.makedirs(o)
    for n in ("flatcv.h", "flatcv.c"): shutil.move(d + "/" + n, o)
    shutil.rmtree(d + "/src"); shutil.rmtree(d + "/include")
    def so():
        r = sh(["clang", *SAN["asan"], "-fsanitize-ignorelist=" + ROOT + "/tools/ubsan_ignore.txt", "-w", "-fPIC", "-shared", "-Wl,-Bsymbolic", "flatcv.c", "-o", "libamalg.so.tmp", "-lm"], cwd=o)
        open(o + "/build.log", "w").write(r.stdout)
        if r.returncode == 0: os.rename(o + "/libamalg.so.tmp", o + "/libamalg.so")
    def obj(cc):
        os.makedirs(o + "/" + cc); r = sh([cc, "-O1", "-w", "-c", "flatcv.c", "-o", cc + "/flatcv.o"], cwd=o)
        open(o + "/" + cc + "/build.log", "w").write(r.stdout)
    with cf.ThreadPoolExecutor(3) as ex: list(ex.map(lambda f: f(), [so, lambda: obj("gcc"), lambda: obj("clang")]))
    return o

def main():
    gen_header()
    args = []
    lf = N.get("lib", "asan")
    with cf.ThreadPoolExecutor(4) as ex:
        fcli = ex.submit(build_cli, N["cli"]) if "cli" in N else None
        extra = []
        def lib():
            cc, objs = build_objs(lf, False, extra)
            return build_harness(lf, objs, "harness")
        flib = ex.submit(lib)
        exe = flib.result()
        if fcli: args += ["--cli", fcli.result()]
    if N.get("tsan"):
        cc, objs = build_objs("tsan", False)
        args += ["--aux", build_harness("tsan", objs, "harness_tsan")]
    if N.get("amalg"):
        import importlib.util
        args += ["--aux", build_amalg()]
    if N.get("hs"):
        sys.path.insert(0, ROOT + "/tools"); import hs_build
        try: args += ["--aux", hs_build.build(REPO, ROOT, W)]
        except hs_build.Error as e: die(str(e))
    scratch = W + "/scratch"; os.makedirs(scratch); os.chmod(scratch, 0o755)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    out = ROOT + "/evidence/%s.json" % A.id if not A.replay else W + "/ev.json"
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=0:quarantine_size_mb=16" + (":" + N["asan"] if "asan" in N else "")
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=99"
    env["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1"
    env["TMPDIR"] = scratch; env["VERIF_ROOT"] = ROOT
    cmd = [exe, "--seed", seed, "--tier", tier, "--jobs", N.get("jobs", A.jobs), "--scratch", scratch, "--out", out, "--replay-dir", ROOT + "/replays",
           "--level", LEVEL.get(A.id, "exploration"), "--repo", REPO, "--scale", str(float(A.scale) * (QS.get(A.id, 1) if tier == "quick" else 1)), "--cap", A.cap,
           "--build", "lib=%s%s, clang/gcc from /repo working tree" % (lf, " cli=" + N["cli"] if "cli" in N else ""), *args]
    if A.only: cmd += ["--only", A.only]
    if A.replay: cmd += ["--replay", A.replay]
    p = subprocess.run(cmd, env=env)
    if not A.replay:
        try: labels = json.dumps(json.load(open(out)))
        except Exception: labels = ""
        for l in open(ROOT + "/KNOWN_FINDINGS.txt"):
            m = re.match(r"known: property=(\w+) call=(\S+) (.*)", l)
            if m and m.group(1) == A.id and '"known:%s"' % m.group(2) in labels: print("KNOWN-FINDING: property=%s %s %s" % m.groups(), flush=True)
    cleanup()
    sys.exit(p.returncode if p.returncode in (0, 1) else 2)
try: main()
except SystemExit: raise
except BaseException as e:
    import traceback; traceback.print_exc(); die(repr(e))
