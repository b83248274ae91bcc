#!/usr/bin/env python3
"""Build the harness for one property from /repo's working tree and run it.

usage: check.py <property> [--replay FILE] [--scale X] [--only SCENARIO] [--jobs N]
       check.py --build-all
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_REPO (default /repo).
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: error.
"""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")

VARIANTS = {
    # name: (compiler, extra flags, link flags)
    # fine: every basic block of the code under test is a scheduling point
    "fine": ("clang++", ["-O1", "-g", "-fno-inline", "-fsanitize-coverage=bb,no-prune,trace-pc-guard",
                         "-fsanitize-coverage-allowlist=" + H + "/fine.list", "-Wno-everything"], []),
    "plain": ("g++", ["-O1", "-g"], []),
    "san": ("g++", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                    "-fno-sanitize=vptr,null,nonnull-attribute", "-fno-omit-frame-pointer"], ["-fsanitize=address,undefined"]),
}

# binary: (variant, harness sources, repo parts)
BINARIES = {
    "util":    ("fine", ["util.cc", "pbt.cc", "detsched.cc"], ["lib", "bees"]),
    "bytes":   ("san",   ["bytes.cc", "pbt.cc"], ["lib"]),
    "conc":    ("fine", ["conc.cc", "pbt.cc", "detsched.cc"], ["lib"]),
}
PROPS = {}

def load_props():
    """properties.map: '<id> <binary>' lines"""
    with open(os.path.join(H, "properties.map")) as f:
        for line in f:
            line = line.split("#")[0].split()
            if len(line) == 2:
                PROPS[line[0]] = line[1]
    p = os.path.join(H, "binaries.map")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.split("#")[0].split()
                if len(line) == 4:
                    BINARIES[line[0]] = (line[1], line[2].split(","), line[3].split(","))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def digest(*chunks):
    h = hashlib.sha1()
    for c in chunks:
        h.update(c if isinstance(c, bytes) else c.encode())
        h.update(b"\0")
    return h.hexdigest()

def read(p):
    with open(p, "rb") as f:
        return f.read()

def headers_hash():
    files = sorted(glob.glob(REPO + "/include/crucible/*") + glob.glob(REPO + "/src/*.h"))
    return digest(*[x for p in files for x in (os.path.basename(p), read(p))])

def harness_hash():
    files = sorted(glob.glob(H + "/*.h"))
    return digest(*[x for p in files for x in (os.path.basename(p), read(p))])

def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        os.utime(out)
        return None
    tmp = out + ".%d.tmp.o" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode:
        return " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")
    os.rename(tmp, out)
    return None

def build(binary):
    variant, hsrc, parts = BINARIES[binary]
    cxx, vflags, lflags = VARIANTS[variant]
    odir = os.path.join(BUILD, variant)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(odir, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    hh = headers_hash()
    hah = harness_hash()
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-D_FILE_OFFSET_BITS=64", "-U_FORTIFY_SOURCE",
           "-std=c++17", "-pthread", "-Wno-missing-field-initializers"]
    jobs, objs = [], []
    def add(src, extra=(), harness=False):
        cmd = [cxx] + vflags + inc + list(extra) + (["-I" + H, "-fno-threadsafe-statics"] if harness else []) + ["-c", src]
        key = digest(" ".join(cmd), read(src), hh, hah if harness else "", read(H + "/fine.list") if variant == "fine" else "")
        out = os.path.join(odir, os.path.basename(src) + "." + key[:20] + ".o")
        jobs.append((cmd, out))
        objs.append(out)
    for s in hsrc:
        add(os.path.join(H, s), harness=True)
    if "lib" in parts:
        for s in sorted(glob.glob(REPO + "/lib/*.cc")):
            add(s)
    if "bees" in parts or "beesmain" in parts:
        usage = read(REPO + "/src/bees-usage.txt").decode()
        text = "extern const char *BEES_USAGE, *BEES_VERSION;\nconst char *BEES_USAGE = \n"
        text += "\n".join('"' + l + '\\n"' for l in usage.splitlines()) + ";\nconst char *BEES_VERSION = \"verif\";\n"
        g = os.path.join(gen, "gen-%s.cc" % digest(text)[:12])
        if not os.path.exists(g):
            tmp = g + ".%d" % os.getpid()
            with open(tmp, "w") as f:
                f.write('extern "C" {\n' + text + "}\n")
            os.rename(tmp, g)
        add(g)
        for s in sorted(glob.glob(REPO + "/src/*.cc")):
            add(s, ["-Dmain=bees_real_main"] if os.path.basename(s) == "bees.cc" else [])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stdout.write("BUILD FAILED\n" + errs[0][-6000:] + "\n")
        return None
    key = digest(binary, *objs)[:20]
    exe = os.path.join(BUILD, "%s.%s" % (binary, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh([cxx] + lflags + ["-pthread", "-o", tmp] + objs + ["-latomic", "-ldl"])
        if r.returncode:
            sys.stdout.write("LINK FAILED\n" + r.stdout.decode(errors="replace")[-6000:] + "\n")
            return None
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    prune()
    return exe

def prune():
    """Keep the object cache bounded."""
    files = [p for v in list(VARIANTS) + ["."] for p in glob.glob(os.path.join(BUILD, v, "*")) if os.path.isfile(p)]
    total = sum(os.path.getsize(p) for p in files)
    if total < 3 << 30:
        return
    for p in sorted(files, key=os.path.getmtime):
        total -= os.path.getsize(p)
        try: os.unlink(p)
        except OSError: pass
        if total < 1 << 30:
            break

def main():
    load_props()
    if sys.argv[1:] == ["--build-all"]:
        ok = True
        for b in sorted(set(PROPS.values())):
            exe = build(b)
            print(b, exe)
            ok = ok and exe is not None
        return 0 if ok else 2
    prop = sys.argv[1]
    if prop not in PROPS:
        print("unknown property", prop)
        return 2
    exe = build(PROPS[prop])
    if exe is None:
        return 2
    scratch = os.path.join(BUILD, "scratch.%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    replay = os.path.join(BUILD, "replay")
    os.makedirs(replay, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    env = dict(os.environ, VERIF_SCRATCH=scratch, VERIF_KNOWN=os.path.join(VERIF, "known_findings.txt"),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", TZ="UTC", LC_ALL="C", MALLOC_ARENA_MAX="1")
    for k in ("BEESHOME", "BEESSTATUS", "RC_PARAMS"):
        env.pop(k, None)
    rest = sys.argv[2:]
    if "--replay" in rest[:-1]:
        i = rest.index("--replay") + 1
        rest[i] = os.path.abspath(rest[i])
    args = [exe, prop, "--out", replay] + rest
    if "--replay" not in sys.argv:
        args += ["--evidence", os.path.join(VERIF, "evidence", prop + ".json")]
    try:
        r = subprocess.run(args, env=env, cwd=scratch)
        rc = r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc in (0, 1) else 2

if __name__ == "__main__":
    sys.exit(main())
