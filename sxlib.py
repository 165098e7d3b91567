"""Build and run support for the solver-based checks: engine build, bitcode regeneration from /repo, exploration, native replay."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
CACHE = os.environ.get("SX_CACHE", os.path.join(VERIF, ".cache"))
JOBS = os.cpu_count() or 8
LLVM = "/usr/lib/llvm-18"
NCHUNK = 16
GUARD = "LPP_VERIF"

BASEFLAGS = ["-DLPP_BUILDING_LIB", "-DNDEBUG", "-D" + GUARD, "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-fno-pic"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def incflags():
    inc = [os.path.join(CACHE, "gen"), REPO + "/include/lucene++", REPO + "/src/core/include"]
    inc += [REPO + "/src/contrib/include", REPO + "/src/contrib/snowball/libstemmer_c/include", ENGINE]
    return ["-I" + i for i in inc]


def gen_config():
    """Config.h as cmake generates it for the baseline build."""
    out = os.path.join(CACHE, "gen", "Config.h")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    src = REPO + "/_build/include/Config.h"
    text = None
    tmpl = REPO + "/include/config_h/Config.h.in"
    if os.path.exists(tmpl):
        text = open(tmpl).read()
        text = text.replace("#@LPP_SHARED_DLL@", "#define")
        text = re.sub(r"#@[A-Z_]+@", "#undef", text)
    elif os.path.exists(src):
        text = open(src).read()
    if not os.path.exists(out) or open(out).read() != text:
        open(out, "w").write(text)
    return text


_hash_cache = {}


def fhash(p):
    if p not in _hash_cache:
        with open(p, "rb") as f:
            _hash_cache[p] = hashlib.sha256(f.read()).hexdigest()
    return _hash_cache[p]


def hkey(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:24]


def headers_key():
    hs = []
    for root in (REPO + "/include", REPO + "/src/core/include", REPO + "/src/contrib/include", REPO + "/src/contrib/snowball/libstemmer_c"):
        for d, dn, fs in os.walk(root):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".in")):
                    hs.append((os.path.join(d, f), fhash(os.path.join(d, f))))
    # sources included by other sources are covered by the chunk key; md5.h etc. live beside their source
    for p in glob.glob(REPO + "/src/core/util/*/*.h") + glob.glob(REPO + "/src/core/*/*.h"):
        hs.append((p, fhash(p)))
    return hkey(sorted(set(hs)), gen_config())


CONTRIB_DIRS = {
    "contrib": ["analyzers/common", "highlighter", "memory", "snowball"],
}


def source_groups(groups):
    """list of (name, [sources], language)"""
    out = []
    core = []
    for d, dn, fs in os.walk(REPO + "/src/core"):
        if "/msvc" in d:
            continue
        core += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    core.sort()
    cfiles = sorted(glob.glob(REPO + "/src/core/util/**/*.c", recursive=True))
    n = NCHUNK
    for i in range(n):
        part = core[i::n]
        if part:
            out.append(("core%02d" % i, part, "c++"))
    for c in cfiles:
        out.append(("core-" + os.path.basename(c)[:-2], [c], "c"))
    if "contrib" in groups:
        con = []
        for d, dn, fs in os.walk(REPO + "/src/contrib"):
            if "/msvc" in d or "/examples" in d:
                continue
            con += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
        con.sort()
        for i in range(6):
            part = con[i::6]
            if part:
                out.append(("contrib%02d" % i, part, "c++"))
    if "snowball" in groups:
        base = REPO + "/src/contrib/snowball/libstemmer_c"
        cs = sorted(glob.glob(base + "/src_c/*UTF_8*.c") + glob.glob(base + "/runtime/*.c") + glob.glob(base + "/libstemmer/libstemmer_utf8.c"))
        if not any(x.endswith("libstemmer_utf8.c") for x in cs):
            cs += sorted(glob.glob(base + "/libstemmer/libstemmer_utf8*.c"))
        for c in cs:
            out.append(("snow-" + os.path.basename(c)[:-2], [c], "c"))
    return out


class BuildError(Exception):
    pass


def compile_cmd(lang):
    if lang == "c":
        return ["clang", "-O1"] + BASEFLAGS + ["-I" + REPO + "/src/contrib/snowball/libstemmer_c/include", "-emit-llvm", "-c"]
    return ["clang++", "-std=gnu++17", "-O2"] + BASEFLAGS + incflags() + ["-emit-llvm", "-c"]


def build_chunk(args):
    name, srcs, lang, hk = args
    key = hkey(name, [(s, fhash(s)) for s in srcs], lang, hk, BASEFLAGS, 3)
    bc = os.path.join(CACHE, "bc", name + "-" + key + ".bc")
    if os.path.exists(bc):
        return [bc]
    multi = bc[:-3] + ".list"
    if os.path.exists(multi):
        return open(multi).read().split()
    os.makedirs(os.path.dirname(bc), exist_ok=True)
    for old in glob.glob(os.path.join(CACHE, "bc", name + "-*")):
        try:
            if time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
        except OSError:
            pass
    tmp = bc + ".tmp%d.bc" % os.getpid()
    if lang == "c":
        r = sh(compile_cmd("c") + [srcs[0], "-o", tmp])
        if r.returncode:
            raise BuildError(srcs[0] + "\n" + r.stdout[-3000:])
        os.rename(tmp, bc)
        return [bc]
    unity = bc[:-3] + ".u%d.cpp" % os.getpid()
    with open(unity, "w") as f:
        f.write("".join('#include "%s"\n' % s for s in srcs))
    r = sh(compile_cmd(lang) + [unity, "-o", tmp])
    os.unlink(unity)
    if r.returncode == 0:
        os.rename(tmp, bc)
        return [bc]
    # the files do not combine into one translation unit: compile them one by one
    outs = []

    def one(s):
        o = bc[:-3] + "-" + hkey(s) + ".bc"
        rr = sh(compile_cmd(lang) + [s, "-o", o])
        if rr.returncode:
            raise BuildError(s + "\n" + rr.stdout[-3000:])
        return o
    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(one, srcs))
    open(multi, "w").write("\n".join(outs))
    return outs


def build_native_obj(bc):
    o = bc[:-3] + ".o"
    if not os.path.exists(o):
        tmp = o + ".tmp%d" % os.getpid()
        r = sh(["clang++", "-O0", "-fno-pic", "-w", "-c", bc, "-o", tmp])
        if r.returncode:
            raise BuildError(bc + "\n" + r.stdout[-2000:])
        os.rename(tmp, o)
    return o


def engine_dir():
    srcs = sorted(glob.glob(ENGINE + "/*.cpp") + glob.glob(ENGINE + "/*.h") + [ENGINE + "/Makefile"])
    return os.path.join(CACHE, "engine-" + hkey([(os.path.basename(s), fhash(s)) for s in srcs if os.path.basename(s) not in ("models.cpp", "replay_rt.cpp", "sx.h")]))


def build_engine():
    d = engine_dir()
    exe = os.path.join(d, "sxrun")
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        r = sh(["make", "-C", ENGINE, "-j4", "OUT=" + d])
        if r.returncode:
            raise BuildError("engine\n" + r.stdout[-3000:])
    return exe


def build_simple(src, out_prefix, cmd, extra=()):
    key = hkey(fhash(src), cmd, extra)
    o = os.path.join(CACHE, "bc", out_prefix + "-" + key + (".bc" if "-emit-llvm" in cmd else ".o"))
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + ".tmp%d%s" % (os.getpid(), o[-3:])
        r = sh(cmd + [src, "-o", tmp])
        if r.returncode:
            raise BuildError(src + "\n" + r.stdout[-4000:])
        os.rename(tmp, o)
    return o


def build_all(harness, groups, defs):
    """returns (engine exe, library bitcode list, models bitcode, harness bitcode)"""
    gen_config()
    hk = headers_key()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        chunks = source_groups(groups)
        # big chunks first
        chunks.sort(key=lambda c: -sum(os.path.getsize(s) for s in c[1]))
        fe = ex.submit(build_engine)
        fch = [ex.submit(build_chunk, (n, s, l, hk)) for n, s, l in chunks]
        fm = ex.submit(build_simple, ENGINE + "/models.cpp", "models", ["clang++", "-std=gnu++17", "-O2", "-w", "-fno-builtin", "-emit-llvm", "-c"], fhash(ENGINE + "/sx.h"))
        hcmd = ["clang++", "-std=gnu++17", "-O1"] + BASEFLAGS + incflags() + ["-I" + VERIF + "/harness"] + ["-D" + d for d in defs] + ["-emit-llvm", "-c"]
        hdeps = [fhash(p) for p in sorted(glob.glob(VERIF + "/harness/*.h"))]
        fh = ex.submit(build_simple, harness, "harness-" + os.path.basename(harness)[:-4], hcmd, (hk, hdeps, fhash(ENGINE + "/sx.h")))
        libs = []
        for f in fch:
            libs += f.result()
        return fe.result(), libs, fm.result(), fh.result()


NATIVELIBS = ["-lboost_filesystem", "-lboost_thread", "-lboost_iostreams", "-lboost_date_time", "-lboost_regex", "-lboost_system", "-lz", "-lpthread", "-ldl"]


def build_native(libs, hbc):
    """native executable of harness + code under test, from the same bitcode"""
    key = hkey(libs, hbc, fhash(ENGINE + "/replay_rt.cpp"), fhash(ENGINE + "/sx.h"))
    exe = os.path.join(CACHE, "native-" + key)
    if os.path.exists(exe):
        return exe
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fr = ex.submit(build_simple, ENGINE + "/replay_rt.cpp", "replay_rt", ["clang++", "-O0", "-g", "-w", "-c"], fhash(ENGINE + "/sx.h"))
        objs = list(ex.map(build_native_obj, libs + [hbc]))
        objs.append(fr.result())
    r = sh(["clang++", "-fuse-ld=lld", "-no-pie", "-rdynamic", "-o", exe + ".tmp"] + objs + NATIVELIBS)
    if r.returncode:
        r = sh(["clang++", "-no-pie", "-rdynamic", "-o", exe + ".tmp"] + objs + [x for x in NATIVELIBS if x != "-lboost_system"])
    if r.returncode:
        raise BuildError("native link\n" + r.stdout[-3000:])
    for old in glob.glob(os.path.join(CACHE, "native-*")):
        try:
            if time.time() - os.path.getmtime(old) > 1800:
                os.unlink(old)
        except OSError:
            pass
    os.rename(exe + ".tmp", exe)
    return exe


def native_run(exe, inputs, entry, timeout=60, valgrind=False):
    """(outcome, text): outcome in ok / reproduced / assume / crash / hang / other"""
    cmd = [exe, inputs, entry]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=9", "--undef-value-errors=no", "--leak-check=no", "--main-stacksize=100000000"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace", cwd=os.path.dirname(inputs))
    except subprocess.TimeoutExpired:
        return "hang", "no end after %d s" % timeout
    out = r.stdout if isinstance(r.stdout, str) else r.stdout.decode(errors="replace")
    if r.returncode == 0:
        return "ok", out[-600:]
    if r.returncode == 1 and "REPRODUCED" in out:
        return "reproduced", out[-600:]
    if r.returncode == 3:
        return "assume", out[-300:]
    if valgrind and r.returncode == 9:
        return "reproduced", out[:1500]
    if r.returncode < 0 or r.returncode >= 128:
        return "crash", "signal %d\n%s" % (-r.returncode, out[-600:])
    return "other", "exit %d\n%s" % (r.returncode, out[-600:])
