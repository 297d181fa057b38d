"""Builds /repo's current working tree in the variants the monitors need.

meson only configures (out of tree); its compile commands are then executed here with the
variant's compiler, flags and defines, so every instrumentation uses the project's own list of
sources and defines."""
import concurrent.futures, hashlib, json, os, re, shlex, shutil, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
BUILD = os.environ.get("FV_BUILD", os.path.join(VERIF, "build"))
NCPU = min(8, os.cpu_count() or 1)
ENV = dict(os.environ, CC="gcc", CXX="g++", CFLAGS="", CXXFLAGS="", CPPFLAGS="", LDFLAGS="", LC_ALL="C.UTF-8",
           PYTHONDONTWRITEBYTECODE="1")
SETS = ["128s", "128f", "192s", "192f", "256s", "256f",
        "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       stdin=subprocess.DEVNULL, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


_tree = None


def tree_hash():
    """hash of everything in /repo a build can depend on"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d, ds, fs in os.walk(REPO):
            ds[:] = sorted(x for x in ds if x not in (".git", "_build", "tests") and not x.startswith("build"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p):
                    h.update(os.readlink(p).encode())
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
        _tree = h.hexdigest()[:16]
    return _tree


class Variant:
    def __init__(self, name, openssl=True, sha3="opt64", cc="gcc", cxx="g++", opt=("-O2",), flags=(), link=(),
                 define=(), undef=(), defer=None, harness_flags=None, pic=True):
        self.name, self.openssl, self.sha3, self.cc, self.cxx = name, openssl, sha3, cc, cxx
        self.opt, self.flags, self.link = list(opt), list(flags), list(link)
        self.define, self.undef = list(define), list(undef)
        self.harness_flags = list(flags) if harness_flags is None else list(harness_flags)


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SHIM = os.path.join(VERIF, "harness", "shim_struct.h")   # the structure representation of field elements
TRACE = ["-fsanitize-coverage=trace-pc,trace-loads,trace-stores"]
VARIANTS = {v.name: v for v in [
    Variant("plain"),
    Variant("portable", openssl=False, sha3="plain32", opt=("-O3",)),
    Variant("noossl", openssl=False, sha3="opt64", opt=("-O3",)),
    Variant("asan", opt=("-O1", "-g"), flags=SAN),
    Variant("asan_portable", openssl=False, sha3="plain32", opt=("-O2", "-g"), flags=SAN),
    Variant("asan_avx2", sha3="avx2", opt=("-O1", "-g"), flags=SAN),
    Variant("tsan", opt=("-O1", "-g"), flags=["-fsanitize=thread", "-fno-omit-frame-pointer"]),
    Variant("tsan_noossl", openssl=False, opt=("-O2", "-g"), flags=["-fsanitize=thread", "-fno-omit-frame-pointer"]),
    Variant("msan", openssl=False, cc="clang", cxx="clang++", opt=("-O2", "-g"),
            flags=["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    Variant("avx2x", sha3="avx2", opt=("-O3", "-march=native")),
    Variant("nox4", openssl=False, opt=("-O1",), undef=["WITH_KECCAK_X4"]),
    Variant("O0", openssl=False, opt=("-O0",)),
    Variant("O0ssl", opt=("-O0",)),
    Variant("structf", opt=("-O2", "-include", SHIM)),
    Variant("structc", openssl=False, cc="clang", cxx="clang++", opt=("-O3", "-include", SHIM)),
    Variant("clang", cc="clang", cxx="clang++", opt=("-O3",)),
    Variant("trace", cc="clang", cxx="clang++", opt=("-O2", "-g"), flags=TRACE, harness_flags=[]),
    Variant("trace_noossl", openssl=False, cc="clang", cxx="clang++", opt=("-O2", "-g"), flags=TRACE, harness_flags=[]),
    Variant("vg", opt=("-O2", "-g"), define=["WITH_VALGRIND"]),
    Variant("vg_noossl", openssl=False, opt=("-O2", "-g"), define=["WITH_VALGRIND"]),
    Variant("vg_portable", openssl=False, sha3="plain32", opt=("-O2", "-g"), define=["WITH_VALGRIND"]),
]}

NOBZERO = os.path.join(VERIF, "harness", "shim_nobzero.h")
for _cc, _cxx in (("gcc", "g++"), ("clang", "clang++")):
    for _o in ("-O0", "-O1", "-O2", "-O3", "-Os"):
        for _n, _x in (("", []), ("_nobz", ["-include", NOBZERO])):
            VARIANTS["clr_%s%s%s" % (_cc, _o, _n)] = Variant("clr_%s%s%s" % (_cc, _o, _n), cc=_cc, cxx=_cxx, opt=[_o] + _x)
    for _n, _x in (("", []), ("_nobz", ["-include", NOBZERO])):
        VARIANTS["clr_%s_lto%s" % (_cc, _n)] = Variant("clr_%s_lto%s" % (_cc, _n), cc=_cc, cxx=_cxx, opt=["-O2", "-flto"] + _x,
                                                       link=["-flto", "-O2"] + (["-fuse-ld=lld"] if _cc == "clang" else []))

# the ways of building compared with each other by C13
ALLOC = [os.path.join(VERIF, "harness", "shim_alloc%d.h" % i) for i in (1, 2, 3)]
for _v in [
    Variant("x_Os", opt=("-Os",)),
    Variant("x_O1native", opt=("-O1", "-march=native")),
    Variant("x_lto", opt=("-O3", "-flto"), link=["-flto", "-O3"]),
    Variant("x_ltoclang", sha3="avx2", cc="clang", cxx="clang++", opt=("-O2", "-flto"), link=["-flto", "-fuse-ld=lld"]),
    Variant("x_ndebug", sha3="plain32", opt=("-O3", "-DNDEBUG")),
    Variant("x_noconfig", opt=("-O1",), undef=["HAVE_CONFIG_H"]),
    Variant("x_oqs", opt=("-O1", "-DOQS", "-I" + os.path.join(VERIF, "harness", "env"), "-include", "oqs/common.h"), undef=["HAVE_CONFIG_H", "WITH_KECCAK_X4"]),
    Variant("x_oqsO3", cc="clang", cxx="clang++", opt=("-O3", "-DOQS", "-I" + os.path.join(VERIF, "harness", "env"), "-include", "oqs/common.h"), undef=["HAVE_CONFIG_H", "WITH_KECCAK_X4"]),
    Variant("x_supercop", openssl=True, opt=("-O2", "-DSUPERCOP", "-I" + os.path.join(VERIF, "harness", "env")), undef=["HAVE_CONFIG_H"]),
    Variant("x_noconfigclang", sha3="plain32", cc="clang", cxx="clang++", opt=("-Os", "-march=native"), undef=["HAVE_CONFIG_H"]),
    Variant("x_clangO1", cc="clang", cxx="clang++", opt=("-O1",)),
    Variant("x_structnative", opt=("-O3", "-march=native", "-DNDEBUG", "-include", SHIM)),
    Variant("x_structO0", opt=("-O0", "-include", SHIM)),
    Variant("x_alloc1", opt=("-O1", "-include", ALLOC[0])),
    Variant("x_alloc2", opt=("-O1", "-include", ALLOC[1])),
    Variant("x_alloc3", opt=("-O2", "-include", ALLOC[2])),
    Variant("x_asanalloc3", cc="clang", cxx="clang++", opt=("-O1", "-g", "-include", ALLOC[2]), flags=SAN),
    Variant("x_nobuiltin", opt=("-O2", "-include", os.path.join(VERIF, "harness", "shim_nobuiltin.h"))),
    Variant("x_nobuiltinclang", cc="clang", cxx="clang++", opt=("-O1", "-include", os.path.join(VERIF, "harness", "shim_nobuiltin.h"))),
    Variant("x_otherc", opt=("-O2", "-include", os.path.join(VERIF, "harness", "shim_otherc.h"))),
    Variant("x_asanotherc", cc="clang", cxx="clang++", opt=("-O1", "-g", "-include", os.path.join(VERIF, "harness", "shim_otherc.h")), flags=SAN),
    Variant("x_strictalign", opt=("-O1", "-g", "-DNO_MISALIGNED_ACCESSES", "-DKeccakP1600_useSHLD"), flags=SAN),
    Variant("x_zeroinit", opt=("-O2", "-ftrivial-auto-var-init=zero", "-fstack-protector-strong", "-D_FORTIFY_SOURCE=3")),
    Variant("x_patinit", cc="clang", cxx="clang++", opt=("-O3", "-ftrivial-auto-var-init=pattern")),
    Variant("x_wrap", opt=("-O1", "-fwrapv", "-fno-strict-aliasing", "-funsigned-char")),
    Variant("x_own_clang", openssl=False, sha3="avx2", cc="clang", cxx="clang++", opt=("-O3", "-march=native")),
    Variant("x_own_Os", openssl=False, sha3="opt64", opt=("-Os", "-DNDEBUG")),
    Variant("x_own_lto", openssl=False, sha3="plain32", opt=("-O3", "-flto"), link=["-flto", "-O3"]),
]:
    VARIANTS[_v.name] = _v

# programs for 32 bit machines: this system has the C library for them, but neither headers nor start files
M32 = ["-m32", "-fno-stack-protector", "-I" + os.path.join(VERIF, "harness", "env32"), "-isystem", "/usr/include/x86_64-linux-gnu"]
for _v in [
    Variant("m32", openssl=False, sha3="plain32", opt=["-O2"] + M32),
    Variant("m32_opt64", openssl=False, sha3="opt64", cc="clang", cxx="clang++", opt=["-O3", "-msse2"] + M32),
    Variant("m32_asan", openssl=False, sha3="plain32", cc="clang", cxx="clang++", opt=["-O1", "-g"] + M32, flags=SAN),
]:
    VARIANTS[_v.name] = _v

_lock = threading.Lock()
_locks = {}
_cpus = threading.Semaphore(NCPU)
_confs = {}


def configure(openssl, sha3):
    """meson setup; returns (builddir, compile commands)"""
    key = "%s-%s" % ("ossl" if openssl else "noossl", sha3)
    with _lock:
        l = _locks.setdefault("meson-" + key, threading.Lock())
    with l:
        if key in _confs:
            return _confs[key]
        d = os.path.join(BUILD, tree_hash(), "meson-" + key)
        ok = os.path.join(d, "fv.ok")
        if not os.path.exists(ok):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            sh(["meson", "setup", d, REPO, "--buildtype=debugoptimized", "--wrap-mode=nodownload", "-Dwerror=false",
                "-Db_lto=false", "-Dvalgrind=disabled", "-Dcatch2=disabled", "-Dbenchmarks=disabled",
                "-Dopenssl=" + ("enabled" if openssl else "disabled"), "-DSHA3=" + sha3])
            open(ok, "w").close()
        _confs[key] = (d, json.load(open(os.path.join(d, "compile_commands.json"))))
        return _confs[key]


def _norm(cmd, directory):
    """split a compile command into (includes, defines, other, source)"""
    toks = shlex.split(cmd)
    inc, dfn, oth, src = [], [], [], None
    i = 1
    while i < len(toks):
        t = toks[i]
        if t in ("-MQ", "-MF", "-o", "-MT"):
            i += 2
            continue
        if t in ("-MD", "-c"):
            i += 1
            continue
        if t.startswith("-I"):
            inc.append("-I" + os.path.realpath(os.path.join(directory, t[2:])))
        elif t.startswith("-D"):
            dfn.append(t[2:])
        elif t.startswith("-"):
            oth.append(t)
        else:
            src = os.path.realpath(os.path.join(directory, t))
        i += 1
    return inc, dfn, oth, src


def commands(v, target):
    d, cc = configure(v.openssl, v.sha3)
    out = []
    for c in cc:
        if c["output"].startswith(target + ".p/"):
            out.append((c["output"].split("/", 1)[1],) + _norm(c["command"], d))
    if not out:
        raise BuildError("no target " + target)
    return d, out


DROP = re.compile(r"^(-O.|-g|-W.*|-f(sanitize|no-sanitize|pic|PIC|diagnostics).*|-flto.*)$")


def variant_flags(v, inc, dfn, oth):
    names = {x.split("=")[0] for x in v.undef}
    dfn = [x for x in dfn if x.split("=")[0] not in names] + v.define
    return inc + ["-D" + x for x in dfn] + [o for o in oth if not DROP.match(o)] + ["-w", "-fPIC",
           "-Werror=implicit-function-declaration", "-Werror=vla", "-Werror=incompatible-pointer-types"] + v.opt + v.flags


def run_all(jobs):
    """jobs: list of (outfile, cmd); skips existing outputs, compiles in parallel"""
    todo = [(o, c) for o, c in jobs if not os.path.exists(o)]
    if not todo:
        return

    def one(job):
        o, c = job
        with _lock:
            l = _locks.setdefault(o, threading.Lock())
        with l:
            if os.path.exists(o):
                return
            os.makedirs(os.path.dirname(o), exist_ok=True)
            tmp = o + ".tmp%d" % os.getpid()
            with _cpus:
                sh([tmp if x == "@OUT@" else x for x in c])
            os.replace(tmp, o)

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, todo))


def together(fs):
    """runs building functions at the same time"""
    with concurrent.futures.ThreadPoolExecutor(16) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]


def fhash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:16]


def srchash(*files):
    h = hashlib.sha256()
    for f in files:
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:16]


def lib_jobs(v, target="libfaest_no_random.a", extra=(), rest=None):
    """rest=(variant, regex): sources that do not match are taken from the other variant"""
    if rest:
        w = VARIANTS[rest[0]]
        mine, other = lib_jobs(v, target, extra), lib_jobs(w, target, extra)
        srcs = [x[-1] for x in commands(v, target)[1]]
        return [a if re.search(rest[1], s) else b for a, b, s in zip(mine, other, srcs)]
    d, cmds = commands(v, target)
    base = os.path.join(BUILD, tree_hash(), "obj-" + v.name + "-" + fhash(v.__dict__, extra, target))
    jobs = []
    for out, inc, dfn, oth, src in cmds:
        if src.endswith(".s") or src.endswith(".S"):
            fl = inc + ["-D" + x for x in dfn] + ["-fPIC"]
        else:
            fl = variant_flags(v, inc, dfn, oth) + list(extra)
            if "/sha3/" in src and any("undefined" in f for f in v.flags):
                fl.append("-fno-sanitize=alignment")   # Keccak's documented porting switch NO_MISALIGNED_ACCESSES
        o = os.path.join(base, fhash(fl), out)
        jobs.append((o, [v.cc] + fl + ["-c", src, "-o", "@OUT@"]))
    return jobs


def harness_flags(v):
    """flags to compile a C/C++ file against the library's internal headers"""
    d, cmds = commands(v, "libfaest_no_random.a")
    out, inc, dfn, oth, src = cmds[0]
    names = {x.split("=")[0] for x in v.undef}
    dfn = [x for x in dfn if x.split("=")[0] not in names] + v.define
    return inc + ["-D" + x for x in dfn] + ["-w", "-fPIC"]


HDIR = os.path.join(VERIF, "harness")


def server(name):
    """the public interface of a 32 bit build as a program of its own (serve.c)"""
    v = VARIANTS[name]
    lib32 = ["/usr/lib32/libc.so.6", "/usr/lib32/libgcc_s.so.1", "/usr/lib32/ld-linux.so.2"]
    if not all(os.path.exists(x) for x in lib32):
        return None
    jobs = lib_jobs(v)
    fl = harness_flags(v) + v.opt
    extra = ["-Wl,--export-dynamic"]
    if v.flags:
        rt = os.path.join(subprocess.run(["clang", "-print-resource-dir"], capture_output=True, text=True).stdout.strip(), "lib", "linux", "libclang_rt.%s-i386.a")
        if not os.path.exists(rt % "asan") or not os.path.exists(rt % "asan_static"):
            return None
        extra = ["-Wl,--export-dynamic", "-Wl,--whole-archive", rt % "asan", rt % "asan_static", "-Wl,--no-whole-archive", "/usr/lib32/libm.so.6", lib32[2]]
    for f in ("serve.c", "start32.c") + (("asan32.c",) if v.flags else ()):
        p = os.path.join(HDIR, f)
        o = os.path.join(BUILD, tree_hash(), "h", "%s-%s-%s.o" % (f, name, fhash(srchash(p), fl)))
        jobs.append((o, [v.cc, "-std=gnu11"] + fl + ["-c", p, "-o", "@OUT@"]))
    run_all(jobs)
    objs = [o for o, _ in jobs]
    exe = os.path.join(BUILD, tree_hash(), "bin", "server-%s-%s" % (name, fhash(objs)))
    run_all([(exe, ["gcc", "-m32", "-nostdlib", "-nostartfiles", "-pie"] + objs + extra + lib32[:2] + ["-Wl,-dynamic-linker,%s" % lib32[2], "-o", "@OUT@"])])
    p = subprocess.run([exe], stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    return exe if p.returncode == 0 and p.stdout == b"\4\0\0\0\0\0\0\0" else None


MDIR = os.path.join(VERIF, "model")


def model_job():
    hs = [os.path.join(MDIR, f) for f in ("model.cpp", "model.h", "alpha.inc")]
    o = os.path.join(BUILD, "model-%s.o" % srchash(*hs))
    return (o, ["g++", "-std=c++17", "-O2", "-g", "-w", "-fPIC", "-c", hs[0], "-o", "@OUT@"])


def products(openssl=True, sha3="opt64"):
    """builds the project's own libraries with its own build system; (shared, static, installed headers)"""
    d, _ = configure(openssl, sha3)
    t = json.load(open(os.path.join(d, "meson-info", "intro-targets.json")))
    so = [x["filename"][0] for x in t if x["type"] == "shared library" and x["installed"]]
    ar = [y["filename"][0] for n in ("faest", "faest_no_random") for y in t if y["type"] == "static library" and y["name"] == n]
    if len(so) != 1:
        raise BuildError("not one installed shared library but %s" % so)
    with _lock:
        l = _locks.setdefault(d, threading.Lock())
    with l:
        sh(["ninja", "-C", d] + [os.path.relpath(x, d) for x in so + ar])
    inst = json.load(open(os.path.join(d, "meson-info", "intro-installed.json")))
    return so[0], ar, sorted(x for x in inst if x.endswith(".h"))


def executables(regex, openssl=True, sha3="opt64"):
    """builds the project's own programs whose name matches; {name: path}"""
    d, _ = configure(openssl, sha3)
    t = json.load(open(os.path.join(d, "meson-info", "intro-targets.json")))
    r = {x["name"]: x["filename"][0] for x in t if x["type"] == "executable" and re.search(regex, x["name"])}
    if not r:
        raise BuildError("no program matches " + regex)
    with _lock:
        l = _locks.setdefault(d, threading.Lock())
    with l:
        sh(["ninja", "-C", d] + [os.path.relpath(x, d) for x in r.values()])
    return r


def cc(name, cmd, deps=()):
    """one command that makes a file named @OUT@ below the build directory; cmd is run once for every tree"""
    o = os.path.join(BUILD, tree_hash(), "misc", "%s-%s" % (name, fhash(cmd, srchash(*[x for x in list(cmd) + list(deps) if os.path.isfile(x) and not x.startswith("/usr")]))))
    run_all([(o, cmd)])
    return o


NISTSYM = ["keypair", "sign", "open"]


def nist_jobs(v):
    """the 12 NIST-style wrappers, each with its three entry points renamed and all else local"""
    d, cc = configure(v.openssl, v.sha3)
    jobs, fin = [], []
    base = os.path.join(BUILD, tree_hash(), "nist-" + v.name + "-" + fhash(v.__dict__))
    for s in SETS:
        # the wrapper library of a set
        t = [c for c in cc if re.search(r"(^|/)libfaest_%s\.a\.p/" % s, c["output"])]
        if not t:
            raise BuildError("no NIST wrapper for " + s)
        for k, c in enumerate(t):
            inc, dfn, oth, src = _norm(c["command"], d)
            o = os.path.join(base, "%s_%d.o" % (s, k))
            ren = ["-Dcrypto_sign_keypair=nist_%s_keypair" % s, "-Dcrypto_sign=nist_%s_sign" % s,
                   "-Dcrypto_sign_open=nist_%s_open" % s]
            jobs.append((o, [v.cc] + ren + variant_flags(v, inc, dfn, oth) + ["-c", src, "-o", "@OUT@"]))
    return jobs


def header_of(d, s):
    return os.path.join(d, "faest_%s" % s)


def build_harness(name, src, v, lib=True, nist=False, model=True, extra_flags=(), wrap=(), link=(), extra_src=(),
                  rand=False, opt=None, extra_objs=(), lib_extra=(), rest=None, hv=None):
    """compiles harness/src against variant v and links it; returns the executable. hv: the variant whose flags
    the harness itself is compiled with"""
    if isinstance(v, str):
        v = VARIANTS[v]
    jobs, objs = [], []
    if lib:
        j = lib_jobs(v, extra=tuple(lib_extra), rest=rest)
        jobs += j
    if rand:
        j2 = lib_jobs(v, "libfaest.a", extra=tuple(lib_extra))
        jobs += j2
    if nist:
        jobs += nist_jobs(v)
    if model:
        jobs.append(model_job())
    hh = sorted(os.path.join(HDIR, f) for f in os.listdir(HDIR) if f.endswith(".h")) + [os.path.join(MDIR, "model.h")]
    lv, v = v, VARIANTS[hv] if hv else v
    hf = harness_flags(v)
    sources = [src] + list(extra_src)
    nolto = [x for x in extra_src if x.endswith("_free.c")]
    hobjs = []
    for s in sources:
        p = s if os.path.isabs(s) else os.path.join(HDIR, s)
        cxx = p.endswith(".cpp")
        fl = [x for x in hf] + list(extra_flags) + (opt if opt is not None and s not in nolto else [y for y in v.opt if s not in nolto or y != "-flto"]) + ["-g"] + v.harness_flags + [
            "-I" + HDIR, "-I" + MDIR, "-DFV_VARIANT=\"%s\"" % v.name]
        o = os.path.join(BUILD, tree_hash(), "h", "%s-%s-%s.o" % (name, v.name, fhash(srchash(p, *hh), fl, v.__dict__)))
        jobs.append((o, [v.cxx if cxx else v.cc] + (["-std=c++17"] if cxx else ["-std=gnu11"]) + fl + ["-c", p, "-o", "@OUT@"]))
        hobjs.append(o)
    v = lv
    run_all(jobs)
    objs = [o for o, _ in jobs] + list(extra_objs)
    exe = os.path.join(BUILD, tree_hash(), "bin", "%s-%s-%s" % (name, v.name, fhash(objs, wrap, link)))
    lk = ["-Wl,--wrap=" + w for w in wrap] + list(link) + v.link + (["-lcrypto"] if (v.openssl or model) else []) + ["-lpthread", "-ldl"]
    run_all([(exe, [v.cxx] + v.flags + objs + lk + ["-o", "@OUT@"])])
    return exe
