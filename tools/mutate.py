#!/usr/bin/env python3
"""tools/mutate.py SCRATCH N SEED [FILE..]: measures the checks with small random source changes.
Works in SCRATCH (a copy of /repo, made here), never in /repo. Each change that compiles and passes the project's
tests is given to the checks of the file it is in, until one reports it. Prints one JSON line per change."""
import sys, os, re, random, subprocess, json, shutil, time
S, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"aes.c": "C15 C06 C12 C09 C13", "faest.c": "C02 C04 C10 C25 C26 C12 C09 C13", "faest_aes.c": "C20 C10 C04 C02 C12 C09 C13", "fields.c": "C16 C17 C12 C13", "fields.h": "C16 C17 C13 C09",
       "universal_hashing.c": "C17 C09 C12", "vc.c": "C18 C10 C09 C02", "vole.c": "C19 C10 C09 C02", "owf.c": "C06 C05 C12 C13", "randomness.c": "C21", "compat.c": "C13 C22", "compat.h": "C13 C22", "utils.h": "C02 C19 C16 C17 C20 C13",
       "tools/rng.c": "C24", "hash_shake.h": "C14 C13", "random_oracle.c": "C14 C02", "instances.c": "C23 C02", "faest_param.c.in": "C07 C06 C05 C21 C22 C10", "crypto_sign.c.in": "C08", "sha3/KeccakSponge.inc": "C14", "sha3/KeccakSpongetimes4.inc": "C14", "sha3/KeccakHash.c": "C14", "sha3/KeccakHashtimes4.c": "C14"}
files = sys.argv[4:] or list(MAP)
if not os.path.isdir(S):
    shutil.copytree("/repo", S, ignore=shutil.ignore_patterns("_build"))
    for a in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + a).read().replace("/repo", S).replace("/opt/vp/build.sh", S + "/.git/build.sh")
        if a == "test.sh":
            t = t.replace('echo "FAIL $id"', 'echo "FAIL $id"; exit 255').replace("python3 /opt/vp/results.py", "true")
        open(S + "/.git/" + a, "w").write(t)
    subprocess.run(["bash", S + "/.git/build.sh"], check=True, stdout=subprocess.DEVNULL)
sh = lambda *a, **k: subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* 2\b", ["", " * 3"]),
       (r"\b2 \* ", [""]), (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\|= ", ["= ", "&= "]), (r"\^= ", ["= ", "|= "]), (r" / 8\b", [" / 16"]), (r"\bif \(([^()]*(?:\([^()]*\)[^()]*)*)\) \{", ["if (0) {", "if (1) {"]),
       (r"(?<![\w.\"])(\d+)(?![\w.\"])", ["@inc", "@dec"]), (r"\bsize_t\b", ["uint32_t", "uint16_t"]), (r"\buint64_t\b", ["uint32_t"]), (r"\+\+i\b|i\+\+", ["i += 2"]), (r"return -1;", ["return 0;"]), (r"^(\s+)(?:free|faest_aligned_free|vec_com_clear|vec_com_rec_clear|hash_clear|EVP_CIPHER_CTX_free)\([^;]*\);$", [r"\1;"]), (r"^(\s+)[a-zA-Z_][\w\->\[\].]*(?:\([^;{}]*\)| [|^&+]?= [^;{}]*);$", [r"\1;"]), (r"\bcalloc\(([^,]+), ([^;]+)\);", [r"malloc((\1) * (\2));"])]
rnd = random.Random(SEED)
def mutants(f):
    out, L = [], open(os.path.join(S, f)).read().split("\n")
    com = False
    for i, l in enumerate(L):
        c = l.strip()
        if c.startswith("/*"): com = True
        if com:
            if "*/" in c: com = False
            continue
        if not c or c.startswith(("//", "*", "#", "static_assert", "assert(")): continue
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                for r in reps:
                    if r in ("@inc", "@dec"):
                        v = int(m.group(1)) + (1 if r == "@inc" else -1)
                        if v < 0: continue
                        new = l[:m.start()] + str(v) + l[m.end():]
                    else:
                        new = l[:m.start()] + m.expand(r) + l[m.end():]
                    if new != l: out.append((i, new))
    return out
def pick():
    while True:
        f = rnd.choice(files); ms = mutants(f)
        if ms:
            i, new = rnd.choice(ms); return f, i, new
def fingerprint():
    """the machine code of the builds, and of code only other platforms compile"""
    sl = lambda f, pre: "cd %s; (cat /tmp/mutate-pre-%s; echo '#include \"%s\"') | gcc -DHAVE_CONFIG_H -I. -I_build/default -Isha3 -Isha3/opt64 -O2 -S -w -x c - -o - 2>/dev/null" % (S, pre, f)
    cmd = "cd %s/_build; objdump -d --no-show-raw-insn default/libfaest*.a portable/libfaest*.a default/faest_*/*.a $(find default -name '*rng*.o' | sort -u) 2>/dev/null; " % S
    pres = {"vec": "#include \"macros.h\"\n#undef HAVE_ATTR_VECTOR_SIZE", "al1": "#include <config.h>\n#undef HAVE_ALIGNED_ALLOC\n#undef HAVE_EXPLICIT_BZERO\n#undef HAVE_TIMINGSAFE_BCMP", "al2": "#include <config.h>\n#undef HAVE_ALIGNED_ALLOC\n#undef HAVE_POSIX_MEMALIGN", "al3": "#include <malloc.h>\n#include <config.h>\n#undef HAVE_ALIGNED_ALLOC\n#undef HAVE_POSIX_MEMALIGN\n#undef HAVE_MEMALIGN",
            "rnd": "#include <config.h>\n#undef HAVE_GETRANDOM\n#undef HAVE_SYS_RANDOM_H\n#include <features.h>\n#include \"macros.h\"\n#undef GLIBC_CHECK\n#define GLIBC_CHECK(a,b) 0"}
    for k, v in pres.items(): open("/tmp/mutate-pre-" + k, "w").write(v.replace('\\n', chr(10)).replace('\\"', '"') + chr(10))
    cmd += "; ".join([sl("fields.c", "vec"), sl("universal_hashing.c", "vec"), sl("faest_aes.c", "vec"), sl("compat.c", "al1"), sl("compat.c", "al2"), sl("compat.c", "al3"), sl("randomness.c", "rnd")])
    return __import__("hashlib").sha256(subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE).stdout).hexdigest()
subprocess.run(["bash", S + "/.git/build.sh"], check=True, stdout=subprocess.DEVNULL); BASE = fingerprint()
done = set(); env = dict(os.environ, FV_REPO=S, FV_BUILD=S + "-b", VERIF_SEED="1", VERIF_TIER="quick", FV_EVIDENCE=S + "-e")
while N:
    f, i, new = pick()
    if (f, i, new) in done: continue
    done.add((f, i, new)); N -= 1
    p = os.path.join(S, f); old = open(p).read(); L = old.split("\n"); was = L[i]; L[i] = new
    open(p, "w").write("\n".join(L)); t0 = time.time()
    r = {"file": f, "line": i + 1, "old": was.strip(), "new": new.strip()}
    try:
        if sh("bash", S + "/.git/build.sh").returncode: r["state"] = "no build"
        elif fingerprint() == BASE: r["state"] = "same code"
        else:
            try: t = sh("bash", S + "/.git/test.sh", S + "-t.json", timeout=400)
            except subprocess.TimeoutExpired: t = None
            if t is None or "FAIL" in t.stdout: r["state"] = "tests"
            else:
                r["state"] = "SURVIVES"
                for c in MAP.get(f, "C02").split():
                    k = sh("timeout", "900", "python3", HERE + "/run.py", c, env=env, cwd=HERE)
                    if k.returncode:
                        r["state"] = "caught"; r["by"] = c; r["rc"] = k.returncode; r["how"] = [x for x in k.stdout.split("\n") if x and not x.startswith("C")][:1]; break
    finally:
        open(p, "w").write(old)
    r["s"] = round(time.time() - t0); print(json.dumps(r), flush=True)
