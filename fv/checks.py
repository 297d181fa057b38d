import concurrent.futures, os, random, re, shutil, subprocess, sys, tempfile, time
from . import build as B
from .build import SETS, VARIANTS, Variant
from .run import Check, Job

F_SETS = [s for s in SETS if s.endswith("f")]
S_SETS = [s for s in SETS if s.endswith("s")]
# milliseconds of one signature or verification in the plain variant, for sizing jobs
COST = {"128s": 120, "128f": 17, "192s": 280, "192f": 66, "256s": 420, "256f": 95,
        "em_128s": 165, "em_128f": 23, "em_192s": 365, "em_192f": 66, "em_256s": 470, "em_256f": 80}


def chunks(total, size):
    out = []
    while total > 0:
        out.append(min(size, total))
        total -= size
    return out


def spread(exe, mode, cpu_s, per_case, sets=SETS, min_n=4, job_s=6.0, weights=None, args=()):
    """jobs that use about cpu_s seconds of CPU for every set; per_case: cost of a case in units of COST"""
    jobs = []
    for s in sets:
        w = (weights or {}).get(s, 1.0)
        ms = COST[s] * per_case
        n = max(min_n, int(cpu_s * w * 1000 / ms))
        for i, k in enumerate(chunks(n, max(1, int(job_s * 1000 / ms)))):
            jobs.append(Job("%s-%s-%d" % (mode, s, i), [exe, mode, s, i, k] + list(args), timeout=300, weight=k * ms))
    return jobs


def c01():
    c = Check("C01", "exploration",
              "sign+verify of random and boundary (key, message, randomness, entry point, buffer placement, interleaved other calls); every fourth case forces an extreme IV, every fourth an extreme challenge at the hash output; distinct = distinct signature produced and verified")
    exe = B.build_harness("sign", "sign.cpp", "plain", wrap=["Keccak_HashSqueeze"])
    T = c.thorough
    jobs = spread(exe, "complete", 300 if T else 17, 2.6)
    for s in SETS:
        if s in ("128f", "em_128f") or T:
            jobs += [Job("complete_len-%s-%d" % (s, k), [exe, "complete_len", s, k, 50], timeout=600, weight=9e3) for k in range(0, 450, 50)]
    # around the powers of two up to 2^21 (quick: 2^21 for two sets)
    for s in SETS:
        if s in ("128f", "em_128f", "192f", "em_192f", "256f", "em_256f") or T:
            jobs += [Job("complete_pow-%s-%d" % (s, k), [exe, "complete_pow", s, k, 12], timeout=600, weight=12 * COST[s] * 3) for k in range(0, 48, 12)]
    jobs.append(Job("big", [exe, "big", "128f", 0, 2**32 + 77], timeout=600, weight=1e6))
    if T:
        jobs += [Job("big29", [exe, "big", s, 0, 2**29 + 77], timeout=600, weight=1e6) for s in F_SETS]
    c.run_jobs(jobs)
    c.need(accepted=300)
    c.want(forced_iv=20, programmed_challenge=20)
    return c.finish()


def c02():
    c = Check("C02", "exploration",
              "signature and public key bytes compared with an independent executable model of FAEST v1 for random and boundary keys, messages, randomness and forced IVs; repeated signing and cross-verification; distinct = distinct signature compared",
              ["the model in model/ implements the FAEST v1 specification; it was cross-checked against the recorded vectors through the unmodified library"])
    exe = B.build_harness("sign", "sign.cpp", "plain", wrap=["Keccak_HashSqueeze"])
    T = c.thorough
    jobs = spread(exe, "bytes", 300 if T else 19, 2.8)
    for s in SETS:
        if s in ("128f", "em_128f") or T:
            jobs += [Job("bytes_len-%s-%d" % (s, k), [exe, "bytes_len", s, k, 25], timeout=600, weight=9e3) for k in range(0, 450, 25)]
    for s in SETS:
        if s in ("128f", "em_128f", "192f", "em_256f") or T:
            jobs += [Job("bytes_pow-%s-%d" % (s, k), [exe, "bytes_pow", s, k, 12], timeout=600, weight=12 * COST[s] * 3) for k in range(0, 48, 12)]
    jobs.append(Job("big", [exe, "big", "128f", 1, 2**29 + 77], timeout=600, weight=1e6))
    jobs.append(Job("bigr", [exe, "big", "128f", 3, 2**29 + 78], timeout=600, weight=1e6))
    if T:
        jobs.append(Job("big32", [exe, "big", "em_128f", 1, 2**32 + 77], timeout=900, weight=1e6))
        jobs.append(Job("big32r", [exe, "big", "em_128f", 3, 2**32 + 77], timeout=900, weight=1e6))
    c.run_jobs(jobs)
    c.need(equal=300, interop=40)
    c.want(forced_iv=20)
    return c.finish()


def c03():
    c = Check("C03", "fault_enumeration",
              "a valid triple altered in one place (every signature field, stratified positions), in several cancelling places, in the message, key or length; and single-bit faults in the hash outputs the verifier recomputes; distinct = distinct altered triple or fault")
    exe = B.build_harness("tamper", "tamper.cpp", "plain", wrap=["Keccak_HashSqueeze"])
    T = c.thorough
    k = 12 if T else 1
    jobs = []
    W = {"128f": 2.2, "em_128f": 1.6}
    jobs += spread(exe, "sigbits", 8 * k, 1.05, weights=W)
    jobs += spread(exe, "sigmulti", 2.5 * k, 1.05, weights=W)
    jobs += spread(exe, "msgs", 2.5 * k, 1.2, weights=W)
    jobs += spread(exe, "pks", 2 * k, 1.05, weights=W, job_s=4)
    jobs += spread(exe, "faults", 2 * k, 1.05, weights=W)
    jobs += spread(exe, "final", 2 * k, 1.05, weights=W, job_s=4)
    jobs += [Job("lens-" + s, [exe, "lens", s, 0], timeout=120, weight=1000) for s in SETS]
    jobs += spread(exe, "msgbits", 2 * k, 1.05, sets=["128f", "em_128f", "192f", "256f"])
    jobs += [Job("msgpow-%s-%d" % (s, k), [exe, "msgpow", s, k, 12], timeout=600, weight=12 * 20 * COST[s]) for s in (SETS if T else ("128f", "em_128f")) for k in range(0, 48, 12)]
    jobs.append(Job("bigmsg", [exe, "bigmsg", "128f", 0], timeout=600, weight=1e6))
    if T:
        for s in F_SETS:
            size = {"128f": 6336, "192f": 16792, "256f": 28400, "em_128f": 5696, "em_192f": 13912, "em_256f": 26736}[s]
            jobs += [Job("sigrange-%s-%d" % (s, o), [exe, "sigrange", s, o, 200], timeout=900, weight=200 * COST[s]) for o in range(0, size, 200)]
    c.run_jobs(jobs)
    c.need(siglen=1000)
    return c.finish()


def c04():
    c = Check("C04", "exploration",
              "strings made by a model prover that cheats (wrong witness bit, statement, inconsistent correlation, zero S-box key), by one with extreme IVs and free root secrets, and spliced or random strings: verdict compared with the model verifier; distinct = distinct (key, string)",
              ["the model in model/ implements the FAEST v1 verification algorithm"])
    exe = B.build_harness("tamper", "tamper.cpp", "plain", wrap=["Keccak_HashSqueeze"])
    T = c.thorough
    jobs = spread(exe, "crafted", 300 if T else 20, 4.2, min_n=12, job_s=5, weights={"128f": 1.8, "em_128f": 1.5, "192f": 1.3, "em_192f": 1.3, "256f": 1.3, "em_256f": 1.3})
    c.run_jobs(jobs)
    c.need(must_accept=60, must_reject=150, witness_bits_forged=60)
    return c.finish()


def c05():
    c = Check("C05", "exploration",
              "key generation fed with scripted candidates: for every S-box location a candidate whose only zero input is there, then a valid one; long reject runs, structured and random streams; distinct = distinct (consumed stream, key)",
              ["the model in model/ evaluates the one-way functions"])
    exe = B.build_harness("keys", "keys.cpp", "plain")
    T = c.thorough
    c.run_jobs([Job("keygen-%s-%d" % (s, i), [exe, "keygen", s, i, 2000 if T else 40], timeout=300) for s in SETS for i in range(8 if T else 1)])
    c.need(**{"one-zero": 3000, "zero_in_key_schedule": 100, "zero_in_second_block": 500, "long-run": 50})
    return c.finish()


def c06():
    c = Check("C06", "exploration",
              "validation and signing with secret keys whose only zero S-box input is at each location, every single-bit difference of public and secret key, cancelling differences, swapped and foreign halves; distinct = distinct key pair judged",
              ["the model in model/ evaluates the one-way functions"])
    exe = B.build_harness("keys", "keys.cpp", "plain")
    T = c.thorough
    c.run_jobs([Job("validate-%s-%d" % (s, i), [exe, "validate", s, i, 20 if T else 0], timeout=300) for s in SETS for i in range(8 if T else 1)])
    c.need(**{"one-zero": 3000, "pk-bit": 5000, "sk-bit": 5000, "sign_with_invalid": 5000})
    return c.finish()


def c07():
    c = Check("C07", "exploration",
              "every combination of null / short / oversized arguments of every function, and successful calls with guard pages or canaries around every buffer, read-only inputs, other prior contents; distinct = distinct (function, argument combination) per set, and placements")
    exe = B.build_harness("args", "args.cpp", "plain")
    T = c.thorough
    jobs = [Job("nulls-%s-%d" % (s, i), [exe, "nulls", s, i, 0], timeout=300, weight=20 * COST[s]) for s in SETS for i in range(10 if T else 1)]
    jobs += spread(exe, "good", 120 if T else 8, 2.6, min_n=9)
    c.run_jobs(jobs)
    c.need(keygen=300, sign=500, signr=2000, verify=2000, sign_ok=300)
    return c.finish()


def c08():
    c = Check("C08", "exploration",
              "NIST-style sign and open in place, overlapping at random offsets and disjoint, for short, long and empty messages, checked against the plain API; altered, truncated, extended and too short signed messages must fail and write nothing; distinct = distinct (signed message, layout) and failing input")
    exe = B.build_harness("nist", "nist.cpp", "plain", nist=True)
    T = c.thorough
    jobs = []
    for s in SETS:
        per = COST[s] * 7.5
        n = max(7, int((240000 if T else 14000) / per))
        k = 0
        while k < n:
            m = min(n - k, max(1, int(5000 / per)))
            jobs.append(Job("nist-%s-%d" % (s, k), [exe, s, k, m, k], timeout=300, weight=m * per))
            k += m
    c.run_jobs(jobs)
    c.need(opened=150, in_place=20, overlap_up=40, overlap_down=10, truncated=50)
    return c.finish()


def c09():
    c = Check("C09", "exploration",
              "honest, random, mutated, structured and short signatures, random and invalid keys, rejecting and failing randomness, NIST wrappers, under ASan+UBSan (OpenSSL and built-in AES, 64-bit and 32-bit SHA-3, a 64-bit and a 32-bit machine), MSan and memcheck, in exactly sized heap blocks; distinct = distinct strings given to the library")
    T = c.thorough
    K = 12 if T else 1
    CO = lambda s: 22 if s.endswith("f") else 13
    jobs = []

    def add(v, sets, n, per, pre=(), flags=(), nist=True, cost=1.0, timeout=400):
        exe = B.build_harness("hostile", "hostile.cpp", v, nist=nist, model=False, extra_flags=(["-DFV_NIST"] if nist else []) + list(flags))
        for s in sets:
            k = 0
            tot = n(s)
            while k < tot:
                m = min(per(s), tot - k)
                jobs.append(Job("%s-%s-%d" % (v, s, k), list(pre) + [exe, "api", s, k, m], timeout=timeout, weight=m * cost * COST[s]))
                k += m
    # about 13 units of COST per iteration under ASan
    add("asan", SETS, lambda s: max(4, int(11000 * K / (CO(s) * COST[s]))), lambda s: max(1, int(6000 / (CO(s) * COST[s]))), cost=13)
    add("asan_portable", ["128f", "em_128f", "em_192f"] + (["192f", "256f", "em_256f"] if T else []), lambda s: 4 if T else 1, lambda s: 1, cost=500)
    add("msan", ["128f", "em_128f", "192f", "em_192f"] + (["256f", "em_256f"] if T else []), lambda s: (20 if T else 1) * (2 if s.endswith("128f") else 1), lambda s: 1, nist=False, cost=250)
    vg = ["valgrind", "--error-exitcode=97", "-q", "--leak-check=no", "--exit-on-first-error=yes"]
    add("vg", SETS if T else F_SETS, lambda s: (8 if s.endswith("f") else 1) if T else 1, lambda s: 1, pre=vg, flags=["-DFV_MEMCHECK"], cost=250)
    exe = B.build_harness("hostile", "hostile.cpp", "plain", model=False)
    srv = server32(c, "m32_asan")
    rem = srv and try_build(c, "32 bit", "hostileremote", "hostile.cpp", "plain", model=False, lib=False, extra_src=["remote.cpp"])
    for s in ["128f", "em_128f"] + (["192f", "em_192f", "256f", "em_256f"] if T else []):
        for k in range((6 if s.endswith("128f") else 2) if T else 1):
            if rem:
                jobs.append(Job("m32-%s-%d" % (s, k), [rem, "api", s, k, 1], env={"FV_SERVER": srv}, timeout=600, weight=1e5))
    for l in [2**32 - 5] + ([2**32, 2**32 + 77, 2**31, 2**31 - 5] if T else []):
        jobs.append(Job("big-%d" % l, [exe, "big", "128f", 0, l], timeout=300, weight=20000))
    if T:
        add("asan_avx2", SETS, lambda s: 4, lambda s: 1, cost=13)
    c.run_jobs(jobs)
    c.need(verify_random=80, verify_mutated=80, verify_structured=160, sign=100)
    return c.finish()


def c10():
    c = Check("C10", "exploration",
              "every kind of call (successful, failing, rejecting at each field of the signature) runs with all heap acquisitions and releases of the process recorded, descriptors and address space counted; a call that keeps memory four times in a row leaks; distinct = distinct (set, call kind, number of allocations)")
    T = c.thorough
    jobs = []
    exe = B.build_harness("leak", "leak.cpp", "plain")
    for s in SETS:
        slow = 1 if s.endswith("s") else 0
        for i in range(6 if T else 1):
            jobs.append(Job("leak-%s-%d" % (s, i), [exe, s, i, 0 if T else slow, 4 if T else 1], timeout=600, weight=30 * COST[s]))
        if not slow and not T:
            jobs.append(Job("leak-%s-b" % s, [exe, s, 7, 0, 1], timeout=300, weight=30 * COST[s]))
    exe = B.build_harness("leak", "leak.cpp", "noossl")
    for s in ["128f", "em_128f"] + (["192f", "em_192f"] if T else []):
        jobs.append(Job("leak-noossl-%s" % s, [exe, s, 9, 2, 1], timeout=600, weight=1e5))
    c.run_jobs(jobs)
    c.need(allocations_observed=2000, sign=12, verify_ok=12, reject_chall_ones=12, thread=12)
    return c.finish()


def c11():
    c = Check("C11", "exploration",
              "threads released together execute random operations on shared read-only inputs, with delays injected at the hash boundary; ThreadSanitizer watches and every result is compared with the same call alone; distinct = distinct results and distinct orders of operation starts and ends")
    T = c.thorough
    jobs = []
    wrap = ["Keccak_HashSqueeze"]
    ex = B.build_harness("threads", "threads.cpp", "tsan", nist=True, extra_flags=["-DFV_NIST"], wrap=wrap)
    exn = B.build_harness("threads", "threads.cpp", "tsan_noossl", wrap=wrap)
    pl = B.build_harness("threads", "threads.cpp", "plain", nist=True, extra_flags=["-DFV_NIST"], wrap=wrap)
    sr = B.build_harness("threads_rand", "threads_rand.cpp", "tsan", rand=True)
    R = 8 if T else 1
    for r in range(R):
        jobs += [Job("tsan-mixed-f-%d" % r, [ex, "mixed!", 8, 4, r] + F_SETS, timeout=300, weight=50),
                 Job("tsan-own-f-%d" % r, [ex, "own!", 6, 3, r] + F_SETS, timeout=300, weight=40),
                 Job("tsan-own-s-%d" % r, [ex, "own!", 6, 1, r] + S_SETS, timeout=300, weight=60)]
        for s in F_SETS:
            jobs.append(Job("tsan-same-%s-%d" % (s, r), [ex, "same!", 4, 3, r, s], timeout=300, weight=30))
        if T:
            jobs.append(Job("tsan-same-s-%d" % r, [ex, "same", 4, 1, r, S_SETS[(c.seed + r) % 6]], timeout=300, weight=70))
        jobs.append(Job("noossl-light-%d" % r, [exn, "light", 8, 40, r] + SETS, timeout=300, weight=20))
        jobs.append(Job("noossl-%d" % r, [exn, "mixed!", 4, 1, r, "128f", "em_128f"], timeout=300, weight=90))
        jobs.append(Job("sysrand-%d" % r, [sr, 40], timeout=300, weight=20))
        for k in range(3):
            jobs.append(Job("plain-%d-%d" % (r, k), [pl, "mixed", 8, 12 if k else 3, 100 + k] + (F_SETS if k else SETS), timeout=300, weight=35))
    c.run_jobs(jobs, workers=3)
    c.need(sign=20, verify=30, overlapping_pairs=200, random_blocks=500)
    return c.finish()


VGBLOCK = re.compile(r"==\d+== (Conditional jump[^\n]*|Use of uninitialised[^\n]*|Syscall param[^\n]*|Invalid (?:read|write)[^\n]*)\n((?:==\d+==    (?:at|by) [^\n]*\n)+)")


def taint_reports(c, job, out, err):
    """memcheck's reports with secrets marked undefined: each must come from a place where a published fact is decided"""
    probe = "-probe" in job.name
    n = 0
    for m in VGBLOCK.finditer(err):
        n += 1
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \(([^)]*)\)", m.group(2))
        st = [(f, re.sub(r":\d+$", "", w)) for f, w in fr]
        c.count("reports")
        if probe:
            continue
        if not st:
            c.error("%s: report without stack" % job.name)
            continue
        # library part of the stack, innermost first
        top = next(((f, w) for f, w in st if not w.startswith("in ") and not w.startswith("vg_replace") and not w.startswith("mc_replace")), st[0])
        if re.search(r"(^|:)(taint\.cpp)$", top[1]):
            c.error("%s: the harness depends on secrets: %s" % (job.name, st[:3]))
        elif re.match(r"faest_(em_)?(128|192|256)[sf]\.c$", top[1]):
            c.count("published_decision")      # validity of the key or result of the comparison
        elif any(re.search(r"_owf(\.|$)|^owf", f) or w == "owf.c" for f, w in st):
            c.count("inside_owf")              # judged by the trace monitor, which only sees valid keys
        else:
            c.violation("taint:%s:%s" % (top[0], m.group(1)[:40]), "%s: %s\n%s" % (job.name, m.group(1), m.group(2)[:1500]), job)
    if probe and n < 2:
        c.error("%s: the detector missed the deliberate dependence" % job.name)
    c.count("memcheck_runs")


def trace_where(c, job, out, err):
    for i, (k, d, j) in enumerate(c.r.viol):
        if j is job and "pcs=" in d and "|| at" not in d:
            pcs = re.search(r"pcs=(\S+?)[; ]", d + " ").group(1).split(",")
            try:
                loc = B.sh(["addr2line", "-f", "-e", job.argv[0]] + ["0x" + p for p in pcs]).replace("\n", " ")
            except Exception:
                loc = "?"
            c.r.viol[i] = (k, d + " || at " + loc, j)


def c12():
    c = Check("C12", "exploration",
              "key generation (with and without redraws), validation, the generator and signing run with every secret byte marked undefined under memcheck, which reports any dependent jump or address; and the recorded sequence of basic blocks, load and store addresses is compared between different secrets with the published values forced equal; distinct = distinct secrets traced",
              ["libcrypto and libc are watched by memcheck only", "select instructions are not jumps"])
    T = c.thorough
    W = ["Keccak_HashSqueeze"]
    vg = ["valgrind", "-q", "--error-limit=no", "--leak-check=no"]
    jobs = []
    for v, modes in (("vg", ("probe", "keys", "sign")), ("vg_noossl", ("keys", "prg")), ("vg_portable", ("keys",))):
        exe = B.build_harness("taint", "taint.cpp", v, model=False, wrap=W)
        for m in modes:
            for s in SETS:
                if (m == "probe" and s != "128f") or (m == "prg" and not s.startswith(("128f", "192f", "256f"))):
                    continue
                if v == "vg_portable" and not s.endswith("f"):
                    continue
                if m == "sign" and s.endswith("s") and not s.endswith("128s") and not T:
                    continue
                n = (6 if T else 2) if m != "sign" else (4 if s.endswith("f") else 1) if T else (2 if s.endswith("128f") else 1)
                jobs.append(Job("%s-%s-%s" % (v, m, s), vg + [exe, m, s, c.seed, n], timeout=900, weight=COST[s] * (200 if m == "sign" else 5), post=taint_reports))
    if T:
        exe = B.build_harness("taint", "taint.cpp", "vg_noossl", model=False, wrap=W)
        jobs += [Job("vg_noossl-sign-%s" % s, vg + [exe, "sign", s, 0, 1], timeout=1500, weight=1e6, post=taint_reports) for s in ("128f", "em_128f", "em_192f")]
    for v in ("trace", "trace_noossl"):
        exe = B.build_harness("trace", "trace.cpp", v, wrap=W, link=["-no-pie"])
        jobs.append(Job(v + "-probe", [exe, "probe", "128f", 0, 1], timeout=60))
        for s in SETS:
            for i in range(8 if T else 1):
                jobs.append(Job("%s-keys-%s-%d" % (v, s, i), [exe, "keys", s, i, 1000 if T else 300], timeout=300, weight=300, post=trace_where))
            if v == "trace":
                for i in range(6 if T else 1):
                    jobs.append(Job("%s-sign-%s-%d" % (v, s, i), [exe, "sign", s, i, 24 if T else 12 if s.endswith("128f") else 6], timeout=600, weight=COST[s] * 12, post=trace_where))
            elif s.endswith("128f") or (T and s.endswith("f")):
                jobs.append(Job("%s-sign-%s" % (v, s), [exe, "sign", s, 0, 12 if T else 3], timeout=900, weight=13000, post=trace_where))
    c.run_jobs(jobs)
    c.need(traced_keygen=1500, traced_validate=1500, keygen=24, validate=24, reports=2)
    c.want(traced_sign=70, published_values=14, sign=8)
    return c.finish()


def try_build(c, what, *a, **kw):
    """a harness that uses interfaces inside the library: left out (and noted) if they changed"""
    try:
        return B.build_harness(*a, **kw)
    except B.BuildError as e:
        c.extra.setdefault("left_out", []).append("%s: %s" % (what, str(e)[-300:]))
        return None


def server32(c, v):
    """a 32 bit build, answering calls; None where the system cannot run such programs"""
    try:
        e = B.server(v)
    except B.BuildError as x:
        c.extra.setdefault("skipped", []).append("%s: %s" % (v, str(x)[-300:]))
        return None
    if not e:
        c.extra.setdefault("skipped", []).append("%s: no 32 bit programs here" % v)
    return e


# further ways to build, for the component monitors
PORT = ["plain", "portable", "asan", "avx2x", "nox4", "clang", "x_strictalign"]


def c14():
    c = Check("C14", "exploration",
              "hash contexts fed random, structured and long inputs cut in random and boundary pieces, every input length of the first blocks, four-way lanes with different data, 16-bit and prefix helpers, domain-separated oracles, inputs and outputs beyond 2^32 bytes and bits; compared with an independent SHAKE; distinct = distinct (input, cuts, output)",
              ["OpenSSL's SHAKE is the oracle for inputs beyond 2^29 bytes, the model's own Keccak for the rest"])
    T = c.thorough
    jobs = []
    H = lambda v, n, *f: (lambda: try_build(c, n + "-" + v, n, "hash.cpp", v, extra_flags=f, link=["-lcrypto"]))
    built = B.together([H(v, n, *f) for v in PORT for n, f in (("hash", ()), ("hashx4", ("-DFV_X4",)), ("hashro", ("-DFV_RO",)))])
    for k, v in enumerate(PORT):
        ex, x4, ro = built[3 * k:3 * k + 3]
        n = 20000 if T else 2500
        for i in range(8 if T else 2):
            if ex:
                jobs.append(Job("single-%s-%d" % (v, i), [ex, "single", i, n], weight=30))
            if x4:
                jobs.append(Job("x4-%s-%d" % (v, i), [x4, "x4", i, n // 2], weight=30))
            if ro:
                jobs.append(Job("ro-%s-%d" % (v, i), [ro, "ro", i, n // 2], weight=20))
        if ex:
            jobs += [Job("grid-%s-%d" % (v, s), [ex, "grid", s], weight=5) for s in (128, 256)]
        if v == "asan":
            continue
        big = {"plain": [(128, 2**32 - 5), (256, 2**29 + 77)], "portable": [(256, 2**29 + 77)]}.get(v, [])
        if T:
            big = [(128, 2**32 - 5), (128, 2**32 + 177), (256, 2**29 + 77), (128, 2**29 + 77), (256, 2**32), (256, 2**33 + 300), (256, 2**31 + 9)]
        if ex:
            jobs += [Job("big-%s-%d-%d" % (v, s, n), [ex, "big", s, n], timeout=900, weight=n / 1e7) for s, n in big]
            jobs += [Job("bigout-%s-%d-%d" % (v, s, n), [ex, "bigout", s, n], timeout=1500, weight=n / 5e6) for s, n in
                     ((128, 2**29 + 77),) + (((256, 2**32 + 177), (256, 2**32 - 5)) if T and v == "plain" else ()) if v == "plain" or T]
        if x4 and (v == "plain" or T):
            jobs += [Job("bigx4-%s-%d-%d" % (v, s, n), [x4, "bigx4", s, n], timeout=1500, weight=n / 5e6) for s, n in
                     ((128, 2**29 + 77),) + (((256, 2**32 + 177), (128, 2**32 - 5)) if T else ())]
    c.run_jobs(jobs)
    c.need(grid=500, long_input=2)
    c.want(absorb_calls=10000, squeeze_calls=10000, x4_absorb_calls=10000, x4_uint16=100, x4_uint16s=100, H0=100, H1=100, H2=100, H3=100, H0_x4=100, long_output=1, x4_long_input=1)
    return c.finish()


def c15():
    c = Check("C15", "exploration",
              "keys, blocks and initial vectors that are random, constant, sparse or at a carry border; round keys, ciphertexts, zero indications, counters and streams of every length to 700 and random long ones compared with an independent Rijndael; distinct = distinct (key, block) and (key, iv, length)",
              ["AES of the model agrees with OpenSSL on every block compared"])
    T = c.thorough
    jobs = []
    vs = ["plain", "portable", "asan", "asan_portable", "clang"] + (["O0", "avx2x"] if T else [])
    ex = B.together([(lambda v=v: B.build_harness("aes", "aes.cpp", v, link=["-lcrypto"])) for v in vs])
    for v, e in zip(vs, ex):
        q = (20 if T else 1) * (0.3 if "asan" in v else 1)
        for a in range(5):
            jobs += [Job("blocks-%s-%d" % (v, a), [e, "blocks", a, int(3000 * q)], weight=20, timeout=600),
                     Job("chains-%s-%d" % (v, a), [e, "chains", a, int(150 * q)], weight=20, timeout=600)]
            if v in ("plain", "portable"):
                jobs.append(Job("locations-%s-%d" % (v, a), [e, "locations", a, int(40 * q)], weight=20, timeout=600))
        jobs.append(Job("inc-%s" % v, [e, "inc", 0, int(20000 * q)]))
        for s in (128, 192, 256):
            for l in range(0, 700, 350):
                jobs += [Job("prglen-%s-%d-%d-%d" % (v, s, l, r), [e, "prglen", s, 350, l], weight=5) for r in range(1)]
            jobs += [Job("prg-%s-%d" % (v, s), [e, "prg", s, int(3000 * q), 700], weight=10, timeout=600),
                     Job("prgl-%s-%d" % (v, s), [e, "prg", s, int(12 * q) + 1, 70000], weight=10, timeout=600)]
    c.run_jobs(jobs)
    c.need(prg=5000, prg_carry=1000, increments=5000, ks_zero=100, ks_nonzero=1000, sbox_zero=5000, sbox_nonzero=5000)
    return c.finish()


def c16():
    c = Check("C16", "exploration",
              "all products of two basis elements of every field, all pairs of embedded bytes, random and structured operands for every operation, in the vector and structure representations; compared with bit-serial arithmetic; distinct = distinct operand tuples",
              ["the field polynomials and the embedding of the model are those of the specification"])
    T = c.thorough
    vs = ["plain", "structf", "clang", "asan", "avx2x", "x_nobuiltin"] + (["O0", "portable", "structc"] if T else [])
    ex = B.together([(lambda v=v: B.build_harness("fields", "fields.cpp", v)) for v in vs])
    jobs = []
    for v, e in zip(vs, ex):
        q = (20 if T else 1) * (0.3 if "asan" in v else 1)
        jobs.append(Job("small-" + v, [e, "small", 0, int(20000 * q)], weight=5))
        for a in (128, 192, 256):
            jobs += [Job("basis-%s-%d" % (v, a), [e, "basis", a, 0], weight=20), Job("bytes-%s-%d" % (v, a), [e, "bytes", a, 0], weight=20)]
            jobs += [Job("random-%s-%d-%d" % (v, a, i), [e, "random", a, int(10000 * q), i], weight=30, timeout=600) for i in range(2)]
    c.run_jobs(jobs)
    c.need(basis_products=500000, embedding_pairs=500000, random_operands=100000, sums=5000, gf8_products=300000, gf64_products=50000)
    return c.finish()


ELL = {128: (1600, 1280), 192: (3264, 2304), 256: (4000, 3584)}


def c17():
    c = Check("C17", "exploration",
              "VOLE hash of random and structured inputs and seeds for every length a parameter set uses, every unit vector; zero-knowledge hash of 0 to 600 elements, incremental, one-shot and interleaved; compared with the formulas, and for linearity; distinct = distinct (seed, input)")
    T = c.thorough
    vs = ["plain", "structf", "clang", "asan", "x_nobuiltin"] + (["O0", "avx2x", "structc", "portable"] if T else [])
    ex = B.together([(lambda v=v: B.build_harness("uhash", "uhash.cpp", v)) for v in vs])
    jobs = []
    for v, e in zip(vs, ex):
        q = (30 if T else 1) * (0.3 if "asan" in v else 1)
        for lam, ells in ELL.items():
            for ell in ells:
                jobs += [Job("vole-%s-%d-%d-%d" % (v, lam, ell, i), [e, "vole", lam, ell, int(600 * q), i], weight=10, timeout=900) for i in range(2)]
                jobs.append(Job("volebits-%s-%d-%d" % (v, lam, ell), [e, "volebits", lam, ell], weight=10, timeout=900))
            jobs += [Job("zk-%s-%d-%d" % (v, lam, i), [e, "zk", lam, 600, int(160 * q) + 14, i], weight=10, timeout=900) for i in range(3)]
    c.run_jobs(jobs)
    c.need(vole_hash=5000, vole_input_bits=50000, zk_hash=2000, seed_bits=5000, zk_element_matters=1000)
    return c.finish()


def c18():
    c = Check("C18", "exploration",
              "trees over random and extreme roots and initial vectors compared with the model; every leaf index of every depth in use opened, reconstructed, searched for hidden nodes, and altered in one bit; distinct = distinct (root, iv, index)",
              ["the model's tree is that of the specification"])
    T = c.thorough
    vs = ["plain", "asan", "nox4", "clang"] + (["avx2x", "portable", "O0"] if T else [])
    ex = B.together([(lambda v=v: B.build_harness("vc", "vc.cpp", v)) for v in vs])
    jobs = [Job("indices", [ex[0], "indices", 0, 0, 0])]
    for v, e in zip(vs, ex):
        own = v in ("nox4", "portable", "O0")
        for lam in (128, 192, 256):
            for d in (4, 8, 11, 12):
                if d > 8 and (v == "asan" or own) and not T:
                    continue
                if d > 8 and v == "O0":
                    continue
                jobs.append(Job("tree-%s-%d-%d" % (v, lam, d), [e, "tree", lam, d, {4: 200, 8: 60, 11: 8, 12: 4}[d] * (5 if T else 1) // (8 if own else 1) + 1], timeout=900, weight=10))
                if d > 8 and v == "clang" and not T:
                    continue
                full = v == "plain" or T
                for s in range({4: 20, 8: 2 if own else 4, 11: 1, 12: 1}[d] * (6 if T and v == "plain" else 1)):
                    step = {4: 16, 8: 256, 11: 512, 12: 256}[d]
                    for lo in range(0, 1 << d, step):
                        if own and d > 8 and lo % 1024:
                            continue
                        jobs.append(Job("opens-%s-%d-%d-%d-%d" % (v, lam, d, lo, s), [e, "opens", lam, d, lo, step if full or d < 11 else 32, s], timeout=900,
                                        weight=step * (1 << d) / 1e5 * (30 if own else 1)))
    c.run_jobs(jobs)
    c.need(trees=100, reconstructions=15000, index_values=8000, opening_bit_changed=1000, commitment_bit_changed=1000, index_changed=1000, model_rejections=100)
    return c.finish()


def c19():
    c = Check("C19", "exploration",
              "commitments from random and extreme roots and initial vectors, opened and reconstructed at the all-zero, all-one, every single-bit, random and extreme-index challenges; every column checked for the correlation, digests compared, prover values compared with the model; distinct = distinct (set, root, challenge)",
              ["the model's conversion is that of the specification"])
    T = c.thorough
    jobs = []
    H = lambda n, v, *f: (lambda: (try_build(c, n, n, "vole.cpp", v, extra_flags=f) if f else B.build_harness(n, "vole.cpp", v)))
    pl, own, asan, cd = B.together([H("vole", "plain"), H("vole", "noossl"), H("vole", "asan"), H("volecd", "plain", "-DFV_CHALDEC")])
    for k, s in enumerate(SETS):
        lam = int(re.sub(r"\D", "", s))
        step = max(4, 2500 // COST[s])
        per = 1 if s.endswith("f") or T else {128: 2, 192: 3, 256: 4}[lam]
        total = 2 + lam
        starts = list(range(0, total, step))
        if per > 1:    # a share of the single bits in the slow sets, another one for every seed
            keep = [x for i, x in enumerate(starts[1:]) if (i + k + c.seed) % (2 * per) == 0]
            starts = starts[:1] + keep
        for b in starts:
            jobs.append(Job("corr-%s-%d" % (s, b), [pl, "corr", s, step, b, 1 if b == 0 else 0], weight=step * COST[s], timeout=600))
        for r in range(40 if T else 3):
            n = max(3, 3000 // COST[s])
            jobs.append(Job("corr-%s-r%d" % (s, r), [pl, "corr", s, n, 1000 + r * 1000, 1], weight=n * COST[s], timeout=600))
        if s.endswith("f"):
            jobs.append(Job("corr-asan-%s" % s, [asan, "corr", s, 8, 5000, 1], weight=3000, timeout=600))
        if s.endswith("128f") or (T and s.endswith("f")):
            jobs.append(Job("corr-own-%s" % s, [own, "corr", s, 2, 6000, 1], weight=9000, timeout=900))
        if cd:
            jobs.append(Job("chaldec-" + s, [cd, "chaldec", s, 300], weight=1))
    for lam in (128, 192, 256):
        for d in (4, 8, 11, 12):
            for r in range(10 if T else 1):
                jobs.append(Job("convert-%d-%d-%d" % (lam, d, r), [pl, "convert", lam, d, {8: 30, 11: 5, 12: 3}.get(d, 100), r], weight=500, timeout=600))
    c.run_jobs(jobs)
    c.need(commits=60, model_commits=36, constant_challenges=24, single_bit_challenges=1000, mixed_challenges=300, conversions=100, conversions_without_seed0=100)
    c.want(decompositions=30000)
    return c.finish()


def c20():
    c = Check("C20", "fault_enumeration",
              "honest proofs over random and extreme correlations compared on both sides and with the model; verifier values on arbitrary inputs; bits of every byte of the witness (thorough: all) and of the statement changed; every constraint violated alone by a prover that miscomputes one S-box and continues honestly; distinct = distinct (key, proof values, fault)",
              ["the model's constraint system is that of the specification", "a wrong proof passes by chance with probability below 2^-100"])
    T = c.thorough
    vs = ["plain", "structf", "asan"] + (["clang", "avx2x", "structc", "portable", "O0"] if T else [])
    ex = B.together([(lambda v=v: B.build_harness("proof", "proof.cpp", v)) for v in vs])
    jobs = []
    for v, e in zip(vs, ex):
        main = v == "plain" or T and v != "asan"
        for k, s in enumerate(SETS):
            lam = int(re.sub(r"\D", "", s))
            em = s.startswith("em")
            l = {128: (1600, 1280), 192: (3264, 2304), 256: (4000, 3584)}[lam][em]
            w8 = l * lam / 1e5
            for r in range(5 if T else 1):
                jobs.append(Job("complete-%s-%s-%d" % (v, s, r), [e, "complete", s, (60 if v == "plain" else 12), r], weight=w8, timeout=600))
                jobs.append(Job("arbitrary-%s-%s-%d" % (v, s, r), [e, "arbitrary", s, (24 if v == "plain" else 6), r], weight=w8, timeout=600))
            # the s and f set of a level share l: one of them takes the even blocks of bits, the other the odd ones
            if v == "plain":
                jobs.append(Job("witness-%s" % s, [e, "witness", s, 2000 if T else 200], weight=1))
            parts = 4 if v == "plain" or T else 32
            for p in range(parts):
                if T or p % 2 == (0 if s.endswith("s") else 1) and (v == "plain" or p < 2):
                    jobs.append(Job("statement-%s-%s-%d" % (v, s, p), [e, "statement", s, p, parts], weight=w8, timeout=600))
            if main:
                half = 0 if s.endswith("s") else 1
                for i, lo in enumerate(range(0, l, 80)):
                    if T or i % 2 == half:
                        jobs.append(Job("bits-%s-%s-%d" % (v, s, lo), [e, "bits", s, lo, 80, 1 if T or lam == 128 else 4], weight=w8, timeout=600))
                parts = 4 if T else 8
                for p in range(parts):
                    if T or p % 2 == half:
                        jobs.append(Job("constraints-%s-%s-%d" % (v, s, p), [e, "constraints", s, p, parts], weight=w8, timeout=600))
    c.run_jobs(jobs)
    c.need(proofs=500, model_proofs=200, arbitrary_verifications=200, witness_bits=5000, statement_bits=2400, single_constraints_violated=2000, witnesses=2000)
    return c.finish()


SRCWRAP = ["getrandom", "getentropy", "arc4random_buf", "open", "open64", "read", "ioctl", "close", "fcntl"]


def c21():
    c = Check("C21", "fault_enumeration",
              "every byte of every block drawn by keygen and sign changed; the injected source fails at each of the first draws with and without partial delivery; the system source (system call, and the random device in the fallback build) fails, delivers short, is interrupted, ends; repeated calls and forks compared; distinct = distinct results")
    T = c.thorough
    jobs = []
    shim = os.path.join(B.HDIR, "shim_urandom.h")
    shims = {n: os.path.join(B.HDIR, "shim_%s.h" % n) for n in ("arc4random", "randombytes")}
    en, asan, sysr, dev, arc, rb = B.together([
        lambda: B.build_harness("entropy", "entropy.cpp", "plain"),
        lambda: B.build_harness("entropy", "entropy.cpp", "asan"),
        lambda: B.build_harness("sysrand", "sysrand.cpp", "plain", rand=True, wrap=SRCWRAP),
        lambda: try_build(c, "random device", "sysranddev", "sysrand.cpp", "plain", rand=True, wrap=SRCWRAP, lib_extra=["-include", shim], extra_flags=["-DFV_FILE"])] + [
        (lambda n=n, h=h: try_build(c, n, "sys" + n, "sysrand.cpp", "plain", rand=True, wrap=SRCWRAP, lib_extra=["-include", h], extra_flags=["-DFV_SURE"])) for n, h in shims.items()])
    for s in SETS:
        f = s.endswith("f")
        for i in range(10 if T else 2 if f else 1):
            jobs += [Job("influence-%s-%d" % (s, i), [en, "influence", s, i, 1], weight=COST[s] * (90 if f else 10), timeout=600)]
        jobs += [Job("failures-%s-%d" % (s, i), [en, "failures", s, i, 10 if f else 5], weight=COST[s] * 40, timeout=600) for i in range(5 if T else 1)]
        if f:
            jobs.append(Job("failures-asan-%s" % s, [asan, "failures", s, 99, 2], weight=COST[s] * 40, timeout=600))
        if s in ("128f", "em_192f", "256s", "192s") or T:
            jobs.append(Job("script-" + s, [sysr, "script", s], weight=COST[s] * 90, timeout=600))
            if dev:
                jobs.append(Job("device-" + s, [dev, "script", s], weight=COST[s] * 30, timeout=60))
            for n, e in (("arc4random", arc), ("randombytes", rb)):
                if e:
                    jobs.append(Job("%s-%s" % (n, s), [e, "script", s], weight=COST[s] * 40, timeout=120))
        jobs.append(Job("fresh-" + s, [sysr, "fresh", s]))
    c.run_jobs(jobs)
    c.need(keygen_byte_influence=500, sign_byte_influence=200, keygen_failures=1000, sign_failures=100, fresh_draws=500, forks=72)
    c.want(sysrand_scripts=500, requests_measured=200, sign_failed=10, keygen_failed=20, block_is_rho=12)
    return c.finish()


def c22():
    c = Check("C22", "exploration",
              "keys of every set cleared at every alignment between canaries and at guard pages; cleared in a stack frame and a heap block that are never read again, under gcc and clang, -O0 to -O3, -Os and link-time optimisation, with and without explicit_bzero; the stack and the freed block are searched for the key; distinct = distinct (key, alignment)")
    T = c.thorough
    vs = [v for v in VARIANTS if v.startswith("clr_")]
    ex = B.together([(lambda v=v: try_build(c, v, "clear", "clear.cpp", v, model=True, extra_src=["clear_free.c"], rest=("plain", r"/(compat|faest_(em_)?\d+[sf])\.c$"))) for v in vs])
    jobs = []
    for v, e in zip(vs, ex):
        if e:
            jobs += [Job("live-" + v, [e, "live", 640 if T else 128]), Job("dead-" + v, [e, "dead", 50 if T else 10])]
    c.run_jobs(jobs)
    c.need(cleared=20000, dead_frames=1500, detector_sees_uncleared=1000)
    c.want(freed_blocks=1500)
    return c.finish()


FUNCS = ["keygen", "sign", "sign_with_randomness", "verify", "validate_keypair", "clear_private_key"]
# published by the specification: public key, private key, signature
SIZES = {"128s": (32, 32, 5006), "128f": (32, 32, 6336), "192s": (64, 56, 12744), "192f": (64, 56, 16792), "256s": (64, 64, 22100), "256f": (64, 64, 28400),
         "em_128s": (32, 32, 4566), "em_128f": (32, 32, 5696), "em_192s": (48, 48, 10824), "em_192f": (48, 48, 13912), "em_256s": (64, 64, 20956), "em_256f": (64, 64, 26736)}


def consumer_lines(c, job, out, err):
    for l in out.split("\n"):
        w = l.split()
        if l.startswith("SIZES "):
            c.ev(3)
            c.count("header_sizes", 3)
            if tuple(map(int, w[2:5])) != SIZES[w[1]]:
                c.violation("header:" + w[1], "sizes %s, specification %s" % (w[2:5], SIZES[w[1]]), job)
        elif l.startswith("BAD "):
            c.violation("consumer:%s:%s" % (w[1], w[2]), "%s: %s" % (job.name, l), job)
        elif l.startswith("DID "):
            c.ev()
            c.count("used_" + w[2])
            c.hash(job.name, l)
        elif l.startswith("NIST "):
            c.ev(4)
            c.count("nist_headers")
            c.hash(l)
            if tuple(map(int, w[3:6])) != SIZES[w[1]] or w[2] != "faest_" + w[1]:
                c.violation("nist-header:" + w[1], l, job)


def c23():
    c = Check("C23", "exploration",
              "installed headers alone compiled as C and C++, programs linked with the shared and the static library and by dlopen using every function of every set on exactly sized buffers; header constants, table entries, names and exported symbols compared with the specification; distinct = distinct (program, set, function), table rows, identifiers and signatures")
    T = c.thorough
    d, _ = B.configure(True, "opt64")
    so, ar, hdrs = B.products()
    inc = os.path.join(B.BUILD, B.tree_hash(), "include")
    os.makedirs(inc, exist_ok=True)
    for h in hdrs:
        B.shutil.copy(h, os.path.join(inc, os.path.basename(h)))
    # ---- headers: each alone, in every language version offered
    langs = [(cc, std, x) for cc, x in (("gcc", "c"), ("clang", "c"), ("g++", "c++"), ("clang++", "c++"))
             for std in (("c99", "c11", "gnu17") if x == "c" else ("c++11", "c++17", "c++20"))]
    jobs = []
    for h in sorted(os.path.basename(x) for x in hdrs):
        for cc, std, x in langs:
            src = B.cc("use-%s.%s" % (h, x), ["sh", "-c", "printf '#include <%s>\\n#include <%s>\\nint main(void){return 0;}\\n' > $0" % (h, h), "@OUT@"])
            try:
                B.cc("hdr", [cc, "-x", x, "-std=" + std, "-pedantic-errors", "-I" + inc, "-c", src, "-o", "@OUT@"], [os.path.join(inc, z) for z in os.listdir(inc)])
                c.count("headers_compiled")
            except B.BuildError as e:
                c.violation("header-alone:" + h, "%s -std=%s: %s" % (cc, std, str(e)[-500:]))
            c.ev()
            c.hash(h, cc, std)
    # ---- exported symbols
    want = {"faest_%s_%s" % (s, f) for s in SETS for f in FUNCS}
    got = {l.split()[-1] for l in B.sh(["nm", "-D", "--defined-only", so]).split("\n") if l.strip()}
    c.ev(len(want | got))
    c.count("exported_symbols", len(got))
    for x in sorted(want - got):
        c.violation("not-exported:" + x, "the shared library does not export it")
    for x in sorted(got - want):
        c.violation("also-exported:" + x, "exported although it is no documented function")
    # ---- users of the library
    con = os.path.join(B.HDIR, "consumer.c")
    sdir = os.path.dirname(so)
    deps = [so] + ar + [os.path.join(inc, z) for z in sorted(os.listdir(inc))]
    progs = {}
    for n, cmd in (("c-shared", ["gcc", "-std=c99", "-x", "c", con, "-x", "none", so, "-Wl,-rpath," + sdir]),
                   ("c++-shared", ["g++", "-std=c++11", "-x", "c++", con, "-x", "none", so, "-Wl,-rpath," + sdir]),
                   ("clang-shared", ["clang", "-std=c11", "-O2", "-x", "c", con, "-x", "none", so, "-Wl,-rpath," + sdir]),
                   ("c-static", ["gcc", "-std=gnu17", "-O2", "-x", "c", con, "-x", "none", "-Wl,--start-group"] + ar + ["-Wl,--end-group", "-lcrypto"])):
        if n == "c-static" and not ar:
            continue
        try:
            progs[n] = B.cc(n, cmd[:1] + ["-w", "-I" + inc] + cmd[1:] + ["-o", "@OUT@"], deps)
        except B.BuildError as e:
            c.violation("link:" + n, str(e)[-800:])
    dl = B.build_harness("dl", "dl.cpp", "plain", lib=False)
    inst = try_build(c, "parameter table", "inst", "inst.cpp", "plain")
    for k, s in enumerate(SETS):
        for i, (n, e) in enumerate(sorted(progs.items())):
            if T or s.endswith("f") or n == "c-shared" or (k + i) % 3 == 0:
                jobs.append(Job("%s-%s" % (n, s), [e, s], weight=COST[s], post=consumer_lines))
        jobs.append(Job("dlopen-" + s, [dl, so, s], weight=COST[s]))
        try:
            h = [os.path.join(d, "faest_" + s)]
            for f in ("crypto_sign.h", "api.h"):
                e = B.cc("napi-%s-%s" % (s, f), ["gcc", "-w", "-I" + h[0], "-DFV_HEADER=\"%s\"" % f, "-DFV_SET=\"%s\"" % s, os.path.join(B.HDIR, "napi.c"), "-o", "@OUT@"], [os.path.join(h[0], f)])
                consumer_lines(c, Job("napi-" + s, [e]), B.sh([e]), "")
        except B.BuildError as e:
            c.violation("nist-header:" + s, str(e)[-500:])
    if inst:
        jobs.append(Job("table", [inst]))
    c.run_jobs(jobs)
    c.need(headers_compiled=100, exported_symbols=70, header_sizes=36 * 3, used_keygen=30, used_verify=30, shared_signatures=24, nist_headers=24)
    c.want(fields_compared=500, unknown_identifiers=70000)
    return c.finish()


def c24():
    c = Check("C24", "exploration",
              "the generator's random numbers compared with an independent CTR_DRBG for random, extreme and carrying seeds and request sequences; the response files the project's own generator programs write and those of the packages made for NIST (own makefile, own C generator) compared record by record with key generation and signing under the independent generator, opened by library and model; distinct = distinct seeds and records",
              ["the independent CTR_DRBG implements SP 800-90A without derivation function"])
    T = c.thorough
    tools = os.path.join(B.REPO, "tools")
    args = dict(extra_src=[os.path.join(tools, "rng.c")], extra_flags=["-I" + tools], lib=False, link=["-lcrypto"])
    vs = ["plain", "asan", "clang"]
    wide = dict(args, extra_flags=args["extra_flags"] + ["-fsanitize=signed-integer-overflow", "-fno-sanitize-recover=all"], link=["-lcrypto", "-fsanitize=undefined"])
    ex = B.together([(lambda v=v: B.build_harness("drbg", "drbg.cpp", v, **args)) for v in vs] +
                    [lambda: B.build_harness("kat", "kat.cpp", "plain", nist=True), lambda: B.executables(r"faest_(em_)?\d+[sf]_test_vectors$"),
                     lambda: B.build_harness("drbgw", "drbg.cpp", "plain", **wide)])
    kat, gens, long = ex[3:6]
    jobs = [Job("drbg-%s-%d" % (v, i), [e, "rand", (400 if v == "plain" else 100) + i, i], weight=100) for v, e in zip(vs, ex) for i in range(40 if T else 4)]
    jobs.append(Job("long", [long, "long", 1, 2**31 + 4096 + 5], timeout=600, weight=1e6))
    if T:
        jobs.append(Job("long-asan", [ex[1], "long", 2, 2**31 + 4096 + 5], timeout=1800, weight=1e6))
        jobs.append(Job("long32", [ex[0], "long", 3, 2**32 + 4096 + 7], timeout=1800, weight=1e6))
    top = tempfile.mkdtemp(prefix="fvkat-")

    def generate(s):
        """runs the project's generator in an empty directory until it has written enough records"""
        d = os.path.join(top, s)
        os.mkdir(d)
        f = os.path.join(d, "PQCsignKAT_faest_%s.rsp" % s)
        want = 100 if T or COST[s] < 100 else max(4, 3200 // COST[s])
        env = dict(os.environ, LC_ALL=random.Random(c.seed).choice(["C", "C.UTF-8"]))
        p = subprocess.Popen([gens["faest_%s_test_vectors" % s]], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        t0 = time.time()
        n = 0
        try:
            while p.poll() is None and time.time() - t0 < (1800 if T else 150):
                time.sleep(0.1)
                n = open(f, "rb").read().count(b"\nsm = ") if os.path.exists(f) else 0
                if want < 100 and n > want:
                    break
            rc = p.poll()
            if rc is None:
                p.kill()
                if n <= want:
                    c.violation("generator-stalls:" + s, "%d of %d records within %d s" % (n, want, time.time() - t0))
            elif rc != 0:
                c.violation("generator:" + s, "exit status %s: %s" % (rc, p.stderr.read().decode(errors="replace")[-400:]))
            elif want < 100:
                want = 100
        finally:
            p.stderr.close()
            p.wait()
        if sorted(x for x in os.listdir(d)) != sorted("PQCsignKAT_faest_%s.%s" % (s, e) for e in ("req", "rsp")):
            c.violation("files:" + s, "the generator left %s" % sorted(os.listdir(d)))
        c.count("generator_runs")
        c.ev()
        step = max(4, 4000 // COST[s])
        for k, a in enumerate(range(0, want, step)):
            c._run(Job("kat-%s-%d" % (s, a), [kat, s, d, want, a, step, 1 if T else 6], timeout=600))
        if want < 100:
            c._run(Job("kat-%s-rest" % s, [kat, s, d, want, want, 100, 1], timeout=600))

    def package(s):
        """the directory handed in to NIST, with its own makefile and generator, whose records are kept"""
        d = os.path.join(top, "package-" + s)
        os.mkdir(d)
        root, _ = B.configure(True, "opt64")
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "CC", "MAKEFLAGS")}
        try:
            p = subprocess.run([sys.executable, os.path.join(tools, "prepare_nist.py"), B.REPO, root, d, "faest_" + s], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=1700 if T else 400)
        except subprocess.TimeoutExpired:
            c.violation("package-stalls:" + s, "no end")
            return
        if p.returncode:
            c.violation("package:" + s, p.stdout.decode(errors="replace")[-1500:])
            return
        k = os.path.join(d, "KAT", "faest_" + s)
        c.count("packages")
        c.ev()
        c._run(Job("package-%s" % s, [kat, s, k, 100, 0, 100, 5], timeout=900))

    packages = [] if not os.path.exists(os.path.join(tools, "prepare_nist.py")) else SETS if T else ["em_128f", ("128f", "192f", "em_192f", "256f", "em_256f")[c.seed % 5]]
    try:
        with concurrent.futures.ThreadPoolExecutor(B.NCPU) as pool:
            fs = [pool.submit(package, s) for s in packages]
            fs += [pool.submit(c._run, j) for j in jobs if j.weight > 1e5]
            fs += [pool.submit(generate, s) for s in sorted(SETS, key=lambda s: -COST[s] * (100 if COST[s] < 100 else 30))]
            fs += [pool.submit(c._run, j) for j in jobs if j.weight < 1e5]
            for f in fs:
                f.result()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    c.need(requests=10000, counter_carries=500, personalised=500, long_requests=1, generator_runs=12, records=550, records_opened=80, packages=len(packages))
    return c.finish()


def c25():
    c = Check("C25", "exploration",
              "signatures whose key, public input, message or randomness differ in one bit, the length or the boundary between two inputs: no field, seed, commitment or 8-byte piece of one may be in another; equal inputs give equal signatures; the key, root, mask, tags, witness and every hidden seed with its ancestors and expansion searched in the signature and in differences of its strings; distinct = distinct signature",
              ["the hidden values are those of the model, whose signature is compared byte by byte with the library's"])
    T = c.thorough
    e, a = B.together([lambda: B.build_harness("secret", "secret.cpp", "plain"), lambda: B.build_harness("secret", "secret.cpp", "asan")])
    jobs = spread(e, "bind", 250 if T else 13, 1.0, min_n=24)
    jobs += spread(e, "hide", 100 if T else 6, 4, min_n=2)
    jobs += spread(e, "drawn", 20 if T else 1, 2, min_n=2)
    jobs += [Job("pair-" + s, [e, "pair", s, 0, 20000 if T else 2000]) for s in SETS]
    jobs += [Job("bind-asan-" + s, [a, "bind", s, 99, 12], weight=COST[s] * 60) for s in (SETS if T else ["128f", "em_128f"])]
    c.run_jobs(jobs)
    c.need(equal_inputs=100, windows=10000000, key_pairs=20000, changed_drawn=40, **{"changed_" + k: 60 for k in ("rho-bit", "msg-bit", "rho-longer", "rho-shorter", "msg-longer", "msg-shorter", "key-bit", "input-bit", "boundary")})
    c.want(secrets_of_signature_known=40)
    return c.finish()


def c26():
    c = Check("C26", "exploration",
              "every kind of call, first made in a process that never used the library, repeated after random histories (failed, rejected, almost equal and other sets' calls, threads, children) with other contents of heap, stack and buffers, other addresses, locale, rounding, descriptors, environment; and in processes with other settings; distinct = distinct (call, history, placement)")
    T = c.thorough
    vs = ["plain", "O0ssl", "clang", "asan"]
    ex = dict(zip(vs, B.together([(lambda v=v: B.build_harness("pure", "pure.cpp", v, extra_flags=["-DFV_OSSL_ERR"])) for v in vs])))
    seen = {}

    def trace(c, job, out, err):
        for l in out.split("\n"):
            if l.startswith("T "):
                _, k, h = l.split()
                k = k + "/" + "-".join(job.name.split("-")[2:])
                c.ev()
                c.count("compared_between_processes")
                if seen.setdefault(k, (h, job.name))[0] != h:
                    c.violation("process:" + re.sub(r"-\d+-", ":", k.split("/")[0]), "%s: %s in %s, %s in %s" % (k, seen[k][0], seen[k][1], h, job.name), job)

    envs = {"plain": {}, "perturb": {"MALLOC_PERTURB_": "165", "LC_ALL": "C"}, "nohw": {"OPENSSL_ia32cap": "~0x200000200000000:~0x0", "HOME": "/nonexistent", "PATH": ""},
            "tunables": {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=1:glibc.cpu.hwcaps=-AVX2,-AVX512F", "TMPDIR": "/nonexistent", "OPENSSL_CONF": "/dev/null"}}
    jobs = []
    for s in SETS:
        f = s.endswith("f")
        n = max(30, 9000 // COST[s])
        for i in range(20 if T else 1):
            for e, env in envs.items():
                # the cases of a job are decided by set and number: other settings must give the same results
                jobs.append(Job("history-%s-%s-%d" % (e, s, i), [ex["plain"], "history", s, i, n * (4 if T else 1) // (1 if e == "plain" else 4)], env=env, weight=(n + 9) * COST[s] * (1 if e == "plain" else 0.25), timeout=900, post=trace))
            jobs.append(Job("adjacent-%s-%d" % (s, i), [ex["plain"], "adjacent", s, i, (6 if T else 1) * max(60, 12000 // COST[s])], weight=2 * (n + 9) * COST[s], timeout=900))
        if s in ("128f", "em_128f"):
            jobs.append(Job("history-O0-%s-0" % s, [ex["O0ssl"], "history", s, 0, 20], weight=2e4, timeout=900, post=trace))
        if f:
            jobs.append(Job("history-clang-%s-0" % s, [ex["clang"], "history", s, 0, 20], weight=30 * COST[s], timeout=900, post=trace))
            jobs.append(Job("history-asan-%s-0" % s, [ex["asan"], "history", s, 0, 10], env={"ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=233:max_malloc_fill_size=100000000:detect_stack_use_after_return=0"}, weight=60 * COST[s], timeout=900, post=trace))
        jobs.append(Job("many-" + s, [ex["plain"], "many", s, 0, 140000 if T else 66000], weight=16000, timeout=1200))
    c.run_jobs(jobs)
    c.need(same_keygen=200, same_sign=100, same_sign_with_randomness=300, same_verify=200, same_validate=200, same_clear=80, compared_between_processes=500, rounds=10000, repetitions=500)
    c.want(**{"after_" + k: 20 for k in ("failed-keygen", "failed-sign", "invalid-key", "almost-equal-call", "thread", "child", "no-descriptors", "rejected-signature", "locale", "error-queue")})
    return c.finish()


# OpenSSL's AES, then the library's own: a hundred times slower
C13_FAST = ["asan_avx2", "avx2x", "clang", "O0ssl", "structf"] + [v for v in VARIANTS if v.startswith("x_") and "_own" not in v]
C13_OWN = ["noossl", "portable", "structc", "O0", "nox4", "asan_portable"] + [v for v in VARIANTS if v.startswith("x_own")]
MESON = [(True, "opt64"), (True, "plain32"), (True, "avx2"), (False, "opt64"), (False, "plain32"), (False, "avx2")]


def c13():
    c = Check("C13", "exploration",
              "the same keys, messages, randomness, initial vectors, candidate streams and altered or malformed inputs given to %d builds and two for a 32-bit machine (random oracle, AES, SHA-3, field representation, allocator, compiler, optimisation, link-time optimisation, configuration header, static and shared library): every answer compared with that of the reference build; distinct = distinct signature produced" % (1 + len(C13_FAST) + len(C13_OWN) + len(MESON)))
    T = c.thorough
    answers = {}

    def collect(c, job, out, err):
        v = job.name.split("/")[0]
        d = answers.setdefault(v, {})
        for l in out.split("\n"):
            if l.startswith("T "):
                _, k, h, rc = l.split()
                d[k] = (h, rc, job)

    W = dict(wrap=["Keccak_HashSqueeze"])

    def build(v):
        try:
            # compat.c is not part of a build for liboqs
            return B.build_harness("transcript", "transcript.cpp", v, hv="plain", rest=("plain", r"^(?!.*/compat\.c$)") if "oqs" in v else None, **W)
        except B.BuildError as e:
            if "oqs" in v and not re.search(r"OQS_\w+['’‘]* (undeclared|was not declared)|(function|type name|file|to|symbol) *['‘`]?(OQS_|oqs/)", str(e)):   # beyond what the stand-in offers
                c.violation("no-build:" + v, "%s: %s" % (v, str(e)[-600:]))
            elif v in ("plain", "noossl", "portable", "avx2x"):
                c.violation("no-build:" + v, "%s: %s" % (v, str(e)[-600:]))
            else:
                c.extra.setdefault("skipped", []).append("%s: %s" % (v, str(e)[-300:]))
            return None

    def shared(o, s3):
        try:
            so = B.products(o, s3)[0]
            e = B.build_harness("transcriptapi", "transcript.cpp", Variant("api-%d-%s" % (o, s3), openssl=o, sha3=s3), lib=False, extra_flags=["-DFV_API_ONLY"], hv="plain",
                                extra_objs=[so], link=["-Wl,-rpath," + os.path.dirname(so)])
            return e
        except B.BuildError as e:
            c.violation("no-build:%s-%s" % ("openssl" if o else "own", s3), str(e)[-600:])
            return None

    names = ["plain"] + C13_FAST + C13_OWN
    ex = B.together([(lambda v=v: build(v)) for v in names] + [(lambda m=m: shared(*m)) for m in MESON])
    exes = dict(zip(names, ex))
    for m, e in zip(MESON, ex[len(names):]):
        exes["so-%s-%s" % ("ossl" if m[0] else "own", m[1])] = e
    jobs = []
    N = {s: (40 if T else max(2, min(12, 350 // COST[s]))) for s in SETS}
    for k, s in enumerate(SETS):
        for first in range(0, N[s], 10):
            jobs.append(Job("plain/%s-%d" % (s, first), [exes["plain"], s, first, min(10, N[s] - first), 6], weight=COST[s] * 40, timeout=900, post=collect))
        for i, v in enumerate(C13_FAST + ["so-ossl-" + m for m in ("opt64", "plain32", "avx2")]):
            # every build gets every f set and, in the quick tier, one s set
            if not exes.get(v) or not (T or s.endswith("f") or (i + c.seed) % 6 == k // 2):
                continue
            slow = {"x_structO0": 4, "O0ssl": 3, "asan_avx2": 4, "x_asanalloc3": 4}.get(v, 1)
            n = N[s] if T else max(1, N[s] // 3 // slow)
            jobs.append(Job("%s/%s" % (v, s), [exes[v], s, (i * 2) % max(1, N[s] - n + 1), n, 6], weight=COST[s] * 14 * n * slow, timeout=1800, post=collect))
        for i, v in enumerate(C13_OWN + ["so-own-" + m for m in ("opt64", "plain32", "avx2")]):
            one = s in ("128f", "em_128f")
            # quick: the other f sets by one of these builds each
            if exes.get(v) and (one and v not in ("asan_portable", "O0") or (T and s.endswith("f")) or (s.endswith("f") and not one and ("noossl", "portable", "x_own_clang", "so-own-opt64")[(k // 2 + c.seed) % 4] == v)):
                jobs.append(Job("%s/%s" % (v, s), [exes[v], s, i % N[s], 1, 6 if one and T else 1], weight=1e5 * COST[s] / 17, timeout=1800, post=collect))
    for v in ("m32", "m32_opt64"):
        srv = server32(c, v)
        e = srv and try_build(c, v, "transcriptremote", "transcript.cpp", "plain", lib=False, extra_flags=["-DFV_REMOTE"], extra_src=["remote.cpp"])
        if not e:
            continue
        for i, s in enumerate(SETS):
            one = s in ("128f", "em_128f")
            if one or (T and s.endswith("f")):
                for first in range(0, min(N[s], 6 if one else 2) if T else 1):
                    jobs.append(Job("%s/%s-%d" % (v, s, first), [e, s, first, 1, 6 if T and one else 1], env={"FV_SERVER": srv}, weight=1e5 * COST[s] / 17, timeout=1800, post=collect))
            # a message of more bits than a word of the machine can count
            if s == ("128f", "em_128f")[v == "m32_opt64"] or (T and one):
                jobs.append(Job("%s/%s-big" % (v, s), [e, s, 0, 1, 1, "big"], env={"FV_SERVER": srv}, weight=1.5e5, timeout=1800, post=collect))
                jobs.append(Job("plain/%s-big" % s, [exes["plain"], s, 0, 1, 1, "big"], weight=5e4, timeout=900, post=collect))
    for v in ("plain", "x_alloc1", "x_alloc2", "x_alloc3", "x_asanalloc3"):
        e = try_build(c, "allocator " + v, "compat", "compat.cpp", v)
        if e:
            jobs.append(Job("compat/" + v, [e], weight=1))
    c.run_jobs(jobs)
    ref = answers.get("plain", {})
    for v, d in sorted(answers.items()):
        if v == "plain":
            continue
        for k, (h, rc, job) in d.items():
            if k not in ref:
                # a forced initial vector is only reported when it took effect
                if not k.endswith("forced-iv"):
                    c.error("%s answers %s, the reference does not" % (v, k))
                continue
            c.ev()
            c.count("compared")
            what = re.sub(r"\d+$", "", k.split("/")[2])
            c.count("compared_" + what)
            if (h, rc) != ref[k][:2]:
                c.violation("differs:%s:%s" % (v, what), "%s: result %s (%s), reference build %s (%s); job %s" % (k, rc, h, ref[k][1], ref[k][0], job.argv), job)
        c.count("builds_compared")
    c.need(builds_compared=20, compared=8000, compared_sign=100, compared_verify=100, compared_keygen=500, compared_validate=500)
    c.want(builds_compared=len(names) - 1 + len(MESON) - 2, **{"compared_forced-iv": 40})
    return c.finish()
