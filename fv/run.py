"""Runs the jobs of a check, collects what the monitors observed, writes evidence, decides."""
import concurrent.futures, json, os, re, signal, subprocess, sys, tempfile, threading, time, hashlib, struct
from . import build as B

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=97",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=97",
}
EV = os.environ.get("FV_EVIDENCE", os.path.join(B.VERIF, "evidence"))
REPORT = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|LeakSanitizer[^\n]*|Conditional jump[^\n]*|Use of uninitialised[^\n]*|Invalid (?:read|write)[^\n]*|Syscall param[^\n]*)")


class Job:
    def __init__(self, name, argv, timeout=240, env=None, stdin=None, ok_exit=(0,), weight=1, post=None):
        self.name, self.argv, self.timeout, self.env = name, [str(a) for a in argv], timeout, env or {}
        self.ok_exit, self.weight = ok_exit, weight
        self.post = post   # called with (check, job, stdout, stderr) after a run that ended


class Result:
    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.samples = []
        self.counters = {}
        self.viol = []       # (key, detail, job)
        self.errors = []     # inconclusive
        self.jobs = 0
        self.notes = []


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule, self.assumptions = pid, level, rule, list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.r = Result()
        self.lock = threading.Lock()
        self.min_counters = {}
        self.extra = {}

    # --- running ---
    def run_jobs(self, jobs, workers=None):
        jobs = sorted(jobs, key=lambda j: -j.weight)
        with concurrent.futures.ThreadPoolExecutor(workers or B.NCPU) as ex:
            list(ex.map(self._run, jobs))

    def _exec(self, job, timeout):
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(job.env)
        fd, hf = tempfile.mkstemp(prefix="fvh-")
        os.close(fd)
        env["FV_HASHES"] = hf
        env["VERIF_SEED"] = str(self.seed)
        try:
            p = subprocess.Popen(job.argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                                 env=env, start_new_session=True)
            try:
                out, err = p.communicate(timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
                rc = None
            with open(hf, "rb") as f:
                raw = f.read()
        finally:
            os.unlink(hf)
        return rc, out.decode(errors="replace"), err.decode(errors="replace"), raw

    def _run(self, job):
        t0 = time.time()
        if getattr(self, "hung", False):
            return   # a hang was confirmed: the verdict stands
        limit = job.timeout if self.thorough else min(job.timeout, 120)
        rc, out, err, raw = self._exec(job, limit)
        if os.environ.get("FV_SLOW"):
            sys.stderr.write("%7.1f s from %6.1f  %s\n" % (time.time() - t0, t0 - self.t0, job.name))
        if rc is None and not getattr(self, "hung", False):
            rc, out, err, raw = self._exec(job, limit * 2)
            if rc is None:
                self.hung = True
        if rc in (-9,):  # out of memory killer or similar: once more
            rc, out, err, raw = self._exec(job, limit * 2)
        with self.lock:
            r = self.r
            r.jobs += 1
            done = False
            nv = 0
            for line in out.split("\n"):
                if line.startswith("E "):
                    r.evals += int(line[2:])
                elif line.startswith("N "):
                    _, k, n = line.split(" ")
                    r.counters[k] = r.counters.get(k, 0) + int(n)
                elif line.startswith("S "):
                    r.samples.append(line[2:])
                elif line.startswith("V "):
                    k, _, d = line[2:].partition("\t")
                    r.viol.append((k, d, job))
                    nv += 1
                elif line.startswith("I "):
                    r.errors.append("%s: %s" % (job.name, line[2:]))
                elif line == "DONE":
                    done = True
            if job.post and rc is not None:
                job.post(self, job, out, err)
            n = len(raw) // 8
            r.hashes.update(struct.unpack("<%dQ" % n, raw[:8 * n]))
            if rc is None:
                r.viol.append(("hang:" + job.name, "no answer within %d s, tried again with twice as much" % limit, job))
            elif rc == -9:
                r.errors.append("%s: killed" % job.name)
            elif rc not in job.ok_exit or not done:
                if nv and rc == 1:
                    return
                if rc == 3:   # harness' own failure
                    r.errors.append("%s: harness error: %s" % (job.name, (out[-300:] + err[-700:])))
                    return
                m = REPORT.search(err)
                what = m.group(1) if m else ("exit status %s" % rc)
                what = re.sub(r"0x[0-9a-f]+|==\d+==|\(pid=\d+\)", "", what)
                fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", err) if not f.startswith("__")][:3]
                if "FV-HARNESS" in err:
                    r.errors.append("%s: %s" % (job.name, err[-500:]))
                    return
                r.viol.append(("crash:%s:%s" % (re.sub(r"[0-9]+$", "", job.name), what.strip()[:120]),
                               "job %s rc=%s frames=%s\n%s" % (job.name, rc, fr, err[-3000:]), job))

    # --- results from python monitors ---
    def ev(self, n=1):
        self.r.evals += n

    def hash(self, *parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(repr(p).encode() + b"|")
        self.r.hashes.add(struct.unpack("<Q", h.digest()[:8])[0])

    def count(self, k, n=1):
        self.r.counters[k] = self.r.counters.get(k, 0) + n

    def sample(self, s):
        if len(self.r.samples) < 60:
            self.r.samples.append(s)

    def violation(self, key, detail, job=None):
        self.r.viol.append((key, detail, job))

    def error(self, msg):
        self.r.errors.append(msg)

    def need(self, **kw):
        """events that must have been observed for the run to count"""
        self.min_counters.update(kw)

    def want(self, **kw):
        """events that depend on how the code is organised inside: their absence is noted in the evidence"""
        self.soft = getattr(self, "soft", {})
        self.soft.update(kw)

    # --- verdict ---
    def finish(self):
        r = self.r
        known = load_known(self.pid)
        new, seen = [], {}
        for key, detail, job in r.viol:
            if key in known:
                seen[key] = known[key]
            else:
                new.append((key, detail, job))
        for key, what in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for k, n in self.min_counters.items():
            if r.counters.get(k, 0) < n and not r.viol:
                r.errors.append("only %d of %d expected '%s' events were observed" % (r.counters.get(k, 0), n, k))
        miss = ["%s: %d of %d" % (k, r.counters.get(k, 0), n) for k, n in getattr(self, "soft", {}).items() if r.counters.get(k, 0) < n]
        if miss:
            self.extra["not_reached"] = miss
        samples = sorted(set(r.samples))
        step = max(1, len(samples) // 12)
        cov = {"evaluations": r.evals, "distinct_nontrivial": len(r.hashes), "rule": self.rule,
               "samples": samples[::step][:14] or ["none"], "jobs": r.jobs, "observed": dict(sorted(r.counters.items()))}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(EV, exist_ok=True)
        with open(os.path.join(EV, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d evaluations, %d distinct, %d jobs, %.1f s" % (
            self.pid, self.tier, self.seed, r.evals, len(r.hashes), r.jobs, time.time() - self.t0))
        if new:
            os.makedirs(os.path.join(B.BUILD, "replay"), exist_ok=True)
            groups = {}
            for key, detail, job in new:
                groups.setdefault(key, []).append((detail, job))
            for i, (key, l) in enumerate(sorted(groups.items())):
                path = os.path.join(B.BUILD, "replay", "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "count": len(l), "tier": self.tier, "seed": self.seed,
                               "cases": [{"detail": d, "job": j.name if j else None, "argv": j.argv if j else None,
                                          "env": j.env if j else None} for d, j in l[:20]]}, f, indent=1)
                if i < 8:
                    print("  %s (x%d): %s" % (key, len(l), l[0][0][:400].replace("\n", " | ")))
                    print("VIOLATION property=%s replay=%s" % (self.pid, path))
            for e in r.errors[:5]:
                print("also inconclusive: " + e)
            return 1
        if r.errors:
            for e in r.errors[:20]:
                print("INCONCLUSIVE: " + e)
            return 3
        return 0


def load_known(pid):
    """known findings: lines 'finding: property=<id> key=<key> :: <what>'; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(B.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
