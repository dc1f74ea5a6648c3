"""Framework of the checks: running drivers in parallel, collecting what they observed, verdicts, evidence."""
import concurrent.futures, hashlib, json, os, re, resource, selectors, shutil, signal, subprocess, sys, tempfile, time
import build

VERIF = build.VERIF
REPO = build.REPO
JOBS = 8
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:max_allocation_size_mb=8000:hard_rss_limit_mb=6000",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_atomic_races=0"}


class HarnessError(Exception):
    pass


class Endless(Exception):
    """Several runs of the program did not end."""


OUTPUT_LIMIT, DISK_LIMIT = 64 << 20, 8 << 30 # of one run on its streams, of a check on the disk


def entries(d):
    """Paths of everything below a directory."""
    return {os.path.join(b, x) for b, ds, fs in os.walk(d) for x in ds + fs} if d else set()


def pool_map(f, items, jobs=JOBS):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex: return list(ex.map(f, items))


class Check:
    def __init__(self, pid, level):
        self.id, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.t0 = time.time()
        self.evaluations, self.hashes, self.counters, self.maxima, self.samples = 0, set(), {}, {}, []
        self.rule, self.assumptions, self.violations, self.known = "", [], [], []
        self.extra = {}
        self.scratch = tempfile.mkdtemp(prefix=f"vchk-{pid}-")
        os.chmod(self.scratch, 0o755)
        self.bins = {}
        self.timeouts = self.hangs = 0
        self.endless, self.disk = None, shutil.disk_usage(self.scratch).used

    @property
    def thorough(self): return self.tier == "thorough"

    def n(self, quick, thorough): return thorough if self.thorough else quick

    def build(self, *names):
        self.bins.update(build.build(list(names)))
        return [self.bins[n] for n in names]

    def count(self, name, k=1): self.counters[name] = self.counters.get(name, 0) + k

    def case(self, key, nontrivial=True, sample=None):
        """One evaluation made by a Python monitor; key identifies it for counting distinct ones."""
        self.evaluations += 1
        if nontrivial: self.hashes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())
        if sample is not None and len(self.samples) < 5: self.samples.append(sample)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d)
        return d

    # ------------------------------------------------------------------ violations
    def violation(self, key, message, replay):
        """key: stable identification of what fails (input, call site or history), matched against the known findings."""
        for pat, text in known_findings(self.id):
            if re.search(pat, key):
                if text not in self.known: self.known.append(text)
                return
        self.violations.append((key, message, replay))

    # ------------------------------------------------------------------ drivers
    def driver(self, target, cases, prop=None, args="", env=None, first=0):
        """Runs cases first..first+cases-1 of a driver on all cores and merges the results."""
        exe = self.bins[target]
        prop = prop or self.id
        def cmd(lo, hi, stride, tag):
            w = os.path.join(self.scratch, f"{target}-{prop}-{tag}")
            shutil.rmtree(w, ignore_errors=True)
            os.makedirs(w)
            return w, [exe, "--prop", prop, "--seed", str(self.seed), "--from", str(lo), "--to", str(hi), "--stride", str(stride), "--tier", self.tier,
                       "--args", args, "--progress", w + "/progress", "--out", w + "/out", "--work", w]
        e = dict(os.environ, **SAN_ENV); e.update(env or {})
        def run(lo, hi, stride, tag, limit):
            w, c = cmd(lo, hi, stride, tag)
            with open(w + "/stderr", "wb") as err:
                p = subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=err, env=e, cwd=w, start_new_session=True)
                begin = since = time.monotonic()
                at = None
                while True:
                    try: rc = p.wait(2); break
                    except subprocess.TimeoutExpired: pass
                    now, where = time.monotonic(), tail(w + "/progress")
                    if where != at: at, since = where, now
                    # ThreadSanitizer holds the driver's own alarm back
                    if now - begin > limit or now - since > 80:
                        os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
                        break
            fails, done = [], None
            try:
                with open(w + "/out") as f:
                    for line in f:
                        try: d = json.loads(line)
                        except ValueError: continue
                        if "fail" in d: fails.append(d)
                        else: done = d
            except OSError: pass
            return dict(rc=rc, fails=fails, done=done, w=w, cmd=c)
        limit = 3000 if self.thorough else 600
        stride = min(JOBS, max(1, cases))
        rs = pool_map(lambda k: run(first + k, first + cases, stride, k, limit), range(stride))
        for k, r in enumerate(rs):
            for f in r["fails"][:2]:
                self.violation(f"{target} case {f['fail']} seed {self.seed}: {f['message']}", f["message"],
                               dict(kind="driver", target=target, prop=prop, args=args, seed=self.seed, case=f["fail"], tier=self.tier, env=env or {}))
            if r["done"]:
                d = r["done"]
                self.evaluations += d["done"]
                self.hashes.update(d["hashes"])
                for a, b in d["counters"].items(): self.count(a, b)
                for a, b in d["maxima"].items(): self.maxima[a] = max(b, self.maxima.get(a, b))
                for s in d["samples"][:1]:
                    if len(self.samples) < 5: self.samples.append(s)
            elif not r["fails"]:
                # crash, sanitizer report or hang: find the case, make sure it happens again
                try: case = int(open(r["w"] + "/progress").read().split()[0])
                except (OSError, ValueError, IndexError): raise HarnessError(f"{target} failed to start: rc {r['rc']}: {tail(r['w'] + '/stderr')}")
                text = report(r["w"] + "/stderr")
                again = run(case, case + 1, 1, f"{k}-again", 150)
                alone = again["done"] is None and not again["fails"]
                if not alone: again = run(first + k, case + 1, stride, f"{k}-again", limit)
                if again["done"] is None and not again["fails"]:
                    text = report(again["w"] + "/stderr") or text
                    what = "did not finish" if again["rc"] in (77, "timeout") else f"crashed (status {again['rc']})"
                    self.violation(f"{target} case {case} seed {self.seed}: {what} {text[:300]}", f"case {case} {what}: {text}",
                                   dict(kind="driver", target=target, prop=prop, args=args, seed=self.seed, case=case, tier=self.tier, env=env or {},
                                        **({} if alone else dict(start=first + k, stride=stride))))
                    if what == "did not finish": raise Endless(f"{target} case {case}") # the others would take as long
                elif again["fails"]:
                    f = again["fails"][0]
                    self.violation(f"{target} case {f['fail']}: {f['message']}", f["message"], dict(kind="driver", target=target, prop=prop, args=args, seed=self.seed, case=f["fail"], tier=self.tier, env=env or {}))
                elif r["rc"] in (66, -4, -6, -7, -8, -11) and not re.search(r"failed to allocate|bad_alloc|out of memory|cannot allocate|temporarily unavailable", text + tail(r["w"] + "/stderr"), re.I):
                    # only sometimes (threads): a crash or a report of a sanitizer has no innocent cause all the same
                    self.violation(f"{target} case {case} seed {self.seed}: crashed (status {r['rc']}), not always {text[:300]}", f"case {case} crashed: {text}",
                                   dict(kind="driver", target=target, prop=prop, args=args, seed=self.seed, case=case, tier=self.tier, env=env or {}))
                else: raise HarnessError(f"{target} case {case} ended with {r['rc']} once and finished when repeated: {text}")
            shutil.rmtree(r["w"], ignore_errors=True)

    # ------------------------------------------------------------------ programs
    def run(self, cmd, cwd=None, env=None, stdin=b"", timeout=60, preexec=None, retry_timeout=True):
        """Runs a program of the repository; a timeout counts only if it happens twice. When that has happened to a few runs the check stops with
        that violation, instead of waiting (and having files written) for hours."""
        e = dict(os.environ, **SAN_ENV); e.update(env or {})
        where = os.path.join(cwd or self.scratch, cmd[len(cmd) - cmd[::-1].index("-o")]) if "-o" in cmd[:-1] else cwd # what it may write into
        before = entries(where)
        for attempt in (1, 2):
            r = self.once(cmd, cwd or self.scratch, e, stdin, timeout if self.timeouts < 8 else min(timeout, 8), preexec)
            if not r.timeout: return r
            if not retry_timeout: self.timeouts += 1; return r
            if attempt == 2 or self.hangs >= 2 or r.timeout == "limit": self.hung(f"{' '.join(str(x) for x in cmd)[-300:]} " + (f"did not end within {timeout} s" if r.timeout == "time" else "wrote far too much")); return r
            for p in sorted(entries(where) - before, reverse=True):
                if os.path.isdir(p) and not os.path.islink(p): os.rmdir(p)
                else: os.unlink(p)

    def size(self):
        n = 0
        for p in entries(self.scratch):
            try: n += os.lstat(p).st_blocks * 512
            except OSError: pass
        return n

    def hung(self, what):
        """Called for each run that does not end."""
        self.hangs += 1
        if self.hangs >= 3: self.endless = self.endless or what; raise Endless(what)

    def once(self, cmd, cwd, env, stdin, timeout, preexec):
        if self.endless: raise Endless(self.endless)
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=preexec, start_new_session=True)
        if any(os.path.basename(str(x)).startswith("mps_plain-") for x in cmd):
            try: resource.prlimit(p.pid, resource.RLIMIT_DATA, (4 << 30, 4 << 30)) # a program that allocates for ever must not take the machine down
            except (OSError, ProcessLookupError): pass
        begin = time.monotonic()
        got, size, over = {p.stdout: [], p.stderr: []}, 0, False
        with selectors.DefaultSelector() as sel:
            for f in got: sel.register(f, selectors.EVENT_READ)
            rest = memoryview(stdin)
            if rest:
                os.set_blocking(p.stdin.fileno(), False)
                sel.register(p.stdin, selectors.EVENT_WRITE)
            else: p.stdin.close()
            while sel.get_map():
                now = time.monotonic() - begin
                if size > OUTPUT_LIMIT or now > 2 and shutil.disk_usage(self.scratch).used > self.disk + DISK_LIMIT and self.size() > DISK_LIMIT: over = "limit"
                elif now > timeout or self.endless: over = "time"
                if over: break
                for key, _ in sel.select(min(1.0, max(0.0, timeout - now))):
                    f = key.fileobj
                    if f is p.stdin:
                        try: rest = rest[os.write(f.fileno(), rest[:32768]):]
                        except BlockingIOError: pass
                        except BrokenPipeError: rest = rest[:0]
                        if not rest: sel.unregister(f); f.close()
                    else:
                        b = os.read(f.fileno(), 65536)
                        if b: got[f].append(b); size += len(b)
                        else: sel.unregister(f)
        rss, pause = 0, 0.0005
        while not over:
            pid, status, usage = os.wait4(p.pid, os.WNOHANG)
            if pid: p.returncode, rss = os.waitstatus_to_exitcode(status), usage.ru_maxrss
            if pid: break
            if time.monotonic() - begin > timeout + 1: over = "time"
            time.sleep(pause)
            pause = min(2 * pause, 0.02)
        if over:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        for f in (p.stdin, p.stdout, p.stderr): f.close()
        if over and self.endless: raise Endless(self.endless)
        return Result(None if over else p.returncode, b"".join(got[p.stdout]), b"".join(got[p.stderr]), over, rss)

    # ------------------------------------------------------------------ verdict
    def finish(self, need=()):
        missing = [c for c in need if not self.counters.get(c)]
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.hashes), rule=self.rule, samples=[s if len(str(s)) < 1500 else str(s)[:1500] for s in self.samples[:5]],
                   observed=dict(sorted(self.counters.items())))
        if self.maxima: cov["largest"] = {k: v for k, v in sorted(self.maxima.items())}
        cov.update(self.extra)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.id}.json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known: print(f"KNOWN-FINDING: property={self.id} {k}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for key, msg, replay in self.violations[:3]:
                path = os.path.join(VERIF, "replays", f"{self.id}-{hashlib.blake2b(key.encode(), digest_size=5).hexdigest()}.json")
                with open(path, "w") as f: json.dump(dict(property=self.id, message=msg, seed=self.seed, tier=self.tier, replay=replay), f, indent=1, default=str)
                print(f"{self.id}: {msg}"[:1500])
                print(f"VIOLATION property={self.id} replay={path}")
            return 1
        if missing or not self.evaluations or not self.hashes:
            print(f"{self.id}: inconclusive, nothing observed of: {', '.join(missing) or 'any non-trivial case'}", file=sys.stderr)
            return 2
        print(f"{self.id}: held on {self.evaluations} cases ({len(self.hashes)} distinct non-trivial), {ev['wall_s']} s: " + ", ".join(f"{v} {k}" for k, v in list(sorted(self.counters.items()))[:8]))
        return 0

    def close(self): shutil.rmtree(self.scratch, ignore_errors=True)


class Result:
    def __init__(self, rc, out, err, timeout, rss): self.rc, self.out, self.err, self.timeout, self.rss = rc, out, err, timeout, rss # rss in kB
    @property
    def sanitizer(self):
        """The sanitizer or assertion report in the output, if any."""
        t = self.err.decode("utf-8", "replace")
        m = re.search(r"(ERROR: AddressSanitizer|runtime error:|EIGEN ASSERTION FAILED|Assertion .* failed|WARNING: ThreadSanitizer|terminate called after throwing an instance of 'std::never')", t)
        return t[max(0, m.start() - 200):m.start() + 2500] if m else None


def tail(path, n=1500):
    try:
        with open(path, "rb") as f: return f.read()[-n:].decode("utf-8", "replace")
    except OSError: return ""


def report(path):
    try:
        with open(path, "rb") as f: t = f.read().decode("utf-8", "replace")
    except OSError: return ""
    m = re.search(r"(==\d+==ERROR|runtime error:|EIGEN ASSERTION FAILED|Assertion |WARNING: ThreadSanitizer|terminate called|HARNESS:)", t)
    return t[max(0, m.start() - 150):m.start() + 1800] if m else t[-800:]


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line.rstrip("\n"))
                if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    except OSError: pass
    return out
