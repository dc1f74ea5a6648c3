"""P23 and P26: output operations that fail, and runs killed at any of them."""
import errno, os, random, re, resource, shutil, signal
import cli
from core import pool_map, HarnessError

NOISE = re.compile(rb"^\s*\d+: t=.*$|^WARNING: particle .*$|^x = .*$|^ERROR: Courant.*$|^\s*$")
RESULT = re.compile(r"output_(\d+)\.(prof|vtu|csv)$")


def small(rng, binary=None):
    s, ps = cli.problem(rng)
    l = s["particleDistance"]
    nx, ny = (rng.randint(12, 20), rng.randint(8, 15)) if rng.random() < 0.06 else (rng.randint(1, 4), rng.randint(1, 3))
    ps = cli.tank(nx, ny, l, 1, rng.randint(0, 1), empty=1, vel=lambda ix, iy: [rng.uniform(-.02, .02) * l / s["dt"], 0.0, 0.0])
    for i, n in enumerate((nx, ny)): s["domainMax"][i] = max(s["domainMax"][i], (n + 8) * l)
    s["outputPeriod"] = s["dt"] * rng.choice([1, 1, 2])
    s["endTime"] = s["dt"] * rng.choice([2, 3, 4])
    s["kinematicViscosity"] = 1e-6
    s["outputVtkInBinary"] = rng.random() < 0.5 if binary is None else binary
    return s, ps


def read_log(path):
    ops, end = [], None
    for line in open(path, errors="replace"):
        f = line.rstrip("\n").split(" ", 3)
        if f[0] == "end": end = f
        elif f[0].isdigit(): ops.append((int(f[0]), f[1], int(f[2]), f[3] if len(f) > 3 else ""))
    return ops, end


class Run:
    """A problem, what an undisturbed run of it writes, and the operations it takes."""
    def __init__(self, c, k, rng, binary=None):
        self.c, self.k = c, k
        self.d = c.dir(f"f{k}")
        for attempt in range(20):
            s, ps = small(rng, binary)
            self.s, self.ps, self.ext = s, ps, rng.choice([".prof", ".csv", ".vtu"])
            shutil.rmtree(self.d); os.makedirs(self.d)
            start = rng.choice([0.0, 0.0, 0.5, 3.25, -2.0, 1000.0])
            s["endTime"] += start
            self.st, out = cli.setup(self.d, s, ps, self.ext, start)
            rc, err, self.ops, end, so = self.go("ref", 0, "none")
            if rc == 0: break
            if rc is None: c.hung("an undisturbed run of a small problem did not end within 60 s")
        else: raise HarnessError(f"no problem runs: {err[-300:]}")
        self.ref = cli.tree(os.path.join(self.d, "ref"))

    def go(self, name, op, effect, prepare=None, preexec=None, traced=True):
        out = os.path.join(self.d, name)
        os.makedirs(out)
        if prepare: prepare(out)
        log = os.path.join(self.d, name + ".log")
        cmd = [self.c.bins["mps_plain"], "-s", self.st, "-o", out]
        if traced: cmd = [self.c.bins["faultrun"], out, log, str(op), effect] + cmd
        r = self.c.run(cmd, cwd=self.d, preexec=preexec, timeout=60, retry_timeout=False)
        if r.timeout: return (None, r.err, [], None, r.out)
        ops, end = read_log(log) if traced else ([], None)
        if traced and r.rc in (100, 101, 102): raise HarnessError(f"faultrun failed: {r.err[-300:]}")
        return (r.rc, r.err, ops, end, r.out)

    def close(self): shutil.rmtree(self.d)


def message(err): return b"\n".join(l for l in err.split(b"\n") if not NOISE.match(l))


def diff(a, b):
    """First file that differs."""
    for f in sorted(set(a) | set(b)):
        if a.get(f, 0) != b.get(f, 0): return f + (" is missing" if f not in a else " is not expected" if f not in b else f" has {len(a[f] or b'')} bytes of {len(b[f] or b'')}" if len(a[f] or b"") != len(b[f] or b"") else " differs")


# ---------------------------------------------------------------- P23
DATA = ("openat", "open", "creat", "write", "writev", "pwrite64", "sendfile", "copy_file_range", "ftruncate", "mkdir", "rename", "renameat2", "close", "link", "symlink", "fsync", "fallocate")

def p23(c):
    c.build("mps_plain", "faultrun")
    c.rule = ("Whole runs of small problems of both encodings and methods and the three input formats. The system calls that change the output directory are numbered (seccomp and ptrace, so whatever library makes them); in each run one of them fails, with ENOSPC, EIO, EDQUOT, EFBIG, EINTR or EACCES, once or from then on, or a write is cut short: "
              "every open, close, mkdir and archive copy, and the first, last and random writes of every file. Besides, real faults: file size limits, names leading to /dev/full, names taken by directories. A run ending with status 0 must have written exactly the files of an undisturbed run; another one must have said something and not gone on to a later set. Non-trivial: the fault struck.")
    c.assumptions = ["a message is any line on standard error besides the progress lines and warnings of the simulation"]

    def judge(run, name, rc, err, so, what, hurt=None):
        tree = cli.tree(os.path.join(run.d, name))
        tree = {f: v for f, v in tree.items()}
        if rc is None: return f"did not end ({what})"
        if rc == 0:
            w = diff(tree, run.ref)
            return f"status 0 although {w} ({what})" if w else None
        if not message(err).strip(): return f"status {rc} without a message ({what})"
        if b"END SIMULATION" in so: return f"the end of the simulation is reported, then status {rc} ({what})"
        if hurt is not None:
            late = [f for f in tree if RESULT.search(f) and int(RESULT.search(f).group(1)) > hurt]
            if late: return f"{late[0]} was written after set {hurt} had failed ({what})"
        return None

    def problem(k):
        rng = random.Random(c.seed * 7013 + k)
        run = Run(c, k, rng, binary=k % 2 == 0)
        out = []
        try:
            ops = [o for o in run.ops if o[1] in DATA]
            by = {}
            for o in ops: by.setdefault(o[3], []).append(o)
            must = [o for o in ops if o[1] not in ("write", "writev")]
            for p, l in by.items():
                w = [o for o in l if o[1] in ("write", "writev")]
                if w: must += [w[0], w[-1], rng.choice(w)]
            picked = rng.sample(must, min(len(must), c.n(36, 200))) + rng.choices(ops, k=c.n(10, 100))
            for n, o in enumerate(picked):
                e = rng.choice([errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EINTR, errno.EACCES])
                effect = rng.choice([f"err:{e}", f"err:{e}", f"all:{e}", "half"] if o[1] == "write" else [f"err:{e}", f"all:{e}"])
                if effect == f"all:{errno.EINTR}": effect = "err:%d" % errno.EINTR # retried for ever, rightly
                if o[1] == "close": effect = f"err:{rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT])}"
                name = f"x{n}"
                rc, err, ops2, end, so = run.go(name, o[0], effect)
                fired = end is not None and end[-1] == "1"
                m = RESULT.search(o[3])
                what = f"{o[1]} of {os.path.relpath(o[3], os.path.join(run.d, 'ref'))}, operation {o[0]}, {effect if effect == 'half' else effect.split(':')[0] + ' ' + errno.errorcode[int(effect.split(':')[1])]}"
                out.append((judge(run, name, rc, err, so, what, int(m.group(1)) if m and rc else None), what, (k, o[0], effect), fired,
                            ["failures reported", "short writes completed", "failures made up for"][0 if rc else 1 if effect == "half" else 2], f"faults in {o[1]}"))
                shutil.rmtree(os.path.join(run.d, name))
            # real faults
            files = sorted(f for f in run.ref if run.ref[f] is not None)
            sizes = sorted({len(run.ref[f]) for f in files})
            for n in range(c.n(10, 80)):
                name = f"r{n}"
                how = rng.choice(["limit", "full", "directory"])
                f = rng.choice([x for x in files if RESULT.search(x)])
                if how == "limit":
                    lim = rng.choice(sizes) - rng.choice([0, 1, 1, 2, 100]) if rng.random() < 0.5 else rng.randint(0, sizes[-1])
                    lim = max(lim, 0)
                    def pre(lim=lim):
                        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                    rc, err, _, _, so = run.go(name, 0, "none", preexec=pre, traced=False)
                    what, fired = f"files limited to {lim} bytes", lim < sizes[-1]
                    msg = judge(run, name, rc, err, so, what)
                else:
                    def prep(d, f=f, how=how):
                        p = os.path.join(d, f)
                        os.makedirs(os.path.dirname(p))
                        if how == "full": os.symlink("/dev/full", p)
                        else: os.makedirs(p)
                    rc, err, _, _, so = run.go(name, 0, "none", prepare=prep, traced=False)
                    what, fired = f"{f} is {'a link to /dev/full' if how == 'full' else 'a directory'}", True
                    msg = judge(run, name, rc, err, so, what, int(RESULT.search(f).group(1)))
                out.append((msg, what, (k, how, what), fired, "failures reported" if rc else "limits not reached", "real faults: " + how))
                shutil.rmtree(os.path.join(run.d, name))
            return out, len(run.ops), run.s["outputVtkInBinary"]
        finally: run.close()

    for out, nops, binary in pool_map(problem, range(c.n(40, 600))):
        c.count("operations of undisturbed runs", nops)
        c.count("problems with binary VTU files" if binary else "problems with ASCII VTU files")
        for msg, what, key, fired, verdict, kind in out:
            if msg: c.violation("fault " + msg, msg, dict(kind="fault", case=key, seed=c.seed, what=what))
            c.case(key, fired, what)
            c.count(verdict); c.count(kind)
    return ["failures reported", "short writes completed", "faults in openat", "faults in write", "faults in close", "real faults: limit", "real faults: full", "real faults: directory", "problems with binary VTU files", "problems with ASCII VTU files"]


# ---------------------------------------------------------------- P26
def p26(c):
    c.build("mps_plain", "faultrun")
    c.rule = ("Whole runs of small problems as in P23, killed (SIGKILL) before one of the system calls that change the output directory, half-way through a write, or at a progress report between two steps: at every open and close and at random writes; some at random moments without tracing. "
              "What is left is compared with an undisturbed run: archived inputs, all sets before the one being written (all sets, when killed between sets), and no result file that the undisturbed run does not write. Then the run is continued from the last complete profile, CSV and ASCII VTU file. Non-trivial: the kill struck.")
    c.assumptions = ["the progress report of a step is printed outside of saving"]

    def left(run, name, pos, between, what, saved=-1):
        """pos: number of the set being written, or None; saved: that of a set that was saved earlier for sure."""
        t = cli.tree(os.path.join(run.d, name))
        sets = cli.outputs(os.path.join(run.d, name))
        nums = sorted(q for q in sets if isinstance(q, int))
        top = max(nums) if nums else -1
        for f in t:
            if f not in run.ref and RESULT.search(f): return f"{f} exists, which an undisturbed run does not write ({what})", top
        if nums:
            for f in run.ref:
                if run.ref[f] is not None and "/" not in f and t.get(f, 0) != run.ref[f]: return f"archived {f} is {'missing' if f not in t else 'not intact'} although results exist ({what})", top
        done = top - 1 if not between else top
        if pos is not None: done = max(done, pos - 1)
        done = max(done, saved)
        for q in range(done + 1):
            for kind in ("prof", "vtu", "csv"):
                f = f"{kind}/output_{q:04d}.{kind}"
                if t.get(f, 0) != run.ref[f]: return f"{f} is {'missing' if f not in t else f'not complete ({len(t[f])} of {len(run.ref[f])} bytes)'} ({what})", top
        return None, done

    def go_on(run, name, q, rng, what):
        out = []
        for kind in ("prof", "csv", "vtu"):
            if kind == "vtu" and run.s["outputVtkInBinary"]: continue
            src = cli.set_path(os.path.join(run.d, name), kind, q)
            d = os.path.join(run.d, name + "-" + kind)
            os.makedirs(d + "/out")
            shutil.copy(src, d + "/start." + kind)
            cli.write(d + "/settings.yml", cli.yaml_text(dict(run.s, particlesPath="./start." + kind)))
            r = c.run([c.bins["mps_plain"], "-s", d + "/settings.yml", "-o", d + "/out"], cwd=d)
            sets = cli.outputs(d + "/out")
            msg = None
            try:
                t0, a = cli.read_prof(os.path.join(run.d, name, f"prof/output_{q:04d}.prof"))
                t1, b = cli.read_prof(d + "/out/prof/output_0000.prof")
                if not cli.six(t1, t0) or len(a) != len(b) or any(x[0] != y[0] or not all(cli.six(u, v) for u, v in zip(y[1:], x[1:])) for x, y in zip(a, b)):
                    msg = f"continuing from {kind} set {q} starts from another state ({what})"
            except (OSError, AssertionError, ValueError, IndexError): msg = f"continuing from {kind} set {q} fails: status {r.rc}, {r.err.decode('utf-8', 'replace')[-200:]} ({what})"
            if not msg and r.rc == 0:
                last = max(sets)
                t2, _ = cli.read_prof(cli.set_path(d + "/out", "prof", last))
                if len(sets) < 1 or any(len(v) != 3 for v in sets.values()): msg = f"continuing from {kind} set {q} leaves incomplete sets ({what})"
            elif not msg and b"converge" not in r.err and b"solve" not in r.err: msg = f"continuing from {kind} set {q} ends with status {r.rc}: {r.err.decode('utf-8', 'replace')[-200:]} ({what})"
            out.append((msg, kind))
            shutil.rmtree(d)
        return out

    def problem(k):
        rng = random.Random(c.seed * 9011 + k)
        run = Run(c, k, rng, binary=k % 2 == 0)
        out = []
        try:
            edge = [o for o in run.ops if o[1] not in ("write", "writev")]
            picked = rng.sample(edge, min(len(edge), c.n(16, 100))) + rng.choices(run.ops, k=c.n(14, 120))
            # sets whose saving began before a progress report were saved before it
            saved, top, since = {}, -1, -1
            for o in run.ops:
                if o[1] == "stderr" and re.match(r"\s*\d+: t=", o[3]): since = top
                elif RESULT.search(o[3]): top = max(top, int(RESULT.search(o[3]).group(1)))
                saved[o[0]] = since
            for n, o in enumerate(picked):
                effect = rng.choice(["kill", "partkill"]) if o[1] == "write" else "kill"
                name = f"k{n}"
                rc, err, ops2, end, so = run.go(name, o[0], effect)
                m = RESULT.search(o[3])
                between = o[1] == "stderr" and re.match(r"\s*\d+: t=", o[3]) is not None
                what = f"killed {'in' if effect == 'partkill' else 'before'} {o[1]} {o[3].strip() if o[1] == 'stderr' else 'of ' + os.path.relpath(o[3], os.path.join(run.d, 'ref'))}, operation {o[0]}"
                msg, q = left(run, name, int(m.group(1)) if m else None, between, what, saved[o[0]])
                out.append((msg, what, (k, o[0], effect), rc == -signal.SIGKILL, "kills between sets" if between else "kills within a write" if effect == "partkill" else f"kills before {o[1]}"))
                if not msg and q >= 0 and rng.random() < 0.3:
                    for msg, kind in go_on(run, name, q, rng, what): out.append((msg, what, (k, o[0], effect, kind), True, f"runs continued from {kind}"))
                shutil.rmtree(os.path.join(run.d, name))
            return out, run.s["outputVtkInBinary"]
        finally: run.close()

    for out, binary in pool_map(problem, range(c.n(80, 1200))):
        c.count("problems with binary VTU files" if binary else "problems with ASCII VTU files")
        for msg, what, key, fired, kind in out:
            if msg: c.violation("kill " + msg, msg, dict(kind="kill", case=key, seed=c.seed, what=what))
            c.case(key, fired, what)
            c.count(kind)

    # killed at random moments, on a larger problem with several threads of output going on elsewhere
    def timed(k):
        import subprocess, time
        rng = random.Random(c.seed * 911 + k)
        s, ps = cli.problem(rng, big=True)
        s["outputPeriod"], s["endTime"] = s["dt"], s["dt"] * 40
        d = c.dir(f"w{k}")
        try:
            st, out = cli.setup(d, s, ps)
            full = os.path.join(d, "full"); os.makedirs(full)
            t0 = time.time()
            r = c.run([c.bins["mps_plain"], "-s", st, "-o", full], cwd=d)
            took = time.time() - t0
            ref = cli.tree(full)
            res = []
            for n in range(4):
                o = os.path.join(d, f"o{n}"); os.makedirs(o)
                p = subprocess.Popen([c.bins["mps_plain"], "-s", st, "-o", o], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                time.sleep(rng.uniform(0, took))
                p.send_signal(rng.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
                try: p.wait(20)
                except subprocess.TimeoutExpired: p.kill(); p.wait()
                t = cli.tree(o)
                nums = [q for q in cli.outputs(o) if isinstance(q, int)]
                top = max(nums) if nums else 0
                bad = next((f"{kind}/output_{q:04d}.{kind}" for q in range(top) for kind in ("prof", "vtu", "csv") if t.get(f"{kind}/output_{q:04d}.{kind}", 0) != ref.get(f"{kind}/output_{q:04d}.{kind}")), None)
                res.append((f"{bad} is not what an undisturbed run writes after a kill while set {top} was the last one" if bad else None, top))
            return res
        finally: shutil.rmtree(d)
    for k, res in enumerate(pool_map(timed, range(c.n(8, 100)), jobs=4)):
        for n, (msg, top) in enumerate(res):
            if msg: c.violation("timed kill " + msg, msg, dict(kind="timed kill", case=k, seed=c.seed))
            c.case(("timed", k, n), top > 0); c.count("kills at random moments"); c.count("sets left by them", top)
    return ["kills between sets", "kills within a write", "kills before openat", "kills before close", "kills before write", "kills before sendfile", "runs continued from prof", "runs continued from csv", "runs continued from vtu", "sets left by them"]


CHECKS = {"P23": (p23, "exploration"), "P26": (p26, "exploration")}
