"""What a user of the console sees, resources of long runs, and the runner scripts."""
import bisect, math, os, random, re, resource, shutil, subprocess, time
import cli, core
from core import pool_map

LINE = re.compile(r"^(\d+): dt=(\S+?)s\s+t=(\S+?)s\s+fin=(\S+?)s\s+elapsed=(.*?)\s+remain=(.*?)\s+ave=(\S+?)s/step\s+last=(\S+?)s/step\s+out=(\d+)files\s+Courant=(\S+)$")
ERRLINE = re.compile(r"^\s*(\d+): t=(\S+?)s$")
HMS = re.compile(r"^(-?\d+)h\s+(-?\d+)m\s+(-?\d+)s$")


def hms(t):
    m = HMS.match(t.strip())
    if not m: return None
    h, mi, s = (int(x) for x in m.groups())
    if abs(mi) > 59 or abs(s) > 59: return None
    return 3600 * h + 60 * mi + s


# ---------------------------------------------------------------- P28
def judge_report(lines, s, start, sets, virtual, killed, seen):
    """lines: merged output and clock log; returns what is wrong or None, and what was looked at."""
    dt, end, l = s["dt"], s["endTime"], s["particleDistance"]
    reads, steps, errs, warn, over, total, saves = [], [], [], [], None, None, set()
    began = None
    for x in lines:
        if x.startswith("\x01R"): reads.append(int(x.split()[1]) * 1e-9); continue
        if x.startswith("\x01S"): saves.add(len(reads)) # a file was opened between this reading and the one before
        if x.startswith("\x01"): continue
        if "START SIMULATION" in x:
            if began is not None: return "the start was reported twice"
            began = len(reads); continue
        if "END SIMULATION" in x:
            if over is not None: return "the end was reported twice"
            over = len(steps); continue
        m = LINE.match(x)
        if m:
            if began is None: return f"a step was reported before the start of the simulation: {x}"
            if over is not None: return f"a step was reported after the end of the simulation: {x}"
            steps.append((m, len(reads))); continue
        m = ERRLINE.match(x)
        if m: errs.append((int(m.group(1)), m.group(2), len(steps))); continue
        if "Courant" in x and "CFL" in x: warn.append((len(steps), x)); continue
        m = re.match(r"^Total Simulation time = (.*)$", x)
        if m: total = (m.group(1), len(reads)); continue
        if re.match(r"^\s*\d+:", x): return f"malformed line {x!r}"
    if began is None: return None if killed else "no start was reported"
    n = len(steps)
    t = start
    # candidates for the moment the run began: readings up to the first report but the last one
    first = steps[0][1] if steps else len(reads)
    cand = reads[:max(1, first - 1)]
    times = [start + k * dt for k in range(n + 1)]
    tol = 1e-9 * max(abs(start), abs(end), dt)
    if not killed:
        if over != n or over is None: return "no end was reported although the run ended"
        if n and times[-2] >= end + tol: return f"{n} steps reported, the end time {end} was reached before"
        if times[-1] < end - tol: return f"only {n} steps of {dt} reported from {start} to the end time {end}"
    ok = set(range(len(cand)))
    warned, errlines, saved = {}, {}, sorted(sets.values())
    for q in warn: warned.setdefault(q[0], []).append(q)
    for q in errs: errlines.setdefault(q[0], []).append(q)
    stamps = [q[0] for q in saved]
    prev = began
    for k, (m, r) in enumerate(steps, 1):
        x = m.group(0)
        if int(m.group(1)) != k: return f"line {k} reports step {m.group(1)}"
        v = [float(m.group(q)) for q in (2, 3, 4)]
        if abs(v[0] - dt) > 0.505 * 10.0 ** math.floor(math.log10(dt)): return f"time step {dt} reported as {m.group(2)}"
        if not abs(v[1] - times[k]) <= 5.1e-4 + tol * k: return f"step {k} reported at time {m.group(3)} instead of {times[k]}"
        if abs(v[2] - end) > 0.0501 + 1e-9 * abs(end): return f"end time {end} reported as {m.group(4)}"
        e, rem = hms(m.group(5)), hms(m.group(6))
        if e is None: return f"elapsed time {m.group(5)!r} is not hours, minutes and seconds"
        if rem is None: return f"remaining time {m.group(6)!r} is not hours, minutes and seconds"
        ave, last = float(m.group(7)), float(m.group(8))
        if virtual:
            new = reads[prev:r]
            if not new: return f"the clock was not read for step {k}"
            good = {c for c in ok for T in new if abs(math.floor(T - cand[c] + 1e-6) - e) <= 1 and abs((T - cand[c]) / k - ave) <= 0.0011 + 1e-9 * ave}
            if not good: return f"step {k}: elapsed {m.group(5)}, {ave} s per step, which is not the time since the start ({[round(T - c, 3) for T in new for c in cand][:4]})"
            ok &= good
            fit = [(p, q) for q in range(max(0, prev - 1), r) for p in range(max(0, prev - 1), q + 1) if abs(reads[q] - reads[p] - last) <= 0.0011]
            if not fit: return f"step {k}: {last} s for the last step, none of the times since the step before"
            if all(any(g in saves for g in range(p + 1, q + 1)) for p, q in fit): return f"step {k}: {last} s for the last step, which is the time of a step and of saving"
            if any(g in saves for g in range(max(0, prev - 1) + 1, r)): seen("step times after a set was saved")
            seen("elapsed times compared with the clock")
            want = ave * (end - start) / dt - e
            if want < 8e9:
                if abs(rem - want) > 2 + 0.0011 * (end - start) / dt: return f"step {k} of {(end - start) / dt:.1f}: {m.group(6)} remaining at {ave} s per step after {m.group(5)}"
                seen("remaining times compared")
            elif rem < 0: return f"negative remaining time {m.group(6)} at step {k}"
            else: seen("remaining times of runs without end")
        out = int(m.group(9))
        want = bisect.bisect_left(stamps, times[k] - 0.5 * dt)
        if out != want: return f"step {k}: {out} files reported, {want} sets had been saved"
        seen("file counts compared")
        # Courant number of the state after this step
        now = saved[bisect.bisect_right(stamps, times[k] - 0.25 * dt):bisect.bisect_left(stamps, times[k] + 0.25 * dt)]
        cv = float(m.group(10))
        if now:
            c = now[0][1] * dt / l
            if cv != c and not abs(cv - c) <= 0.00501 + 1e-5 * c: return f"step {k}: Courant number {c} reported as {m.group(10)}"
            seen("Courant numbers compared")
            w = warned.get(k - 1, [])
            lim = s["cflCondition"]
            if abs(c - lim) > 1e-5 * lim and (len(w) > 0) != (c > lim): return f"step {k}: Courant number {c}, limit {lim}: " + ("no warning" if not w else f"warning {w[0][1]!r}")
            seen("warnings about the Courant number" if w else "steps without warning")
        ee = errlines.get(k, [])
        if len(ee) != 1:
            if not (killed and k == n): return f"{len(ee)} lines on standard error for step {k}"
        elif abs(float(ee[0][1]) - times[k]) > 5.1e-4 + tol * k: return f"time {ee[0][1]} on standard error for step {k} at {times[k]}"
        prev = r
    if any(q[0] > n or q[0] < 1 for q in errs): return f"standard error reports step {[q for q in errs if q[0] > n or q[0] < 1][0][0]} of {n}"
    if virtual and total is not None:
        T = hms(total[0])
        new = reads[prev:total[1]]
        if T is None: return f"total time {total[0]!r}"
        if not any(abs(math.floor(a - cand[c] + 1e-6) - T) <= 1 for a in new for c in ok): return f"total time {total[0]}, which is not the time since the start"
        seen("total times compared")
    elif not killed and total is None: return "no total time was reported"
    seen("steps reported", n)
    return None


def p28(c):
    c.build("mps_plain", "watch")
    c.rule = ("Whole runs of generated problems (both methods, start times, step sizes, output periods, Courant limits, up to 1200 steps; some without an end, killed) with a virtual clock that jumps by nanoseconds to hours at every reading, preloaded; readings and report lines are logged in order and the log is checked offline against the saved sets; "
              "then once more with standard output and standard error apart. Non-trivial: at least one step.")
    c.assumptions = ["numbers are compared to the digits shown", "elapsed times must fit readings of the clock made between two report lines and one common start reading"]
    so = c.bins["watch"]

    def one(k):
        rng = random.Random(c.seed * 6007 + k)
        s, ps = cli.problem(rng, big=k % 3 == 0)
        kind = k % 8
        start = rng.choice([0.0, 0.0, 0.5, 12.25, 300.0]) if kind != 6 else 0.0
        n = rng.randint(2, 12)
        if kind == 5:
            n = 34000 if k == 5 else 1200
            ps = cli.tank(3, 2, s["particleDistance"], 1, 0)
        s["endTime"] = start + s["dt"] * (n + rng.choice([0.0, -0.5, -0.25]))
        if kind == 6 and rng.random() < 0.7: # very long and very short times
            s["dt"] *= 10.0 ** rng.choice([-100, -9, 5, 9, 14, 100, 250])
            s["endTime"] = s["dt"] * n
        if kind == 7: s["endTime"] = rng.choice([1e4, 1e7])
        if kind == 4: s["endTime"] = start
        s["outputPeriod"] = s["dt"] * rng.choice([1, 1, 1, 2, 3.5] if n < 100 else [1, 100] if n < 10000 else [2000])
        if kind == 7: s["outputPeriod"] = s["dt"] * 50
        s["outputVtkInBinary"] = True
        s["cflCondition"] = rng.choice([0.3, 0.02, 0.1, 1e-6])
        if rng.random() < 0.2: # all three components count
            s["domainMin"], s["domainMax"] = s["domainMin"][:2] + [-50 * s["particleDistance"]], s["domainMax"][:2] + [50 * s["particleDistance"]]
            for p in ps:
                if p[0] == 1: p[6] = rng.uniform(-3, 3) * s["particleDistance"] / s["dt"] if s["dt"] < 1 else 0.0
        d = c.dir(f"c{k}")
        try:
            st, out = cli.setup(d, s, ps, rng.choice([".prof", ".csv"]), start, rng=rng)
            log = os.path.join(d, "log")
            env = dict(os.environ, LD_PRELOAD=so, WATCH_CLOCK=str(rng.randrange(1 << 40)), WATCH_FD="1", WATCH_LINES="1")
            killed = False
            for attempt in (1, 2):
                with open(log, "wb") as f: pass
                with open(log, "ab") as f:
                    p = subprocess.Popen([c.bins["mps_plain"], "-s", st, "-o", out], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=f, start_new_session=True)
                    try: rc = p.wait(0.5 if kind == 7 else 60)
                    except subprocess.TimeoutExpired:
                        p.kill(); p.wait(); killed = True
                if not killed or kind == 7: break
            if killed and kind != 7:
                c.hung(f"a run of {n} steps did not end")
                return ("did not end", k)
            text = cli.read(log).decode("utf-8", "replace")
            lines = text.split("\n")[:-1]
            if not killed and rc != 0: return (None, k, {"runs stopped by an error": 1}, 0)
            if kind == 7 and not killed: return (f"a run to {s['endTime']} ended after half a second with status {rc}", k)
            sets = {}
            for q in cli.outputs(out):
                p = cli.set_path(out, "vtu", q)
                try: v = cli.read_vtu(p)
                except Exception:
                    if killed: continue
                    raise
                if killed and not os.path.exists(cli.set_path(out, "csv", q)): continue
                speed = max([0.0] + [math.sqrt(sum(x * x for x in u)) for u, ty in zip(v["Velocity"], v["Particle Type"]) if ty == 1])
                sets[q] = (v["Time"][0], speed)
            got = {}
            def seen(name, m=1): got[name] = got.get(name, 0) + m
            bad = judge_report(lines, s, start, sets, True, killed, seen)
            if bad: return (bad, k)
            if not killed:
                out2 = os.path.join(d, "again")
                os.makedirs(out2)
                r = cli.mps(c, c.bins["mps_plain"], st, out2, cwd=d)
                o, e = r.out.decode("utf-8", "replace").split("\n"), r.err.decode("utf-8", "replace").split("\n")
                bad = [x for x in o if ERRLINE.match(x)] and "step lines meant for standard error are on standard output"
                bad = bad or [x for x in e if LINE.match(x)] and "report lines are on standard error"
                if bad: return (bad, k)
                a = [x for x in lines if LINE.match(x)]
                b = [x for x in o if LINE.match(x)]
                strip = lambda x: re.sub(r"elapsed=.*?/step   last=\S*", "", x)
                if [strip(x) for x in a] != [strip(x) for x in b]: return ("report lines differ between two runs beyond their times", k)
                if [x for x in lines if ERRLINE.match(x)] != [x for x in e if ERRLINE.match(x)]: return ("lines on standard error differ between two runs", k)
                seen("runs with the two streams apart")
            return (None, k, got, got.get("steps reported", 0))
        finally: shutil.rmtree(d)
    for r in pool_map(one, range(c.n(64, 2400))):
        if r[0]: c.violation("report " + r[0], f"run {r[1]}: {r[0]}", dict(kind="report", case=r[1], seed=c.seed))
        else:
            c.case(("report", r[1]), r[3] > 0)
            for a, b in r[2].items(): c.count(a, b)
    return ["steps reported", "elapsed times compared with the clock", "remaining times compared", "remaining times of runs without end", "file counts compared", "Courant numbers compared", "warnings about the Courant number", "steps without warning",
            "total times compared", "runs with the two streams apart"]


CHECKS = {"P28": (p28, "exploration")}


# ---------------------------------------------------------------- P29
def trace(c, cmd, cwd, timeout=100, limit="unlimited", retry=True):
    """Runs the program with the heap monitor; returns (status, readings [(live bytes, live blocks, open files, CPU s)], end record)."""
    log = os.path.join(cwd, "heap.log")
    if os.path.exists(log): os.unlink(log)
    r = c.run(["bash", "-c", f'ulimit -v {limit}; exec 900>>"$0"; LD_PRELOAD="$WATCH_SO" exec "$@"', log] + cmd, cwd=cwd, env={"WATCH_SO": c.bins["watch"], "WATCH_FD": "900"}, timeout=timeout, retry_timeout=retry)
    R, E = [], None
    for x in cli.read(log).decode().split("\n"):
        f = x.split()
        if x.startswith("\x01R"): R.append((int(f[2]), int(f[3]), int(f[4]), int(f[6]) * 1e-6))
        if x.startswith("\x01E"): E = dict(live=int(f[1]), blocks=int(f[2]), peak=int(f[3]), cpu=int(f[4]) * 1e-6, rss=int(f[5]))
    return r, R, E


def p29(c):
    c.build("mps_plain", "mps_san", "watch", "gen_dambreak", "gen_hydrostatic")
    c.rule = ("Whole runs with every allocation counted and the open files listed at every reading of the clock: fluids (2D and 3D) that stay exactly as they are and particles that bounce between walls for ever, over thousands of steps and hundreds of saved sets, where live memory, live blocks, open files and the cost of a step must stay what they were, and moving ones, where they must stay bounded; "
              "CPU time and largest live memory of runs on 4,000 and on 64,000 particles, for each input format and both methods; LeakSanitizer at the end of finished and rejected runs and of the generators. Non-trivial: always.")
    c.assumptions = ["16 times the particles may cost at most 48 times the CPU time and 30 times the memory, which leaves quadratic algorithms (256 times) no room", "memory that grows by less than 512 bytes over 1,000 steps is not seen"]
    P = c.bins["mps_plain"]

    def steady(k):
        rng = random.Random(c.seed * 7013 + k)
        s = dict(cli.BASE)
        l = 0.1
        kind = ["tank", "tank", "moving", "3d", "tank", "billiard"][k % 6]
        still = kind in ("tank", "3d")
        n = c.n(400, 2000) if kind == "moving" else c.n(3000, 20000) if kind == "billiard" else c.n(600, 5000) if kind == "3d" else c.n(1500, 20000)
        ps = cli.tank(rng.randint(2, 5), rng.randint(2, 4), l, 1, rng.randint(0, 1), vel=None if still else lambda ix, iy: [rng.uniform(-.5, .5), rng.uniform(-.5, .5), 0.0])
        every = rng.choice([3, 10, 40])
        s.update({"pressureCalculationMethod": ["Implicit", "Explicit"][k % 2], "surfaceDetection-particleDistribution": k % 4 < 2, "outputVtkInBinary": rng.random() < 0.5, "endTime": s["dt"] * n, "outputPeriod": s["dt"] * every,
                  "domainMin": [-1.0, -1.0, 0.0], "domainMax": [1.5, 2.0, 0.0], "soundSpeed": 10.0})
        if kind != "moving": s["gravity"] = [0.0, 0.0, 0.0]
        if kind == "3d":
            s.update({"dim": 3, "domainMin": [-1.0, -1.0, -1.0], "domainMax": [1.5, 2.0, 1.0]})
            ps = [[1 if max(abs(x), abs(y), abs(z)) <= 1 else 2, x * l, y * l, z * l, 0, 0, 0] for x in range(-2, 3) for y in range(-2, 3) for z in range(-2, 3)]
        if kind == "billiard": # particles bounce between walls and off each other for ever
            ps = []
            for y in range(rng.randint(3, 5)):
                Y = -0.9 + 0.5 * y
                ps += [[2, -0.3, Y, 0, 0, 0, 0], [2, 0.5, Y, 0, 0, 0, 0], [1, 0.0, Y, 0, rng.uniform(.05, .3) * l / s["dt"], 0, 0]]
                if y % 2: ps.append([1, 0.2, Y, 0, rng.uniform(-.3, .1) * l / s["dt"], 0, 0])
            s.update({"coefficientOfRestitution": 1.0, "kinematicViscosity": 0.0, "collisionDistanceRatio": 0.5})
        gone = 0
        if kind != "billiard" and k % 2 == k // 2 % 2: # ghosts from the start, particles outside the domain, and some that leave it soon
            for q in range(rng.randint(1, 40)): ps.insert(rng.randrange(len(ps)), [0, rng.uniform(-.5, .5), rng.uniform(-2, 2), 0, 0, 0, 0])
            for q in range(rng.randint(1, 20)): ps.insert(rng.randrange(len(ps)), [rng.randint(1, 3), 1.6 + 0.4 * q, 0, 0, 0, 0, 0])
            for q in range(3): ps.append([1, -0.8, -0.9 + 0.5 * q, 0, -100.0, 0, 0])
            gone = len(ps)
        if rng.random() < 0.5: s["cflCondition"] = 1e-9 # a warning in each step
        d = c.dir(f"m{k}")
        try:
            st, out = cli.setup(d, s, ps, rng.choice([".prof", ".csv", ".vtu"]), rng=rng)
            r, R, E = trace(c, [P, "-s", st, "-o", out], d)
            if r.timeout: return (f"a run of {n} steps did not end", k)
            if r.rc != 0: return (None, k, {"runs stopped by an error": 1})
            sets = len(cli.outputs(out))
            if len(R) < n: return (f"harness: only {len(R)} readings in {n} steps", k)
            if R[-1][2] != R[len(R) // 10][2]: return (f"{R[-1][2]} open files at the end of {n} steps and {sets} saved sets, {R[len(R) // 10][2]} after a tenth of them", k)
            m = len(R)
            third = lambda q, a, b: max(x[q] for x in R[int(a * m):int(b * m)])
            for q, what, tol in ((0, "bytes", 512), (1, "blocks", 2)):
                a, b = third(q, 0.1, 0.4), third(q, 0.7, 1.0)
                if b > (a + tol if kind != "moving" else 1.5 * a + 32768): return (f"{b} {what} of memory in use late in a run of {n} steps and {sets} sets, {a} early" + (", though nothing moves" if still else ", though particles only bounce" if kind == "billiard" else ""), k)
            a, b = R[int(0.4 * m)][3] - R[int(0.1 * m)][3], R[m - 1][3] - R[int(0.7 * m)][3]
            if b > 4 * a + 0.25: return (f"the last steps of {n} took {b:.2f} s of CPU time, as many early ones {a:.2f} s", k)
            bounced = 0
            if kind == "billiard":
                v = [cli.read_vtu(cli.set_path(out, "vtu", q))["Velocity"] for q in range(0, sets, max(1, sets // 40))]
                bounced = sum(any(g[0] * h[0] < 0 for g, h in zip(a, b)) for a, b in zip(v, v[1:]))
                if not bounced: return ("harness: nothing bounced", k)
            return (None, k, {"steps with memory and files counted": n, "sets saved with memory and files counted": sets, ("steady" if still else kind) + " runs": 1, "sets in which particles bounced": bounced, "long runs with ghosts": 1 if gone else 0})
        finally: shutil.rmtree(d)

    def saves(k):
        """Thousands of sets of hardly any particles."""
        rng = random.Random(c.seed * 7027 + k)
        n = c.n(5000, 20000)
        s = dict(cli.BASE)
        s.update({"endTime": s["dt"] * n, "outputPeriod": s["dt"] * 0.5, "gravity": [0.0, 0.0, 0.0], "pressureCalculationMethod": ["Implicit", "Explicit"][k % 2], "outputVtkInBinary": rng.random() < 0.5})
        for attempt in (1, 2, 3):
            d = c.dir(f"s{k}-{attempt}")
            try:
                st, out = cli.setup(d, s, [[1, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [2, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0]], rng.choice([".prof", ".csv", ".vtu"]))
                r, R, E = trace(c, [P, "-s", st, "-o", out], d)
                if r.timeout: return (f"a run of {n} steps and sets did not end", k)
                sets = len(cli.outputs(out))
                if r.rc != 0 or len(R) < n: return (f"harness: status {r.rc}, {len(R)} readings in a run of {n} steps, {r.err[-200:]}", k)
                m = len(R)
                a, b = R[int(0.1 * m)][3] - R[2][3], R[m - 1][3] - R[int(0.9 * m)][3]
                if b <= 3 * a + 0.05: return (None, k, {"sets saved one after another": sets})
            finally: shutil.rmtree(d)
        return (f"the last tenth of {sets} sets of two particles took {b:.2f} s of CPU time, the first {a:.2f} s", k)

    def leaks(k):
        rng = random.Random(c.seed * 7019 + k)
        s, ps = cli.problem(rng)
        s["pressureCalculationMethod"] = ["Implicit", "Explicit"][k % 2]
        d = c.dir(f"l{k}")
        try:
            env = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=23"}
            if k % 8 == 7:
                os.makedirs(os.path.join(d, "input", "dambreak")), os.makedirs(os.path.join(d, "input", "hydrostatic"))
                r = c.run([c.bins[rng.choice(["gen_dambreak", "gen_hydrostatic"])]], cwd=d, env=env)
                what = "generator runs"
            else:
                st, out = cli.setup(d, s, ps, [".prof", ".csv", ".vtu"][k % 3])
                if k % 8 == 6:
                    y = cli.read(st).decode().split("\n")
                    del y[rng.randrange(len(y) - 2)]
                    cli.write(st, "\n".join(y))
                r = c.run([c.bins["mps_san"], "-s", st, "-o", out], cwd=d, env=env)
                what = "runs" if r.rc == 0 else "rejected runs"
            t = r.err.decode("utf-8", "replace")
            if "LeakSanitizer has encountered a fatal error" in t: return (None, k, {"runs in which LeakSanitizer could not work": 1})
            m = re.search(r"ERROR: LeakSanitizer[\s\S]{0,1500}", t)
            if m: return (f"memory lost: {m.group(0)}", k)
            return (None, k, {what + " without a leak": 1})
        finally: shutil.rmtree(d)

    for r in pool_map(steady, range(c.n(24, 240))) + pool_map(leaks, range(c.n(32, 640))) + pool_map(saves, range(c.n(2, 8)), jobs=2):
        if r[0] and r[0].startswith("harness"): raise core.HarnessError(r[0])
        if r[0]: c.violation("resources " + r[0][:200], f"run {r[1]}: {r[0]}", dict(kind="resources", case=r[1], seed=c.seed))
        else:
            c.case(("resources", r[1], str(r[2])))
            for a, b in r[2].items(): c.count(a, b)

    # cost against size
    def cost(a):
        ext, method, n, kind = a
        l = 0.01
        side = int(round(math.sqrt(n)))
        s = dict(cli.BASE)
        ps = cli.tank(side, side, l, 2, 0)
        if kind == "ghosts": # every other particle is a ghost, from the start or because it lies outside
            for q in range(0, len(ps), 2): ps[q] = [0] + ps[q][1:] if q % 4 else ps[q][:2] + [-99.0] + ps[q][3:]
        if kind == "walls":
            for q in range(len(ps)): ps[q][0] = 1 if q % 50 == 0 else 2 + q % 2
        if kind == "far apart":
            for p in ps: p[1:3] = [p[1] * 4, p[2] * 4]
        s.update({"particleDistance": l, "dt": 1e-4, "endTime": 1e-4, "outputPeriod": 1e-4, "pressureCalculationMethod": method, "domainMin": [-0.5, -0.5, 0.0], "domainMax": [side * l * (4 if kind == "far apart" else 1) + 0.5, side * l * (4 if kind == "far apart" else 1) + 0.5, 0.0], "gravity": [0.0, 0.0, 0.0],
                  "outputVtkInBinary": ext != ".vtu"})
        d = c.dir(f"n{ext}{method}{n}{kind}")
        try:
            st, out = cli.setup(d, s, ps, ext)
            r, R, E = trace(c, [P, "-s", st, "-o", out], d, timeout=150, limit=6000000, retry=False)
            if r.timeout: return ("timeout", len(ps), 150.0, 0)
            if r.rc != 0 or E is None: return (f"status {r.rc} {r.err[-200:]}", len(ps), 0, 0)
            t = [0.0] + [x[3] for x in R] + [E["cpu"]]
            return (None, len(ps), E["cpu"], E["peak"], [b - a for a, b in zip(t, t[1:])])
        finally: shutil.rmtree(d)
    for ext, method, kind in ((".prof", "Implicit", "tank"), (".csv", "Explicit", "tank"), (".vtu", "Implicit", "tank"), (".csv", "Implicit", "ghosts"), (".prof", "Explicit", "walls"), (".prof", "Implicit", "far apart")):
        for attempt in (1, 2, 3):
            small, large = cost((ext, method, 4000, kind)), cost((ext, method, 64000, kind))
            if small[0]: raise core.HarnessError(f"cost run failed: {small}")
            f = large[1] / small[1]
            bad = None
            if large[0]: bad = f"a run on {large[1]} particles failed with {large[0]}, on {small[1]} it worked ({ext} input, {method})"
            elif large[2] != 150.0 and len(large[4]) == len(small[4]) and any(b > 3 * f * max(a, 0.01) for a, b in zip(small[4], large[4])):
                q = [b > 3 * f * max(a, 0.01) for a, b in zip(small[4], large[4])].index(True)
                bad = f"{large[1]} particles took {large[4][q]:.2f} s of CPU time from clock reading {q} to the next, {small[1]} took {small[4][q]:.2f} s ({ext} input, {method})"
            elif large[2] > 3 * f * max(small[2], 0.02): bad = f"{large[1]} particles took {large[2]:.2f} s of CPU time, {small[1]} took {small[2]:.2f} s ({ext} input, {method})"
            elif large[3] > 2 * f * small[3]: bad = f"{large[1]} particles took {large[3]} bytes of memory, {small[1]} took {small[3]} ({ext} input, {method})"
            if not bad or large[0] == "timeout": break
        if bad: c.violation("resources cost " + ext + method + kind, f"{kind}: {bad}", dict(kind="cost", ext=ext, method=method, arrangement=kind, seed=c.seed))
        c.case(("cost", ext, method, kind), sample=dict(input=ext, method=method, arrangement=kind, particles=[small[1], large[1]], cpu_s=[small[2], large[2]], bytes=[small[3], large[3]]))
        c.count("cost ratios measured")
        c.maxima["CPU ratio for 16 times the particles"] = max(c.maxima.get("CPU ratio for 16 times the particles", 0), round(large[2] / max(small[2], 0.001), 1))
        c.maxima["memory ratio for 16 times the particles"] = max(c.maxima.get("memory ratio for 16 times the particles", 0), round(large[3] / max(small[3], 1), 1))
    return ["steps with memory and files counted", "sets saved with memory and files counted", "steady runs", "moving runs", "billiard runs", "sets in which particles bounced", "long runs with ghosts", "sets saved one after another", "cost ratios measured"]


CHECKS["P29"] = (p29, "exploration")


# ---------------------------------------------------------------- P30
STUB = r'''#!/bin/bash
# stands in for the program: records how it was started, prints a lot on both streams, writes into its output directory
{ printf 'START\0%s\0' "$PWD"; printf '%s\0' "$@"; } >> "$STUB_LOG"
out=""
while [ $# -gt 0 ]; do case "$1" in -o|--output) out="$2"; shift;; esac; shift; done
{ printf 'LIST\0'; find "$out" -mindepth 1 -printf '%P\0'; } >> "$STUB_LOG"
cat "$STUB_OUT"
cat "$STUB_ERR" >&2
tail -c 100 "$STUB_OUT"
mkdir -p "$out/prof" && echo made > "$out/prof/output_0000.prof"
exit $STUB_RC
'''
RM = r'''#!/bin/bash
# stands in for rm: records its arguments and removes nothing outside the scratch directory
for a in "$@"; do case "$a" in -*) ;; *) p=$(realpath -ms -- "$a"); case "$p" in "$WORLD"/*) ;; *) printf 'ESCAPE\0%s\0' "$p" >> "$STUB_LOG"; exit 1;; esac;; esac; done
printf 'RM\0' >> "$STUB_LOG"
exec /bin/rm "$@"
'''


def p30(c):
    c.build("mps_plain")
    c.rule = ("scripts/runner.sh and scripts/safe_runner.sh copied into generated project folders (names with spaces and odd characters, earlier results of this and other projects present or not) and started in every way (from the folder, from scripts/, from elsewhere where decoys of everything lie, by absolute and relative path), as an unprivileged user "
              "with a recording rm and, in most runs, a recording program that prints up to 1 MB on both streams; the whole tree is compared before and after. Non-trivial: always.")
    c.assumptions = ["runner.ps1 is not run: there is no PowerShell here", "hidden files in the result directory need not be removed"]
    src = "/repo/scripts"

    def one(k):
        rng = random.Random(c.seed * 7901 + k)
        W = os.path.realpath(c.dir(f"s{k}"))
        try:
            proj = os.path.join(W, rng.choice(["proj", "my project", "a  b", "x'y", "prøject", "-p", "semi;colon", "star*", "$HOME"]))
            away = os.path.join(W, "elsewhere")
            bindir = os.path.join(W, "bin")
            real = k % 5 == 4
            for q in ("runner.sh", "safe_runner.sh"):
                cli.write(os.path.join(proj, "scripts", q), cli.read(os.path.join(src, q)))
                os.chmod(os.path.join(proj, "scripts", q), 0o755)
            names = ["dambreak", "hydrostatic", "my case", "x*"]
            s, ps = cli.problem(rng)
            for base in (proj, away):
                for n in names:
                    s["endTime"] = s["dt"] * (2 if base == proj else 3)
                    p2, _ = cli.setup(os.path.join(base, "input", n), dict(s, numPhysicalCores=1 + names.index(n)), ps)
                    os.rmdir(os.path.join(base, "input", n, "out"))
                if base == away or rng.random() < 0.7:
                    for n in ("dambreak", "hydrostatic", "dambreak2", "dambreak 2", "my case", "20200101000000-dambreak-", "20250101000000-dambreak-note"):
                        cli.write(os.path.join(base, "result", n, "prof", "output_0000.prof"), f"old {n}\n")
                        cli.write(os.path.join(base, "result", n, "console.log"), "old\n" * rng.randint(1, 50000))
                        cli.write(os.path.join(base, "result", n, "error.log"), "old\n")
            exe = os.path.join(proj, "build", "mps")
            cli.write(exe, cli.read(c.bins["mps_plain"]) if real else STUB)
            cli.write(os.path.join(away, "build", "mps"), "#!/bin/bash\nprintf 'DECOY\\0' >> \"$STUB_LOG\"\n")
            cli.write(os.path.join(bindir, "rm"), RM)
            # a clock and a time zone of the call's own, so that any hour, month and year may come up
            zone, now = rng.randint(-12, 12), rng.randint(946684800, 4102444800) if rng.random() < 0.6 else None
            if now: cli.write(os.path.join(bindir, "date"), '#!/bin/bash\nexec /usr/bin/date -d "@%d" "$@"\n' % now)
            for q in (exe, os.path.join(away, "build", "mps"), os.path.join(bindir, "rm")) + ((os.path.join(bindir, "date"),) if now else ()): os.chmod(q, 0o755)
            big = rng.choice([0, 10, 5000, 1000000])
            text = "".join("%d: dt=0.001s t=%gs\n" % (q, q * 0.001) for q in range(big // 20 + 1)).encode()
            etext = "".join("%4d: t=%gs\n" % (q, q * 0.001) for q in range(big // 40 + 1)).encode()
            io = os.path.join(W, "io")
            cli.write(os.path.join(io, "out"), text); cli.write(os.path.join(io, "err"), etext); cli.write(os.path.join(io, "log"), b"")
            safe = k % 2 == 1
            script = os.path.join(proj, "scripts", "safe_runner.sh" if safe else "runner.sh")
            where = rng.choice([proj, os.path.join(proj, "scripts"), away, away, W])
            path = script if rng.random() < 0.5 else os.path.relpath(script, where)
            if not path.startswith("/") and "/" not in path: path = "./" + path
            if path.startswith("-"): path = "./" + path
            cmd = ([] if rng.random() < 0.6 else ["bash"]) + [path]
            name, note = "dambreak", ""
            usage = False
            if safe:
                usage = rng.random() < 0.15
                if not usage:
                    name = rng.choice(names)
                    cmd.append(name)
                    if rng.random() < 0.6:
                        note = rng.choice(["first", "two words", "x*", "a;b", "ü", "$PWD", "-n", "1.5", "--note", ""])
                        cmd += ["--note", note]
                    elif rng.random() < 0.2: cmd.append("--note")
            taken = None # the directory of a run started in the same second
            if safe and not usage and now and rng.random() < 0.35:
                taken = os.path.join(proj, "result", time.strftime("%Y%m%d%H%M%S", time.gmtime(now + 3600 * zone)) + f"-{name}-{note}")
                if rng.random() < 0.8:
                    for q in ("console.log", "error.log", "settings.yml", "prof/output_0000.prof"): cli.write(os.path.join(taken, q), "of the other run\n")
                else: os.makedirs(taken)
            for b, ds, fs in os.walk(W):
                for q in ds + fs: os.chown(os.path.join(b, q), 65534, 65534)
            os.chown(W, 65534, 65534)
            before = cli.tree(W)
            env = {"PATH": bindir + ":/usr/bin:/bin", "WORLD": W, "STUB_LOG": os.path.join(io, "log"), "STUB_OUT": os.path.join(io, "out"), "STUB_ERR": os.path.join(io, "err"), "STUB_RC": str(rng.choice([0, 0, 1])), "HOME": W, "LC_ALL": "C.UTF-8", "TZ": "XXX%+d" % -zone}
            t0 = time.time()
            def pre(): os.setgroups([]); os.setgid(65534); os.setuid(65534)
            r = c.run(cmd, cwd=where, env=env, preexec=pre, timeout=60)
            t1 = time.time()
            what = f"{cmd} in {where}"[:300].replace(W, "W")
            if r.timeout: return (f"did not end ({what})", k)
            after = cli.tree(W)
            log = after.pop("io/log").split(b"\0")
            before.pop("io/log")
            if b"DECOY" in log: return (f"the program of another directory was started ({what})", k)
            if b"ESCAPE" in log: return (f"rm was called for {log[log.index(b'ESCAPE') + 1].decode()} ({what})", k)
            rp = os.path.relpath(proj, W)
            changed = sorted(q for q in set(before) | set(after) if before.get(q, 0) != after.get(q, 0))
            if usage:
                if changed: return (f"{changed[0]} changed although no project was named ({what})", k)
                if b"START" in log: return (f"the program was started although no project was named ({what})", k)
                if r.rc == 0: return (f"status 0 although no project was named ({what})", k)
                if b"Usage" not in r.out + r.err: return (f"no usage message ({what})", k)
                return (None, k, "calls without a project refused")
            if not safe: res = os.path.join(rp, "result", "dambreak")
            else:
                new = sorted({q for q in after if os.path.dirname(q) == os.path.join(rp, "result") and q not in before})
                if taken and not new: # no directory of its own could be made
                    if changed: return (f"{changed[0]} changed, which belongs to a run started in the same second ({what})", k)
                    if b"START" in log: return (f"the program was started on the directory of a run started in the same second ({what})", k)
                    if r.rc == 0 or not r.err: return (f"status {r.rc} and {len(r.err)} bytes of messages although the directory is that of another run ({what})", k)
                    return (None, k, "starts in the same second refused")
                if len(new) != 1: return (f"{len(new)} new result directories {new[:3]} ({what}): {r.err[-300:]}", k)
                res = new[0]
                m = re.fullmatch(r"(\d{14})-(.*)", os.path.basename(res), re.S)
                if not m or m.group(2) != f"{name}-{note}": return (f"result directory {os.path.basename(res)!r} ({what})", k)
                if not any(time.strftime("%Y%m%d%H%M%S", time.gmtime(t + 3600 * zone)) == m.group(1) for t in [*range(int(t0), int(t1) + 1), *([now] if now else [])]): return (f"result directory {os.path.basename(res)!r} does not bear the time ({what})", k)
            bad = [q for q in changed if not (q == res or q.startswith(res + "/") or q == os.path.join(rp, "result"))]
            if bad: return (f"{bad[0]} changed ({what}): {r.err[-200:]}", k)
            con, err = after.get(res + "/console.log"), after.get(res + "/error.log")
            if con is None or err is None: return (f"no console or error log in the result directory ({what})", k)
            if con != r.out: return (f"console.log holds {len(con)} bytes, the terminal got {len(r.out)} ({what})", k)
            if real:
                sets = cli.outputs(os.path.join(W, res))
                if not sets or b"END SIMULATION" not in con: return (f"the run did not finish ({what}): {err[-200:]}", k)
                if after.get(res + "/settings.yml") != before[os.path.join(rp, "input", name, "settings.yml")]: return (f"the settings run were not those of {name} ({what})", k)
                if not re.search(rb"t=", err): return (f"error.log lacks the program's standard error ({what})", k)
                if sets and any(q.endswith("prof") and b"old" in (after[q] or b"") for q in after if q.startswith(res + "/")): return (f"earlier results remain in {res} ({what})", k)
            else:
                if con != text + text[-100:]: return (f"console.log does not hold the program's standard output ({what})", k)
                if err != etext: return (f"error.log does not hold the program's standard error ({what})", k)
                if log.count(b"START") != 1: return (f"the program was started {log.count(b'START')} times ({what})", k)
                a = log.index(b"START")
                b = log.index(b"LIST")
                cwd, args = log[a + 1].decode(), [x.decode() for x in log[a + 2:b]]
                opt = dict(zip(args[::2], args[1::2]))
                st, o = opt.get("--setting", opt.get("-s")), opt.get("--output", opt.get("-o"))
                full = lambda q: os.path.normpath(os.path.join(cwd, q or "/nothing"))
                if full(st) != os.path.join(proj, "input", name, "settings.yml"): return (f"settings file {st} from {cwd} ({what})".replace(W, "W"), k)
                if full(o) != os.path.join(W, res): return (f"output directory {o} from {cwd} ({what})".replace(W, "W"), k)
                left = [x.decode() for x in log[b + 1:] if x and x not in (b"console.log", b"error.log", b"RM")]
                if left: return (f"{left[0]} was still in the result directory when the program started ({what})", k)
            return (None, k, ("safe_runner" if safe else "runner") + (" runs of the program" if real else " runs of the recording program"))
        finally: shutil.rmtree(W, ignore_errors=True)
    for r in pool_map(one, range(c.n(240, 4000))):
        if r[0]: c.violation("runner: " + r[0], r[0], dict(kind="runner", case=r[1], seed=c.seed))
        else: c.case(("runner", r[1])); c.count(r[2])
    return ["runner runs of the program", "runner runs of the recording program", "safe_runner runs of the program", "safe_runner runs of the recording program", "calls without a project refused", "starts in the same second refused"]


CHECKS["P30"] = (p30, "exploration")
