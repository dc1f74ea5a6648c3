"""Checks of whole runs of the real program and of its files."""
import os, random, re, shutil, tempfile
from fractions import Fraction
from core import pool_map
import cli


def p17(c):
    c.build("drv_io", "mps_plain")
    c.rule = "Arbitrary particle states (any type, fluid type, boundary condition; ordinary, extreme, denormal and non-finite values; 0 to 2000 particles, a few with up to 70,000) saved by the real saver, 1 to 4 sets in a row, and read back by an independent parser; non-trivial: at least one particle. Then whole runs in ASCII and binary mode are compared with each other and with the input."
    c.assumptions = ["a printed number states a value to six significant digits if it differs by at most half a unit in the sixth digit"]
    c.driver("drv_io", c.n(1600, 60000))
    # whole runs: ASCII and binary output of the same problem state the same
    def one(k):
        rng = random.Random(c.seed * 1000 + k)
        s, ps = cli.problem(rng)
        ext = rng.choice([".prof", ".csv", ".vtu"])
        start = rng.choice([0.0, 1.25])
        s["endTime"] += start
        trees = []
        for b in (False, True):
            d = c.dir(f"r{k}-{int(b)}")
            st, out = cli.setup(d, dict(s, outputVtkInBinary=b), ps, ext, start, rng=rng)
            r = cli.mps(c, c.bins["mps_plain"], st, out)
            if r.rc != 0: return ("gave up", k)
            trees.append(out)
        msg, seen = None, 0
        o = [cli.outputs(t) for t in trees]
        if o[0] != o[1] or not o[0]: msg = f"ASCII run saved sets {sorted(o[0], key=str)}, binary run {sorted(o[1], key=str)}"
        for q in sorted(o[0], key=str):
            if msg: break
            try:
                a, b = (cli.read_vtu(cli.set_path(t, "vtu", q)) for t in trees)
                tp, pr = cli.read_prof(cli.set_path(trees[1], "prof", q))
                tc, cs = cli.read_csv(cli.set_path(trees[1], "csv", q))
                for kind in ("prof", "csv"):
                    if cli.read(cli.set_path(trees[0], kind, q)) != cli.read(cli.set_path(trees[1], kind, q)): msg = f"set {q}: {kind} differs between the ASCII and the binary run"
            except (AssertionError, ValueError, KeyError, OSError, IndexError) as e:
                msg = f"set {q} cannot be read: {type(e).__name__} {e}"; break
            if a["binary"] or not b["binary"]: msg = f"set {q}: wrong VTU format"; break
            for name in b:
                if name in ("binary", "n"): continue
                if len(a.get(name, ())) != len(b[name]): msg = f"set {q}: {name} has {len(a.get(name, ()))} and {len(b[name])} entries"; break
                for x, y in zip(a[name], b[name]):
                    x, y = (x, y) if isinstance(x, tuple) else ((x,), (y,))
                    if not all(cli.six(u, v) for u, v in zip(x, y)): msg = f"set {q}: {name} is {x} in ASCII, {y} in binary"; break
            if len(pr) != len(ps) or len(cs) != len(ps) or b["n"] != len(ps): msg = msg or f"set {q} does not list {len(ps)} particles"
            for i in range(len(ps)):
                if msg: break
                full = [b["Particle Type"][i]] + list(b["Position"][i]) + list(b["Velocity"][i])
                for what, row in (("profile", pr[i]), ("CSV", cs[i])):
                    if row[0] != full[0] or not all(cli.six(u, v) for u, v in zip(row[1:7], full[1:])): msg = f"set {q}: particle {i} is {row} in the {what} file, {full} in the VTU file"
                if q == 0 and (full[0] != ps[i][0] or any(abs(u - v) > 1e-12 * abs(v) for u, v in zip(full[1:], ps[i][1:]))): msg = f"initial set: particle {i} is {full}, the input says {ps[i]}"
            if not msg and not (cli.six(tp, b["Time"][0]) and cli.six(tc, b["Time"][0])): msg = f"set {q}: times {tp}, {tc}, {b['Time'][0]}"
            seen += 1
        for t in trees: shutil.rmtree(os.path.dirname(t))
        return (msg, k, seen)
    for r in pool_map(one, range(c.n(16, 300))):
        if r[0] == "gave up": c.count("runs given up by the solver"); continue
        if r[0]: c.violation("run " + r[0], r[0], dict(kind="run", case=r[1], seed=c.seed))
        else: c.count("sets of whole runs compared", r[2]); c.case(("run", r[1]))
    return ["sets of more than 65536 particles compared", "sets compared, binary VTU", "sets compared, ASCII VTU", "sets with extreme or non-finite values", "empty sets", "sets of whole runs compared"]


def p18(c):
    c.build("drv_io")
    c.rule = "Generated profile, CSV and ASCII VTU files: 0 to 60 particles (a few: 66,000 to 68,000) of any type, numbers in many notations, any CSV column order with and without fluidType and density (positive, zero, negative), VTU arrays in any order with and without fluid types, densities, number densities and velocities, either quotation mark, LF or CRLF line ends. Non-trivial: at least one particle."
    c.assumptions = ["CSV numbers are compared to 1e-12 (the CSV library's own number parser is inexact), the others exactly"]
    c.driver("drv_io", c.n(12000, 300000))
    return ["files of more than 65536 particles loaded", "profiles loaded", "CSV files loaded", "VTU files loaded", "CSV files with densities", "CSV files without fluid types", "VTU files with densities", "VTU files with number densities only"]


def p19(c):
    c.build("drv_io", "mps_plain")
    c.rule = "Arbitrary finite states (up to 900 particles, a few with up to 68,000) saved by the real saver and loaded again from all three formats, a share of the profiles also after conversion by scripts/prof_to_csv.sh; then real runs restarted from saved sets. Non-trivial: at least one particle."
    c.assumptions = ["values are compared to six significant digits, which is what the formats carry"]
    c.driver("drv_io", c.n(4000, 100000))
    def one(k):
        rng = random.Random(c.seed * 1000 + k)
        s, ps = cli.problem(rng)
        s["outputVtkInBinary"] = False
        d = c.dir(f"a{k}")
        start = rng.choice([0.0, 3.0])
        s["endTime"] += start
        st, out = cli.setup(d, s, ps, rng.choice([".prof", ".csv", ".vtu"]), start, rng=rng)
        r = cli.mps(c, c.bins["mps_plain"], st, out)
        if r.rc != 0: return [("gave up",)]
        sets = sorted(q for q in cli.outputs(out) if isinstance(q, int))
        res = []
        q = rng.choice(sets)
        src = {"prof": cli.set_path(out, "prof", q), "csv": cli.set_path(out, "csv", q), "vtu": cli.set_path(out, "vtu", q)}
        conv = os.path.join(d, "conv.csv")
        rr = c.run(["bash", "/repo/scripts/prof_to_csv.sh", src["prof"], conv])
        if rr.rc != 0: return [(f"prof_to_csv.sh failed on set {q}: {rr.err.decode()[:200]}",)]
        src["converted"] = conv
        want = cli.read_vtu(src["vtu"])
        for what, p in src.items():
            e = os.path.join(d, "again-" + what)
            os.makedirs(e + "/out")
            cli.write(e + "/s.yml", cli.yaml_text(dict(s, particlesPath=p, endTime=s["endTime"] + 5 * s["dt"], outputVtkInBinary=True)))
            r = cli.mps(c, c.bins["mps_plain"], e + "/s.yml", e + "/out")
            if not os.path.exists(cli.set_path(e + "/out", "vtu", 0)):
                res.append((f"restarting from set {q}, {what}: status {r.rc}, no initial set: {r.err.decode()[-200:]}",)); continue
            got = cli.read_vtu(cli.set_path(e + "/out", "vtu", 0))
            msg = None
            if got["n"] != want["n"] or not cli.six(got["Time"][0], want["Time"][0]): msg = f"{got['n']} particles at {got['Time'][0]}, saved were {want['n']} at {want['Time'][0]}"
            for i in range(want["n"]):
                if msg: break
                if got["Particle Type"][i] != want["Particle Type"][i] or (what in ("csv", "vtu") and got["Fluid Type"][i] != want["Fluid Type"][i]): msg = f"particle {i} has another type"
                for name in ("Position", "Velocity"):
                    if any(abs(a - b) > 1e-12 * abs(b) for a, b in zip(got[name][i], want[name][i])): msg = f"{name} of particle {i} is {got[name][i]}, saved was {want[name][i]}"
            res.append((msg and f"restarting from set {q}, {what}: {msg}", k, what))
        shutil.rmtree(d)
        return res
    for rs in pool_map(one, range(c.n(16, 200))):
        for r in rs:
            if r[0] == "gave up": c.count("runs given up by the solver")
            elif r[0]: c.violation("restart " + r[0], r[0], dict(kind="restart", seed=c.seed))
            else: c.count("restarts from " + r[2]); c.case(("restart",) + r[1:])
    return ["round trips of more than 65536 particles", "profile round trips", "CSV round trips", "VTU round trips", "converted CSV round trips", "restarts from prof", "restarts from csv", "restarts from vtu", "restarts from converted"]


def p16(c):
    c.build("mps_plain")
    c.rule = ("Whole runs with chosen time step, output period, end time and start time (dyadic ones, where every comparison is exact, and generic ones; period equal to, below, not a multiple of and far above the step; zero period; end before, at and after the start; negative and late starts), "
              "one of them with more than 10000 sets. A freely flying particle tells from its position which state a file holds; in some runs nothing moves at all. Non-trivial: at least one step was made.")
    c.assumptions = ["with generic numbers, a step whose time is within 1e-9 of a threshold may fall on either side"]
    def one(k):
        rng = random.Random(c.seed * 7919 + k)
        dy = rng.random() < 0.6
        if k == 0: dt, per, start, end, dy = 1 / 1024, 1 / 1024, 0.0, 10.0, True
        elif k == 2: dt, per, start, end, dy = 1 / 1024, 5000 / 1024, 0.0, 70000 / 1024, True # more steps than 16 bits count
        elif dy:
            dt = rng.choice([1 / 1024, 1 / 256, 1 / 64, 0.5, 1.0, 3 / 256])
            if rng.random() < 0.3: dt = rng.randrange(1 << 20, 1 << 27) / 2.0 ** rng.choice([27, 30, 36]) # exact too, but not in single precision or a few digits
            elif rng.random() < 0.15: dt = 2.0 ** -rng.randint(20, 60) # far below any fixed tolerance
            per = dt * rng.choice([0, 0.25, 0.5, 1, 1, 2, 3, 5, 1.5, 2.5, 10, 1000])
            start = rng.choice([0.0, 0.0, dt * rng.randint(-40, 400), dt * 0.5] + ([5.0, -2.0] if dt > 2.0 ** -20 else []))
            end = start + dt * rng.choice([0, 1, 2, 0.5, rng.randint(1, 60), rng.randint(1, 60) + 0.5, -3])
        else:
            dt = rng.choice([0.001, 0.0005, 0.01, 0.1, rng.uniform(1e-4, 0.1)])
            per = dt * rng.choice([0.3, 1, 2, 3, 4, 7.3, 40, rng.uniform(0.1, 12)])
            start = rng.choice([0.0, 0.0, 0.04, rng.uniform(-1, 5)])
            end = start + dt * rng.choice([1, rng.randint(1, 60), rng.uniform(0, 60)])
        if 0 < k < 25 and k % 3 == 1: # long ones
            steps = rng.randint(300, 6000)
            per = dt * rng.choice([2, 3, 7, 50, 200, 2.5, 17.25, steps * 0.75, steps * 2])
            end = start + dt * steps
        v = 0.125 if 2.0 ** -20 < dt < 2 else 0.125 / dt
        ps = [[1, 0.0, 0.0, 0.0, v, 0.0, 0.0], [2, 1500.0, 0.5, 0.0, 0, 0, 0]]
        if k >= 25 and rng.random() < 0.2: # nothing moves, or nothing is there to move
            v = 0.0
            ps = [[t, q * rng.choice([0.9, 5.0]), 0.25, 0.0, 0.0, 0.0, 0.0] for q, t in enumerate(rng.choice([[1], [2], [3], [0], [2, 2, 3], [1, 1, 2], [2, 0]]))]
        s = dict(cli.BASE, dt=dt, outputPeriod=per, endTime=end, gravity=[0.0, 0.0, 0.0], particleDistance=1.0, domainMin=[-2.0, -1.0, 0.0], domainMax=[2000.0, 1.0, 0.0], outputVtkInBinary=True,
                 pressureCalculationMethod=rng.choice(["Implicit", "Explicit"]), radiusRatioForNumberDensity=2.1, radiusRatioForLaplacian=2.1, cflCondition=rng.choice([1.0, 1e-9]))
        d = c.dir(f"p{k}")
        if k % 12 == 5 and os.access("/dev/shm", os.W_OK): # a file system other than that of temporary files
            os.rmdir(d); d = tempfile.mkdtemp(prefix="vchk-P16-", dir="/dev/shm")
        st, out = cli.setup(d, s, ps, rng.choice([".prof", ".csv", ".vtu"]), start, rng=rng)
        other = {}
        if rng.random() < 0.15: # files of others
            for q in rng.sample(["csv/output_old.csv", "csv/output_7.csv", "csv/a.csv", "prof/output_12345x.prof", "prof/x", "vtu/output_.vtu", "vtu/copy of output_0003.vtu", "notes.txt", "output_0002.csv", "prof/output_0001/a"], rng.randint(1, 6)):
                other[q] = b"not a result"
                os.makedirs(os.path.dirname(os.path.join(out, q)), exist_ok=True)
                cli.write(os.path.join(out, q), "not a result")
        r = cli.mps(c, c.bins["mps_plain"], st, out, timeout=100)
        desc = f"dt {dt!r}, period {per!r}, start {start!r}, end {end!r}" + ("" if os.path.basename(out) == "out" else f", output directory {out[len(d):]!r}")
        def done(msg, *a):
            shutil.rmtree(d)
            return (msg and f"{desc}: {msg}", (dt, per, start, end)) + a + (v == 0,)
        if r.rc != 0: return done(f"status {r.rc}, {r.err.decode()[-200:]}")
        for q in other:
            if not os.path.isfile(os.path.join(out, q)) or cli.read(os.path.join(out, q)) != other[q]: return done(f"{q}, which was there before, is no longer what it was")
            os.remove(os.path.join(out, q))
            if q.endswith("/a"): os.rmdir(os.path.dirname(os.path.join(out, q)))
        # the schedule the statement gives, in exact arithmetic
        F = Fraction
        slack = max(1, int((end - start) / dt) // 300) # the time is added up, with rounding
        eps = 0 if dy else F(1e-9) * F(dt) * slack
        o = cli.outputs(out)
        files = sorted(x for x in o if isinstance(x, int))
        if len(files) != len(o): return done(f"unexpected output files {[x for x in o if not isinstance(x, int)][:3]}")
        if not files: return done("no set was saved, not even the initial state")
        if files != list(range(len(files))): return done(f"sets are numbered {files[:5]}...")
        steps = []
        for q in files:
            if o[q] != {"prof", "vtu", "csv"}: return done(f"set {q} exists only as {sorted(o[q])}")
            if len(files) > 3000 and 300 < q < len(files) - 300: continue
            t = cli.read_vtu(cli.set_path(out, "vtu", q))
            tv, x = t["Time"][0], t["Position"][0][0]
            n = round((F(tv) - F(start)) / F(dt))
            if abs(F(start) + n * F(dt) - F(tv)) > (0 if dy else F(1e-9) * slack * (F(dt) + abs(F(start)) / 1000)): return done(f"set {q} carries time {tv!r}, which is not reached by steps from the start")
            if abs(x - v * n * dt) > 1e-9 * (1 + v * n * dt): return done(f"set {q} carries time {tv!r} but holds the state of time {start + x / v if v else None!r}")
            for kind, rd in (("prof", cli.read_prof), ("csv", cli.read_csv)):
                tt, rows = rd(cli.set_path(out, kind, q))
                if not cli.six(tt, tv) or not (abs(rows[0][1] - x) <= 0.51e-5 * x + 1e-300): return done(f"set {q}: {kind} carries time {tt!r} and position {rows[0][1]!r}, the VTU file {tv!r} and {x!r}")
            steps.append((q, n))
        total = 0 # steps due
        if F(start) < F(end):
            total = -((F(start) - F(end)) // F(dt))
        made = len(re.findall(rb"(?m)^\d+: dt=", r.out))
        if made == 0 and total > 0: made = None # progress lines may look different; judge by the files alone
        near = not dy and abs((F(end) - F(start)) / F(dt) - round((F(end) - F(start)) / F(dt))) < F(1e-6)
        if made is not None and abs(made - total) > (1 if near else 0): return done(f"{made} steps were made, {total} are due")
        if steps[0] != (0, 0): return done(f"the first set is that of step {steps[0]}")
        # set k after the first step, following that of set k-1, at or past k periods
        prev, k2, P, D, T = 0, 1, F(per), F(dt), total
        last = dict(steps)
        while True:
            need = -((-k2 * P) // D) if P else 0
            lo = max(prev + 1, -((-(k2 * P - eps * 1000)) // D) if P else 0)
            hi = max(prev + 1, -((-(k2 * P + eps * 1000)) // D) if P else 0)
            if k2 >= len(files):
                if hi <= T - (1 if near else 0): return done(f"set {k2} is due at step {hi} of {T} but does not exist")
                break
            if k2 not in last:
                prev = max(prev + 1, need); k2 += 1; continue
            if not (lo <= last[k2] <= hi): return done(f"set {k2} was saved at step {last[k2]}, due is step {lo}" + (f" to {hi}" if hi != lo else ""))
            if last[k2] > T + (1 if near else 0): return done(f"set {k2} was saved at step {last[k2]} after the end time (step {T})")
            prev = last[k2]; k2 += 1
        return done(None, total, len(files), dy)
    for r in pool_map(one, range(c.n(240, 5000))):
        if r[0]: c.violation(r[0], r[0], dict(kind="schedule", dt=r[1][0], period=r[1][1], start=r[1][2], end=r[1][3]))
        else:
            c.case(r[1], nontrivial=r[2] > 0, sample="dt %r, period %r, start %r, end %r" % r[1] + f": {r[2]} steps, {r[3]} sets")
            c.count("exact schedules checked" if r[4] else "generic schedules checked"); c.count("sets checked", r[3]); c.count("steps", int(r[2]))
            if r[2] >= 300 and r[3] < r[2]: c.count("runs of 300 to 6000 steps")
            if r[3] > 10000: c.count("runs with more than 10000 sets")
            if r[5] and r[3] > 1: c.count("runs in which nothing moves")
            if r[2] == 0: c.count("runs without a step")
            if r[1][2] != 0: c.count("runs starting at another time than zero")
            if 0 < r[1][1] < r[1][0]: c.count("runs with a period below the step")
    return ["runs in which nothing moves", "runs of 300 to 6000 steps", "exact schedules checked", "generic schedules checked", "runs with more than 10000 sets", "runs without a step", "runs starting at another time than zero", "runs with a period below the step"]


CHECKS = {"P16": (p16, "exploration"), "P17": (p17, "exploration"), "P18": (p18, "exploration"), "P19": (p19, "exploration")}
