"""Comparison of whole runs of one problem that is written down, located, scheduled or saved in different ways."""
import json, math, os, random, shutil
import cli
from core import pool_map

UNUSED = {"Implicit": [("soundSpeed", [1.0, 1e6, 0.125])], "Explicit": [("compressibility", [1e-12, 1e-3]), ("relaxationCoefficientForPressure", [0.01, 1.0]), ("surfaceDetection-numberDensity-threshold", [0.5, 1.2]), ("surfaceDetection-particleDistribution", [True, False])]}


def integer_problem(rng):
    """Spacing 64 and integer coordinates and velocities, which every file format states and every reader reads exactly; dyadic times."""
    l, dt = 64, 1 / 256
    nx, ny = rng.randint(2, 7), rng.randint(2, 7)
    ps = [[int(x) for x in p] for p in cli.tank(nx, ny, l, rng.randint(1, 2), rng.randint(0, 2), vel=lambda ix, iy: [rng.randint(-600, 600), rng.randint(-600, 600), 0])]
    solid = rng.random() < 0.15
    if solid: # three dimensions
        m = rng.randint(3, 4)
        ps = [[1 if y > 1 else 2 if y else 3, x * l, y * l, z * l] + ([rng.randint(-600, 600) for _ in range(3)] if y > 1 else [0, 0, 0]) for x in range(m) for y in range(m + 1) for z in range(m)]
        nx, ny = m, m + 1
    if rng.random() < 0.5:
        q = rng.choice([8, 8, 30]) # 30: many collide
        for p in ps:
            if p[0] == 1: p[1] += rng.randint(-q, q); p[2] += rng.randint(-q, q)
    if rng.random() < 0.3: rng.shuffle(ps)
    if rng.random() < 0.3: ps.append([1, nx * l // 2, (ny + 9) * l, 0, rng.randint(-100, 100), 1500, 0]) # soon leaves the domain
    if rng.random() < 0.2: ps.insert(rng.randrange(len(ps)), [0, 5, 5, 0, 0, 0, 0])
    s = dict(cli.BASE)
    s.update({"particleDistance": l, "dt": dt, "domainMin": [-8 * l, -8 * l, 0.0], "domainMax": [(nx + 8) * l, (ny + 10) * l, 0.0], "gravity": [0.0, -9.8 * 640, 0.0], "kinematicViscosity": rng.choice([0.0, 100.0, 5000.0]),
              "pressureCalculationMethod": rng.choice(["Implicit", "Explicit"]), "soundSpeed": 2000.0, "surfaceDetection-particleDistribution": rng.random() < 0.5,
              "cflCondition": 0.1, "collisionDistanceRatio": rng.choice([0.5, 0.5, 0.9, 1.0]), "numPhysicalCores": rng.choice([1, 4]), "outputPeriod": dt, "endTime": dt * rng.randint(6, 14), "outputVtkInBinary": True})
    if solid:
        s.update({"dim": 3, "radiusRatioForNumberDensity": 2.1, "radiusRatioForLaplacian": 2.1})
        s["domainMin"][2], s["domainMax"][2] = -8.0 * l, 12.0 * l
    return s, ps


def csv_rows(rng, time, ps, density=None, fluid=None):
    """A CSV file with its columns in random order."""
    cols = ["type", "x", "y", "z", "vx", "vy", "vz"]
    rows = [[str(x) for x in p] for p in ps]
    if density is not None: cols.append("density"); rows = [r + [cli.num(d)] for r, d in zip(rows, density)]
    if fluid is not None: cols.append("fluidType"); rows = [r + [str(f)] for r, f in zip(rows, fluid)]
    q = list(range(len(cols))); rng.shuffle(q)
    return f"{cli.num(time)}\n{len(ps)}\n" + ",".join(cols[k] for k in q) + "\n" + "".join(",".join(r[k] for k in q) + "\n" for r in rows)


def p31(c):
    c.build("mps_plain")
    c.rule = ("Generated problems with integer coordinates (2D tanks and 3D blocks at rest or in violent motion, ghosts, particles that leave, both methods, both surface criteria), each run in up to 16 variants: other output periods, shorter and longer end times, between two steps as well, ASCII instead of binary VTU, other CFL limits and core numbers, shuffled and commented settings, "
              "the three particle file formats, CSV columns in any order, the default density spelt out, other fluid types, settings of the method, criterion or gravity notation that is not chosen, profile numbers in other notations, odd names (long, blanks, percent signs, quotes, UTF-8) of files and directories. Files of common times are compared byte by byte, or value by value where the encoding differs. Non-trivial: at least three sets in common.")
    c.assumptions = ["a run given up by the pressure solver must be given up at the same step by every variant that gets so far"]

    def one(k):
        rng = random.Random(c.seed * 7103 + k)
        s, ps = integer_problem(rng)
        dyadic = rng.random() < 0.6 # times are exact, and so is the set of steps that is saved
        n = round(s["endTime"] * 256)
        dt, start = (1 / 256, rng.choice([0.0, 0.0, 3 / 256, 1.0, -1.0])) if dyadic else (rng.choice([0.004, 0.003, 0.001]), rng.choice([0.0, 0.1, 0.7, -0.3]))
        s["dt"] = s["outputPeriod"] = dt
        if not dyadic: s["outputPeriod"] = dt * 0.99 # every step, whatever the rounding
        s["endTime"] = n * dt - (0 if dyadic else dt / 2)
        s["endTime"] += start
        d = c.dir(f"m{k}")
        shape = dict(ext=".prof", text=None, every=1, steps=n, ascii=False, fluid=False)
        V = [("reference", s, shape)]
        def variant(name, change, **sh): V.append((name, dict(s, **change), dict(shape, **sh)))
        m = rng.randint(2, 5)
        variant("output period", {"outputPeriod": m * dt}, every=m)
        variant("uneven output period", {"outputPeriod": rng.choice([1.5, 2.25, 2.75, 3.5, 4.125, 0.3]) * dt}, every=None)
        half = 0 if dyadic else dt / 2
        e = rng.randint(1, n - 1)
        variant("shorter end time", {"endTime": start + e * dt - half}, steps=e)
        e = rng.randint(1, n)
        variant("end between two steps", {"endTime": start + (e - rng.choice([0.5, 0.25, 0.875])) * dt}, steps=e)
        e = n + rng.randint(1, 6)
        variant("longer end time", {"endTime": start + e * dt - half, "outputPeriod": 2 * dt}, steps=e, every=2)
        variant("ASCII VTU", {"outputVtkInBinary": False}, ascii=True)
        variant("CFL limit", {"cflCondition": rng.choice([1e-6, 1e6, 0.01, 1.0])})
        variant("core number", {"numPhysicalCores": rng.choice([2, 3, 8, 1000])})
        keys = list(s); rng.shuffle(keys)
        V.append(("settings order", {q: s[q] for q in keys}, dict(shape, comments=True)))
        variant("CSV file", {}, ext=".csv", text=csv_rows(rng, start, ps))
        variant("VTU file", {}, ext=".vtu", text=cli.vtu_text(start, ps))
        variant("density spelt out", {"defaultDensity": rng.choice([1.0, 500.0])}, ext=".csv", text=csv_rows(rng, start, ps, [s["defaultDensity"]] * len(ps)))
        variant("fluid types", {}, ext=".csv", text=csv_rows(rng, start, ps, None, [rng.randint(0, 5) for _ in ps]), fluid=True)
        un = {q: rng.choice(v) for q, v in UNUSED[s["pressureCalculationMethod"]]}
        if not s["surfaceDetection-particleDistribution"]: un["surfaceDetection-particleDistribution-threshold"] = rng.choice([1e-3, 100.0])
        un.update({"xyz-input": True, "gravity-norm": 77.0, "gravity-angle": 33.0})
        variant("settings not used", un)
        notation = lambda x: rng.choice([str(x), f"{x}.", f"{x}.000", f"{x}e0", f"{x * 10}e-1", f"+{x}" if x >= 0 else str(x), f"{x}E+00", f"0{x}" if x >= 0 else str(x)])
        variant("names", {}, names=[cli.odd_name(rng) for _ in range(3)])
        variant("profile notation", {}, text=f"{cli.num(start)}\n{len(ps)}\n" + "".join(f"{p[0]}" + "".join(rng.choice(["  ", "\t", " "]) + notation(x) for x in p[1:]) + "\n" for p in ps))
        ref, common = None, 0
        for name, st, sh in V:
            e = os.path.join(d, name.replace(" ", "_"))
            pn, sn, on = "p", "settings.yml", "out"
            if "names" in sh: pn, sn, on = sh["names"][0].split("/")[0], sh["names"][1].split("/")[0] + ".yml", "out/" + sh["names"][2]
            y = cli.yaml_text(dict(st, particlesPath=json.dumps(f"./{pn}{sh['ext']}", ensure_ascii=False)))
            if sh.get("comments"): y = "# " + "x" * rng.randint(0, 300) + "\n\n" + y.replace("\n", "   # remark: 3\n" if rng.random() < 0.5 else "\n\n") + "...\n"
            cli.write(os.path.join(e, sn), y)
            cli.write(os.path.join(e, pn + sh["ext"]), sh["text"] or cli.prof_text(start, ps))
            out = os.path.join(e, on)
            os.makedirs(out)
            r = c.run([c.bins["mps_plain"], "-s", os.path.join(e, sn), "-o", out])
            got = cli.outputs(out)
            if ref is None:
                ref = (out, got, r.rc)
                if not got: return (f"status {r.rc}, nothing saved: {r.err[-200:]}", k, name)
                last = max(got) # the reference saves every step
                if r.rc == 0 and last != n: return (f"{last} steps instead of {n}", k, name)
                continue
            # the number of steps that can be made, and the sets due
            reach = min(sh["steps"], last if ref[2] else 1 << 30)
            stops = ref[2] != 0 and sh["steps"] > last
            if (r.rc != 0) != stops and (ref[2] != 0 or sh["steps"] <= n): return (f"status {r.rc}, the reference {ref[2]} after {last} steps: {r.err[-200:]}", k, name)
            free = sh["every"] is None or not dyadic and sh["every"] > 1 # when a set is due depends on rounding
            due = reach // (sh["every"] or 1)
            if free: pass
            elif ref[2] == 0 and sh["steps"] > n: # beyond the reference
                if r.rc == 0 and max(got) != due: return (f"sets up to {max(got)}, {due} is due", k, name)
            elif sorted(got) != list(range(due + 1)): return (f"sets {sorted(got)[:3]}..{max(got, default=None)}, {due} is the last one due", k, name)
            for q in sorted(got):
                if not free: p = q * sh["every"]
                else:
                    t = cli.read_vtu(cli.set_path(out, "vtu", q))["Time"][0]
                    p = round((t - start) / dt)
                    if abs(start + p * dt - t) > 1e-6 * dt: return (f"a set of the time {t}, between steps {math.floor((t - start) / dt)} and the next", k, name)
                if p > last: break
                common += 1
                for kind in ("prof", "csv", "vtu"):
                    a, b = cli.set_path(ref[0], kind, p), cli.set_path(out, kind, q)
                    if cli.read(a) == cli.read(b): continue
                    if sh["fluid"] and kind == "csv":
                        x, y = cli.read_csv(a), cli.read_csv(b)
                        if x[0] == y[0] and [v[:7] for v in x[1]] == [v[:7] for v in y[1]]: continue
                    if kind == "vtu" and (sh["ascii"] or sh["fluid"]):
                        x, y = cli.read_vtu(a), cli.read_vtu(b)
                        bad = [f for f in x if f not in ("binary", "Fluid Type" if sh["fluid"] else "binary") and f in y and not (x[f] == y[f] if not sh["ascii"] or f == "n" else len(x[f]) == len(y[f]) and all(cli.six(v, u) for t, w in zip(x[f], y[f]) for u, v in (zip(t, w) if isinstance(t, tuple) else ((t, w),))))]
                        if not bad and set(x) == set(y): continue
                        return (f"the state saved after step {p} differs in {bad or sorted(set(x) ^ set(y))}", k, name)
                    return (f"{kind} file saved after step {p} (set {q}) differs from the reference", k, name)
            c.count("variants compared: " + name)
        shutil.rmtree(d)
        return (None, k, common, ref[2])
    for r in pool_map(one, range(c.n(120, 3000))):
        if r[0]: c.violation(f"{r[2]}: {r[0]}", f"run {r[1]}, variant `{r[2]}`: {r[0]}", dict(kind="variant", case=r[1], seed=c.seed))
        else:
            c.case(("variant", r[1]), r[2] >= 3); c.count("sets compared", r[2])
            if r[3]: c.count("problems given up by the solver")
    return ["sets compared"] + ["variants compared: " + x for x in ("output period", "uneven output period", "shorter end time", "end between two steps", "longer end time", "ASCII VTU", "CFL limit", "core number", "settings order", "CSV file", "VTU file", "density spelt out", "fluid types", "settings not used", "names", "profile notation")]


CHECKS = {"P31": (p31, "exploration")}
