"""P24 (generators) and P27 (whole simulations of water at rest and of a collapsing column)."""
import math, os, random, re, resource, shutil, signal, statistics, subprocess, time
import build, cli
from core import Endless, pool_map

# ---------------------------------------------------------------- P27
def tank3(nx, ny, nz, l, t=2, dl=2, empty=3):
    ps = []
    w = t + dl
    for ix in range(-w, nx + w):
        for iy in range(-w, ny + empty):
            for iz in range(-w, nz + w):
                out = max(-ix, ix - nx + 1, -iy, -iz, iz - nz + 1)
                if out <= 0 and iy >= ny: continue
                ps.append([1 if out <= 0 else 2 if out <= t else 3, ix * l, iy * l, iz * l, 0, 0, 0])
    return ps


def column(nx, ny, W, l, extra):
    ps = []
    for ix in range(-4, W + 4):
        for iy in range(-4, ny + extra):
            out = max(-ix, ix - W + 1, -iy)
            if out <= 0:
                if ix < nx and iy < ny: ps.append([1, ix * l, iy * l, 0, 0, 0, 0])
            else: ps.append([2 if out <= 2 else 3, ix * l, iy * l, 0, 0, 0, 0])
    return ps


def turn(q, p):
    """Quarter turns about z of a vector, q + 10: mirrored first."""
    x, y, z = p
    if q >= 10: x = -x
    for _ in range(q % 10): x, y = -y, x
    return [x, y, z]


def simulate(c, rng, name, dim, ps, l, H, g, rho, explicit, dist, nu, steps, every, cour, lo, hi):
    """Runs a problem given with gravity along -y in a randomly turned and shifted frame; yields per set (t, particle lists in the original frame)."""
    v = math.sqrt(g * H)
    dt = cour * l / v
    q = rng.choice([0, 0, 1, 2, 3, 10, 12]) if dim == 2 else rng.choice([0, 0, 1, 2])
    off = [rng.choice([0.0, 3.0, -50.0]) * l, rng.choice([0.0, 7.0]) * l, 0.0]
    def fwd(p): return [a + b for a, b in zip(turn(q, p), off)]
    def rot(p): # back to the original frame
        x, y, z = p
        for _ in range(q % 10): x, y = y, -x
        return [-x if q >= 10 else x, y, z]
    def inv(p): return rot([a - b for a, b in zip(p, off)])
    gv = turn(q, [0.0, -g, 0.0])
    a, b = fwd(lo), fwd(hi)
    mn, mx = [min(u, w) for u, w in zip(a, b)], [max(u, w) for u, w in zip(a, b)]
    s = dict(cli.BASE)
    s.update({"dim": dim, "particleDistance": l, "dt": dt, "endTime": (steps - 0.5) * dt, "outputPeriod": dt * every * 0.999, "defaultDensity": rho, "kinematicViscosity": nu * v * H, "domainMin": mn, "domainMax": mx,
              "surfaceDetection-particleDistribution": dist, "compressibility": 2.1e-6 / (rho * g * H), "pressureCalculationMethod": "Explicit" if explicit else "Implicit", "soundSpeed": 8 * v})
    if rng.random() < 0.5:
        s.update({"xyz-input": False, "gravity-norm": g, "gravity-angle": math.degrees(math.atan2(gv[0], -gv[1])), "gravity": [1.0, 2.0, 3.0]})
    else: s["gravity"] = gv
    order = list(range(len(ps)))
    if rng.random() < 0.5: rng.shuffle(order)
    rows = [[ps[i][0]] + fwd(ps[i][1:4]) + [0, 0, 0] for i in order]
    d = c.dir(name)
    try:
        st, out = cli.setup(d, s, rows, rng.choice([".prof", ".csv", ".vtu"]))
        r = c.run([c.bins["mps_plain"], "-s", st, "-o", out], cwd=d, timeout=150)
        if r.rc != 0: return f"ends with status {r.rc}: {r.err.decode('utf-8', 'replace')[-200:]}", []
        sets = []
        fl = [k for k, i in enumerate(order) if ps[i][0] == 1]
        wl = [k for k, i in enumerate(order) if ps[i][0] != 1]
        for n in sorted(x for x in cli.outputs(out) if isinstance(x, int)):
            w = cli.read_vtu(cli.set_path(out, "vtu", n))
            if w["n"] != len(ps): return f"set {n} has {w['n']} of {len(ps)} particles", []
            ghosts = [k for k in range(len(ps)) if w["Particle Type"][k] != rows[k][0]]
            if ghosts: return f"in set {n} particle {ghosts[0]} has type {w['Particle Type'][ghosts[0]]}, was {rows[ghosts[0]][0]}", []
            if n:
                for k in wl:
                    if math.dist(w["Position"][k], rows[k][1:4]) > 1e-9 * l + 1e-12 * max(abs(z) for z in rows[k][1:4]) + (1e-5 * max(abs(z) for z in rows[k][1:4]) + 1e-5 * l): return f"in set {n} wall particle {k} has moved", []
            sets.append((w["Time"][0] / dt, [inv(w["Position"][k]) for k in fl], [rot(w["Velocity"][k]) for k in fl], [w["Pressure"][k] for k in fl]))
        return None, sets
    finally: shutil.rmtree(d)


def rest_measures(sets, steps, nx, ny, nz, l, g, rho):
    """Physical measures of a tank at rest, nx x ny x nz particles from the origin on."""
    v0 = math.sqrt(g * ny * l)
    m = dict(sets=len(sets), steps=steps)
    P, com0 = {}, statistics.mean(p[1] for p in sets[0][1])
    vmean = vmax = xout = zout = 0
    ymin, ymax, com = 0, 0, []
    for t, x, u, p in sets:
        sp = [math.dist(a, (0, 0, 0)) for a in u]
        vmean, vmax = max(vmean, statistics.mean(sp)), max(vmax, max(sp))
        xout = max(xout, max(max(-a[0], a[0] - (nx - 1) * l) for a in x))
        if nz > 1: zout = max(zout, max(max(-a[2], a[2] - (nz - 1) * l) for a in x))
        ymin, ymax = min(ymin, min(a[1] for a in x)), max(ymax, max(a[1] for a in x))
        com.append(statistics.mean(a[1] for a in x))
        if t >= steps / 3:
            for a, b in zip(x, p): P.setdefault(round(a[1] / l), []).append(b)
    full = [q for q in sorted(P) if len(P[q]) > 0.3 * nx * nz * sum(1 for s in sets if s[0] >= steps / 3)]
    xs, ys = [(ny - q - 0.5) * l for q in full], [statistics.mean(P[q]) for q in full]
    mx, my = statistics.mean(xs), statistics.mean(ys)
    m["slope"] = sum((a - mx) * (b - my) for a, b in zip(xs, ys)) / sum((a - mx) ** 2 for a in xs) / (rho * g)
    m["bottom"] = ys[0] / (rho * g * xs[0])
    m.update(vmean=vmean / v0, vmax=vmax / v0, out=max(xout, zout) / l, below=-ymin / l, above=ymax / l - ny + 1, comlo=min(com) / com0, comhi=max(com) / com0)
    return m


def rest(c, k):
    rng = random.Random(c.seed * 7121 + k)
    kind = ["implicit", "explicit", "implicit", "3d"][k % 4]
    l, g, rho = rng.choice([0.012, 0.1, 0.025, 1.0]), rng.choice([9.8, 1.6, 24.0]), rng.choice([1000.0, 800.0, 13600.0, 1.2])
    dist, nu = rng.random() < 0.5, rng.choice([1e-4, 1e-4, 1e-6])
    if kind == "3d":
        nx, ny, nz = rng.randint(5, 6), rng.randint(6, 8), rng.randint(5, 6)
        ps = tank3(nx, ny, nz, l)
        steps, every, cour = c.n(150, 400), 5, 0.2
        lo, hi = [-6 * l, -6 * l, -6 * l], [(nx + 6) * l, (ny + 9) * l, (nz + 6) * l]
    else:
        nx, ny, nz = rng.randint(6, 14), rng.randint(6, 18), 1
        ps = cli.tank(nx, ny, l, 2, 2, empty=6)
        steps, every, cour = (c.n(300, 1200), 5, 0.25) if kind == "implicit" else (c.n(1500, 6000), 25, 0.03)
        lo, hi = [-6 * l, -6 * l, 0.0], [(nx + 6) * l, (ny + 20) * l, 0.0]
    H = ny * l
    what = f"{kind} tank at rest, {nx}x{ny}{'x%d' % nz if nz > 1 else ''} particles, spacing {l}, gravity {g}, density {rho}, distribution test {dist}, viscosity {nu}"
    msg, sets = simulate(c, rng, f"t{k}", 3 if kind == "3d" else 2, ps, l, H, g, rho, kind == "explicit", dist, nu, steps, every, cour, lo, hi)
    if msg: return msg, what, {}
    m = rest_measures(sets, steps, nx, ny, nz, l, g, rho)
    return judge(m, LIMITS[kind]), what, m


LIMITS = {
    "implicit": dict(slope=(0.93, 1.1), bottom=(0.89, 1.02), vmean=(0, 0.12), vmax=(0, 0.5), out=(-1, 0.75), below=(-1, 0.4), above=(-1, 1.2), comlo=(0.93, 1.001), comhi=(0.999, 1.012)),
    "explicit": dict(slope=(0.8, 1.2), bottom=(0.8, 1.12), vmean=(0, 0.25), vmax=(0, 0.9), out=(-1, 0.9), below=(-1, 0.6), above=(-1, 2.2), comlo=(0.92, 1.001), comhi=(0.999, 1.025)),
    "3d": dict(slope=(0.92, 1.12), bottom=(0.88, 1.02), vmean=(0, 0.16), vmax=(0, 0.5), out=(-1, 0.9), below=(-1, 0.6), above=(-1, 2.0), comlo=(0.9, 1.001), comhi=(0.999, 1.03)),
    "dam": dict(emax=(0.99, 1.06), elast=(0.75, 1.03), pe=(0, 0.97), out=(-9, 2.5), below=(-9, 1.2), front=(0.9, 1.9), z1=(-0.35, 0.35), overtop=(0, 1.25)),
}
NAMES = dict(slope="pressure gradient in units of density * g", bottom="pressure of the lowest row in units of density * g * depth", vmean="largest mean speed in units of sqrt(g H)", vmax="largest speed in units of sqrt(g H)", out="largest distance into the side walls in particle distances",
             below="largest distance into the bottom in particle distances", above="rise of the highest particle in particle distances", comlo="lowest height of the centre of mass in units of the initial one", comhi="largest height of the centre of mass in units of the initial one",
             emax="largest energy in units of the initial one", elast="last energy in units of the initial one", pe="lowest potential energy in units of the initial one", front="largest speed of the front in units of sqrt(g H)", z1="deviation of the front from the measured one in column widths", overtop="highest particle in column heights")


def judge(m, lim):
    for q, (a, b) in lim.items():
        if not a <= m[q] <= b: return f"{NAMES[q]} is {m[q]:.4g}, not between {a} and {b}"


# Front of a collapsing column measured by Martin and Moyce (1952): time * sqrt(g H) / a -> position / a, for H = 2 a
FRONT = [(0, 1.0), (0.41, 1.11), (0.84, 1.22), (1.19, 1.44), (1.43, 1.67), (1.63, 1.89), (1.83, 2.11), (1.98, 2.33), (2.20, 2.56), (2.32, 2.78), (2.51, 3.00), (2.65, 3.22), (2.83, 3.44), (2.98, 3.67)]


def front_at(T):
    for (a, x), (b, y) in zip(FRONT, FRONT[1:]):
        if T <= b: return x + (y - x) * (T - a) / (b - a)


def dam_measures(sets, steps, dt, nx, ny, W, l, g):
    """Physical measures of the collapse of a column of nx x ny particles standing at the left wall of a tank of width W."""
    H = ny * l
    E, PE, fr, T = [], [], [], []
    out = below = -9
    high = 0
    for t, x, u, p in sets:
        pe = statistics.mean(g * (a[1] + l / 2) for a in x)
        PE.append(pe); E.append(pe + statistics.mean(0.5 * sum(b * b for b in a) for a in u))
        fr.append(max(a[0] for a in x)); T.append(t * dt * math.sqrt(2 * g / (nx * l)))
        out = max(out, max(max(-a[0], a[0] - (W - 1) * l) for a in x) / l)
        below = max(below, max(-a[1] for a in x) / l)
        high = max(high, max(a[1] for a in x) / H)
    m = dict(sets=len(sets), steps=steps, emax=max(E) / E[0], elast=E[-1] / E[0], pe=min(PE) / PE[0], out=out, below=below, overtop=high)
    tt = [(b - a) / math.sqrt(2 * g / (nx * l)) for a, b in zip(T, T[1:])]
    m["front"] = max((fr[q + 1] - fr[q]) / tt[q] for q in range(len(tt))) / math.sqrt(g * H)
    dev = [(f / l + 0.5) / nx - front_at(t) for f, t in zip(fr, T) if t < 2.9]
    m["z1"] = max(dev, key=abs)
    return m


def dam(c, k):
    rng = random.Random(c.seed * 7351 + k)
    l, g, rho = rng.choice([0.012, 0.1, 0.025, 1.0]), rng.choice([9.8, 1.6, 24.0]), rng.choice([1000.0, 800.0, 13600.0])
    explicit = k % 3 == 2
    nx = rng.randint(5, 8)
    ny, W = 2 * nx, nx * rng.randint(4, 5)
    dist = rng.random() < 0.5
    H = ny * l
    cour = 0.03 if explicit else 0.12
    # until the front reaches the opposite wall
    steps = int(3.0 / math.sqrt(2 * g / (nx * l)) / (cour * l / math.sqrt(g * H)))
    every = max(1, steps // 40)
    what = f"{'explicit' if explicit else 'implicit'} collapse of a column of {nx}x{ny} particles in a tank of width {W}, spacing {l}, gravity {g}, density {rho}, distribution test {dist}"
    msg, sets = simulate(c, rng, f"d{k}", 2, column(nx, ny, W, l, ny + 4), l, H, g, rho, explicit, dist, 1e-6, steps, every, cour, [-6 * l, -6 * l, 0.0], [(W + 6) * l, 5 * ny * l, 0.0])
    if msg: return msg, what, {}
    m = dam_measures(sets, steps, cour * l / math.sqrt(g * H), nx, ny, W, l, g)
    return judge(m, LIMITS["dam"]), what, m


EXAMPLES = [("hydrostatic", ".prof"), ("dambreak", ".prof"), ("hydrostatic", ".csv"), ("dambreak", ".csv")]


def example(c, k):
    """The problems shipped in input/ with their own settings, to a shorter end and saved more often."""
    name, ext = EXAMPLES[k % len(EXAMPLES)]
    what = f"shipped problem {name} from its {ext} file"
    d = c.dir(f"x{k}")
    try:
        src = os.path.join(build.REPO, "input", name)
        for f in os.listdir(src): shutil.copy(os.path.join(src, f), d)
        text = open(os.path.join(d, "settings.yml"), encoding="utf-8").read()
        num = lambda key: float(re.search(rf"^{key}:[ \t]*([^#\s]+)", text, re.M)[1])
        dt, l, rho = num("dt"), num("particleDistance"), num("defaultDensity")
        g = -float(re.search(r"^gravity:[ \t]*\[([^\]]*)\]", text, re.M)[1].split(",")[1])
        end = c.n(1.2, 4.0) if name == "hydrostatic" else 0.36 # the front then reaches the opposite wall
        steps = round(end / dt)
        for key, v in (("endTime", (steps - 0.5) * dt), ("outputPeriod", 10 * dt * 0.999), ("particlesPath", "./input" + ext)): text = re.sub(rf"^{key}:.*$", f"{key}: {v}", text, flags=re.M)
        with open(os.path.join(d, "settings.yml"), "w", encoding="utf-8") as f: f.write(text)
        out = os.path.join(d, "out")
        os.mkdir(out)
        r = c.run([c.bins["mps_plain"], "-s", os.path.join(d, "settings.yml"), "-o", out], cwd=d, timeout=150)
        if r.rc != 0: return f"ends with status {r.rc}: {r.err.decode('utf-8', 'replace')[-200:]}", what, {}
        sets, first = [], None
        for n in sorted(x for x in cli.outputs(out) if isinstance(x, int)):
            w = cli.read_vtu(cli.set_path(out, "vtu", n))
            ty, x = w["Particle Type"], w["Position"]
            if first is None:
                first, fl = (ty, x), [i for i, t in enumerate(ty) if t == 1]
                o = [min(x[i][q] for i in fl) for q in range(3)]
                ext3 = [round((max(x[i][q] for i in fl) - o[q]) / l) + 1 for q in range(3)]
            if list(ty) != list(first[0]): return f"types in set {n} differ from those at the start", what, {}
            bad = [i for i, t in enumerate(ty) if t != 1 and math.dist(x[i], first[1][i]) > 1e-12]
            if bad: return f"in set {n} wall particle {bad[0]} has moved", what, {}
            sets.append((w["Time"][0] / dt, [[a - b for a, b in zip(x[i], o)] for i in fl], [w["Velocity"][i] for i in fl], [w["Pressure"][i] for i in fl]))
        if name == "hydrostatic":
            m = rest_measures(sets, steps, ext3[0], ext3[1], 1, l, g, rho)
            return judge(m, LIMITS["implicit"]), what, m
        W = round((max(first[1][i][0] for i, t in enumerate(first[0]) if t == 2) - o[0]) / l) - 1
        m = dam_measures(sets, steps, dt, ext3[0], ext3[1], W, l, g)
        return judge(m, LIMITS["dam"]), what, m
    finally: shutil.rmtree(d)


def p27(c):
    c.build("mps_plain")
    c.rule = ("The problems shipped in input/ with their own settings, to a shorter end; whole runs of open tanks of water at rest (2D implicit, 2D explicit, 3D implicit) and of collapsing columns, with random sizes, spacings, gravity, densities, viscosities, surface tests, numbering, input format, turned and mirrored and shifted frames, gravity by components or by norm and angle. From the saved binary VTU files: number and types of particles, immobility of walls, "
              "excursions into the walls, centre of mass, speeds, time-averaged pressure against depth, energy, and the front of the collapse against the measurements of Martin and Moyce. Non-trivial: the run ended and saved at least 20 sets.")
    c.assumptions = ["the limits are physical values widened by the scatter of the method on several hundred runs of the unchanged program: " + "; ".join(f"{k}: " + ", ".join(f"{q} {a}..{b}" for q, (a, b) in v.items()) for k, v in LIMITS.items())]
    jobs = [(example, k) for k in range(len(EXAMPLES))] + [(rest, k) for k in range(c.n(24, 400))] + [(dam, k) for k in range(c.n(12, 200))]
    for (f, k), (msg, what, m) in zip(jobs, pool_map(lambda j: j[0](c, j[1]), jobs)):
        if msg: c.violation("simulation " + msg, f"{what}: {msg}", dict(kind="simulation", case=(f.__name__, k), seed=c.seed))
        c.case((f.__name__, k), bool(m) and m["sets"] >= 20, what)
        kind = what.split(" from ")[0] if f is example else "collapse" if f is dam else what.split(" ")[0] + " at rest"
        c.count("runs: " + kind)
        for q, v in m.items():
            if q in ("sets", "steps"): c.count(f"{q} of {kind}", v)
            else:
                c.maxima[f"{kind}: {q}"] = max(v, c.maxima.get(f"{kind}: {q}", -1e9))
                c.maxima[f"{kind}: {q} (least)"] = min(v, c.maxima.get(f"{kind}: {q} (least)", 1e9))
    return ["runs: implicit at rest", "runs: explicit at rest", "runs: 3d at rest", "runs: collapse", "runs: shipped problem hydrostatic", "runs: shipped problem dambreak"]


# ---------------------------------------------------------------- P24
def lattice(case):
    """The documented tank of a generator as a lattice: (ix, iy) -> type, and position of a lattice point."""
    r = {}
    if case == "dambreak": # particles on the lattice points, column of 0.25 x 0.5 in a tank of 1.0 x 0.6, spacing 0.025
        for ix in range(-4, 45):
            for iy in range(-4, 25):
                t = 3
                if -2 <= ix <= 42 and iy >= -2 or iy >= 22: t = 2
                if 0 <= ix <= 40 and 0 <= iy <= 24: t = 1 if ix <= 10 and iy <= 20 else None
                if t: r[ix, iy] = t
        return r, lambda x: x / 0.025, 0.025
    for ix in range(-19, 19): # particles in the middle of the cells, 0.36 x 0.48 of water in walls 0.6 high, spacing 0.012
        for iy in range(-4, 50):
            t = 2 if -17 <= ix <= 16 and iy >= -2 else 3
            if -15 <= ix <= 14 and iy >= 0: t = 1 if iy < 40 else None
            if t: r[ix, iy] = t
    return r, lambda x: x / 0.012 - 0.5, 0.012


def p24(c):
    c.build("gen_dambreak", "gen_hydrostatic", "drv_gen", "mps_san", "faultrun")
    c.rule = ("Both generators (address and undefined behaviour sanitizers on) in scratch directories with every combination of existing files, fed with sequences of answers (y, Y, n, N, other words, empty lines, binary rubbish, several on a line, very long ones; ended or left open; closed standard input), files compared before and after; the dialogue also with other lists of file types. "
              "The generated tanks are compared with a lattice built from their documented measures, profile and VTU with each other, and the simulator runs steps on them with the supplied settings. Output operations of the generators fail one after another. Non-trivial: files existed before, or a tank was checked.")
    c.assumptions = ["answers are words separated by blanks, and Y and N count like y and n", "a run that has not ended within 20 s after the end of its input does not terminate"]
    gens = {"dambreak": c.bins["gen_dambreak"], "hydrostatic": c.bins["gen_hydrostatic"]}
    fresh = {}

    def bad(msg, key): c.violation("generator " + msg, msg, dict(kind="generator", case=key, seed=c.seed))

    # the tanks
    for case, exe in gens.items():
        d = c.dir("g-" + case)
        r = c.run([exe], cwd=d, stdin=b"", timeout=60)
        t = cli.tree(d)
        if r.sanitizer: bad(f"{case}: {r.sanitizer}", case)
        if r.rc != 0 or r.timeout: bad(f"{case} without existing files ends with status {r.rc}: {r.err[-300:]}", case); continue
        fp, fv = f"input/{case}/input.prof", f"input/{case}/input.vtu"
        if t.get(fp) is None or t.get(fv) is None: bad(f"{case} without existing files has made {sorted(t)}", case); continue
        fresh[case] = (t[fp], t[fv])
        try:
            want, idx, l = lattice(case)
            tm, rows = cli.read_prof(os.path.join(d, fp))
            got = {}
            for q in rows:
                fx, fy = idx(q[1]), idx(q[2])
                k = (round(fx), round(fy))
                if abs(fx - k[0]) > 1e-3 or abs(fy - k[1]) > 1e-3 or q[3] != 0 or any(q[4:]): bad(f"{case}: particle {q} is not at rest on the lattice", case); break
                if k in got: bad(f"{case}: two particles at lattice point {k}", case); break
                got[k] = q[0]
            d1 = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
            if d1: bad(f"{case}: {len(d1)} lattice points differ from the documented tank, such as {d1[0]}: type {got.get(d1[0])} instead of {want.get(d1[0])}", case)
            if tm != 0: bad(f"{case}: starts at {tm}", case)
            v = cli.read_vtu(os.path.join(d, fv))
            if v["n"] != len(rows) or v["Particle Type"] != [q[0] for q in rows] or any(not cli.six(a, b) for q, x in zip(rows, v["Position"]) for a, b in zip(q[1:4], x)) or any(any(x) for x in v["Velocity"]) or v["Time"] != [0.0]:
                bad(f"{case}: profile and VTU files differ", case)
            if any(x != 1000.0 for x in v.get("Density", [])): bad(f"{case}: density in the VTU file is not 1000", case)
            # layers: from the outermost fluid particles outwards
            fl = [k for k in got if got[k] == 1]
            count = 0
            for k in fl:
                for dx, dy in ((-1, 0), (1, 0), (0, -1)):
                    line = [got.get((k[0] + m * dx, k[1] + m * dy)) for m in range(1, 5)]
                    if line[0] == 1 or (line[0] is None and case == "dambreak" and dx == 1): continue
                    count += 1
                    if line[:2] != [2, 2] or line[2] not in (2, 3) or line[3] not in (2, 3): bad(f"{case}: beside fluid at {k} towards {(dx, dy)} are types {line}", case)
            c.count("fluid particles with walls beside them", count)
            c.count("lattice points compared", len(want))
            c.case(("tank", case), sample=f"{case}: {len(rows)} particles")
            # the simulator accepts them
            for ext in (".prof", ".vtu"):
                st = cli.read(f"/repo/input/{case}/settings.yml").decode()
                st = re.sub(r"(?m)^particlesPath:.*$", f"particlesPath: ./input/{case}/input{ext}", st)
                dt = float(re.search(r"(?m)^dt: (\S+)", st).group(1))
                st = re.sub(r"(?m)^endTime:.*$", f"endTime: {dt * 4.5:.6g}", st)
                st = re.sub(r"(?m)^outputPeriod:.*$", f"outputPeriod: {dt:.6g}", st)
                cli.write(os.path.join(d, "settings.yml"), st)
                out = os.path.join(d, "out" + ext); os.makedirs(out)
                r = c.run([c.bins["mps_san"], "-s", "settings.yml", "-o", out], cwd=d, timeout=100)
                o = cli.outputs(out)
                if r.rc != 0 or len(o) < 5: bad(f"{case}: the simulator ends with status {r.rc} after {len(o)} sets on the {ext} file: {r.err[-300:]}", case)
                elif b"out of domain" in r.err: bad(f"{case}: particles of the {ext} file are out of the domain of the supplied settings", case)
                else:
                    n = cli.read_vtu(cli.set_path(out, "vtu", 4))
                    if n["n"] != len(rows) or n["Particle Type"] != v["Particle Type"]: bad(f"{case}: the simulation of the {ext} file has lost particles", case)
                    c.count("steps simulated from generated files", 5)
                    c.case(("simulated", case, ext))
        except (AssertionError, ValueError, KeyError, IndexError) as e: bad(f"{case}: files cannot be read: {e!r}", case)
        shutil.rmtree(d)
    if len(fresh) < 2: return []

    # the dialogue
    words = ["yes", "no", "yy", "nn", "yn", "1", "ok", "q", "-", "Yes", "NO", "true", "é", "\x00", "y.", "\x1b[A", "x" * 70000, "n\x00", "?"]
    def dialogue(k):
        if c.endless: raise Endless(c.endless)
        rng = random.Random(c.seed * 5413 + k)
        case = rng.choice(["dambreak", "hydrostatic", "other", "other"])
        d = c.dir(f"q{k}")
        p = None
        try:
            base = os.path.join(d, "input", case)
            if case == "other":
                exts = rng.choice([[".prof"], [".vtu"], [".csv"], [".prof", ".vtu"], [".csv", ".prof", ".vtu"], [".vtu", ".csv"], [".csv", ".txt"], ["prof"], [], [".prof", ".PROF"]])
                cmd = [c.bins["drv_gen"], os.path.join("input", case)] + exts
            else: exts, cmd = [".prof", ".vtu"], [gens[case]]
            valid = exts and all(e in (".prof", ".vtu", ".csv") for e in exts)
            there = rng.choice(["nothing", "directory", "some", "some", "some", "all"])
            if there != "nothing": os.makedirs(base)
            have = []
            for e in (".prof", ".vtu", ".csv"):
                if there == "all" or there == "some" and rng.random() < 0.5:
                    have.append(e)
                    cli.write(os.path.join(base, "input" + e), rng.choice(["old " + e, "", "x" * 5000]))
            if there != "nothing" and rng.random() < 0.5: cli.write(os.path.join(base, "settings.yml"), "mine"); cli.write(os.path.join(base, "input.prof.bak"), "mine too")
            ask = valid and any(e in have for e in exts)
            # answers
            ws = [rng.choice(words) for _ in range(rng.choice([0, 0, 1, 1, 2, 5, 40]))]
            last = rng.choice(["y", "y", "Y", "n", "N", "", ""])
            if last: ws.append(last)
            if rng.random() < 0.3: ws.append(rng.choice(["y", "n", "z"]))
            sep = rng.choice(["\n", "\n", "\n", " ", "\n\n", " \t\n"])
            text = sep.join(ws) + rng.choice(["\n", "\n", ""])
            if not ws and rng.random() < 0.5: text = "\n" * rng.randint(0, 3)
            dec = next((w for w in ws if w in ("y", "Y", "n", "N")), "")
            data = text.encode()
            mode = rng.choice(["pipe", "pipe", "pipe", "file", "closed", "open"])
            if mode == "closed": dec = ""
            before = cli.tree(d)
            e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
            # what is printed goes into files of limited size: a program that asks for ever prints a lot
            streams = [open(os.path.join(c.scratch, f"{x}{k}"), "w+b") for x in ("so", "se")]
            kw = dict(cwd=d, env=e, stdout=streams[0], stderr=streams[1], start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20)))
            what = f"{case} {exts}, existing {have or there}, answers {text[:60]!r} from {mode}"
            if mode == "closed": p = subprocess.Popen(["/bin/sh", "-c", 'exec "$0" "$@" <&-'] + cmd, **kw)
            elif mode == "file":
                with open(os.path.join(c.scratch, f"in{k}"), "wb") as f: f.write(data)
                p = subprocess.Popen(cmd, stdin=open(os.path.join(c.scratch, f"in{k}"), "rb"), **kw)
            else: p = subprocess.Popen(cmd, stdin=subprocess.PIPE, **kw)
            waits = mode == "open" and ask and not dec and sep[-1] == "\n"
            try:
                if waits:
                    p.stdin.write(data + b"\n"); p.stdin.flush()
                    time.sleep(0.25)
                    if p.poll() is not None: return f"ended while it should wait for an answer ({what})", k, what, False
                    if cli.tree(d) != before: return f"files changed while only other answers were given ({what})", k, what, False
                    p.communicate(b"", 20)
                else: p.communicate(data if mode in ("pipe", "open") else None, 20)
            except BrokenPipeError: p.communicate(None, 20)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.communicate()
                c.hung(f"does not terminate ({what})")
                return f"does not terminate ({what})", k, what, False
            err = b""
            for f in streams: f.seek(0); err = f.read(); f.close()
            if b"AddressSanitizer" in err or b"runtime error" in err: return f"{err[-800:].decode('utf-8', 'replace')} ({what})", k, what, False
            if p.returncode < 0: return f"killed by signal {-p.returncode} ({what})", k, what, False
            after = cli.tree(d)
            write = valid and (not ask or dec in ("y", "Y"))
            if not write:
                if after != before: return f"files changed without the answer y ({what}): {sorted(f for f in set(after) | set(before) if after.get(f, 0) != before.get(f, 0))[:3]}", k, what, False
                return None, k, what, f"dialogues: {'refused' if dec else 'input ended' if ask else 'unknown file types'}"
            for f in before:
                if not (os.path.dirname(f) == os.path.join("input", case) and os.path.basename(f) in ["input" + x for x in exts]) and after.get(f, 0) != before[f]: return f"{f} was changed ({what})", k, what, False
            for x in exts:
                f = os.path.join("input", case, "input" + x)
                if f not in after or f in before and after[f] == before[f]: return f"{f} was not written ({what})", k, what, False
                if case != "other" and after[f] != fresh[case][[".prof", ".vtu"].index(x)]: return f"{f} differs from that of a fresh run ({what})", k, what, False
                if case == "other":
                    n = {".prof": lambda q: len(cli.read_prof(q)[1]), ".csv": lambda q: len(cli.read_csv(q)[1]), ".vtu": lambda q: cli.read_vtu(q)["n"]}[x](os.path.join(d, f))
                    if n != 3: return f"{f} has {n} of 3 particles ({what})", k, what, False
            extra = [f for f in after if f not in before and f not in ("input", os.path.join("input", case)) and f not in [os.path.join("input", case, "input" + x) for x in exts]]
            if extra: return f"unexpected {extra[:3]} ({what})", k, what, False
            return None, k, what, "dialogues: replaced" if ask else "dialogues: nothing to ask"
        finally:
            for f in ("so", "se", "in"):
                if os.path.exists(os.path.join(c.scratch, f"{f}{k}")): os.unlink(os.path.join(c.scratch, f"{f}{k}"))
            if p and p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
            shutil.rmtree(d)
    for msg, k, what, kind in pool_map(dialogue, range(c.n(500, 8000))):
        if msg: bad(msg, k)
        else:
            c.case(("dialogue", k), kind in ("dialogues: replaced", "dialogues: refused", "dialogues: input ended"), what[:200])
            c.count(kind)

    # faults
    def fault(k):
        rng = random.Random(c.seed * 5419 + k)
        d = c.dir(f"e{k}")
        try:
            log = os.path.join(c.scratch, f"log{k}")
            case = rng.choice(["dambreak", "hydrostatic"])
            op = rng.choice([1, 2, 3, 4, 5, 6]) if rng.random() < 0.4 else rng.randint(1, 3000)
            err = rng.choice([28, 5, 27])
            p = subprocess.run([c.bins["faultrun"], d, log, str(op), f"{rng.choice(['err', 'all'])}:{err}", gens[case]], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            if " fired 1" not in open(log, errors="replace").read()[-40:]: return None, k, False
            t = cli.tree(d)
            ok = all(t.get(f"input/{case}/input{x}") == fresh[case][n] for n, x in enumerate((".prof", ".vtu")))
            if p.returncode == 0 and not ok: return f"{case}: status 0 and incomplete files after operation {op} failed", k, True
            if p.returncode != 0 and not p.stderr.strip(): return f"{case}: status {p.returncode} without a message after operation {op} failed", k, True
            return None, k, True
        finally: shutil.rmtree(d)
    for msg, k, fired in pool_map(fault, range(c.n(24, 400))):
        if msg: bad(msg, k)
        c.case(("fault", k), fired); c.count("failing output operations" if fired else "faults beyond the end")
    return ["lattice points compared", "fluid particles with walls beside them", "steps simulated from generated files", "dialogues: replaced", "dialogues: refused", "dialogues: input ended", "dialogues: nothing to ask", "dialogues: unknown file types", "failing output operations"]


CHECKS = {"P24": (p24, "exploration"), "P27": (p27, "exploration")}
