"""Inputs for the real program and independent readers of what it writes."""
import json, os, random, re, struct, xml.parsers.expat

BASE = dict([
    ("dim", 2), ("particleDistance", 0.1), ("dt", 0.001), ("endTime", 0.01), ("outputPeriod", 0.001), ("cflCondition", 0.3), ("numPhysicalCores", 4),
    ("domainMin", [-1.0, -1.0, 0.0]), ("domainMax", [2.0, 2.0, 0.0]), ("defaultDensity", 1000.0), ("kinematicViscosity", 1.0e-06),
    ("gravity", [0.0, -9.8, 0.0]), ("surfaceDetection-numberDensity-threshold", 0.97), ("surfaceDetection-particleDistribution", True),
    ("surfaceDetection-particleDistribution-threshold", 1.0), ("pressureCalculationMethod", "Implicit"), ("compressibility", 0.45e-09),
    ("relaxationCoefficientForPressure", 0.2), ("soundSpeed", 17.1), ("collisionDistanceRatio", 0.5), ("coefficientOfRestitution", 0.2),
    ("radiusRatioForNumberDensity", 3.1), ("radiusRatioForGradient", 2.1), ("radiusRatioForLaplacian", 3.1), ("particlesPath", "./p.prof"),
    ("outputVtkInBinary", True)])
REQUIRED = [k for k in BASE if k != "outputVtkInBinary"]
OPTIONAL = ["xyz-input", "gravity-norm", "gravity-angle", "outputVtkInBinary"]


def num(x):
    """A number YAML 1.2 and yaml-cpp read back exactly."""
    if isinstance(x, bool): return "true" if x else "false"
    if isinstance(x, (int, str)): return str(x)
    if isinstance(x, list): return "[" + ", ".join(num(v) for v in x) + "]"
    return repr(float(x))


def yaml_text(s): return "".join(f"{k}: {num(v)}\n" for k, v in s.items())


def prof_text(time, ps): return f"{num(time)}\n{len(ps)}\n" + "".join("%d %s\n" % (p[0], " ".join(num(float(x)) for x in p[1:7])) for p in ps)


def csv_text(time, ps): return f"{num(time)}\n{len(ps)}\ntype,x,y,z,vx,vy,vz\n" + "".join("%d,%s\n" % (p[0], ",".join(num(float(x)) for x in p[1:7])) for p in ps)


def vtu_text(time, ps):
    def arr(type, name, comps, rows): return f'<DataArray type="{type}" Name="{name}" NumberOfComponents="{comps}" format="ascii">\n' + "".join(r + "\n" for r in rows) + "</DataArray>\n"
    n = len(ps)
    return ("<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\">\n<UnstructuredGrid>\n"
            f'<Piece NumberOfPoints="{n}" NumberOfCells="{n}">\n<Points>\n' + arr("Float64", "Position", 3, (" ".join(num(float(x)) for x in p[1:4]) for p in ps)) + "</Points>\n<PointData>\n"
            + arr("Int32", "Particle Type", 1, (str(p[0]) for p in ps)) + arr("Float64", "Velocity", 3, (" ".join(num(float(x)) for x in p[4:7]) for p in ps)) + "</PointData>\n<Cells>\n"
            + arr("Int64", "connectivity", 1, (str(k) for k in range(n))) + arr("Int64", "offsets", 1, (str(k + 1) for k in range(n))) + arr("UInt8", "types", 1, ("1" for k in range(n))) + "</Cells>\n</Piece>\n"
            f'<FieldData>\n<DataArray type="Float64" Name="Time" NumberOfTuples="1" format="ascii">\n{num(time)}\n</DataArray>\n</FieldData>\n</UnstructuredGrid>\n</VTKFile>\n')


TEXT = {".prof": prof_text, ".csv": csv_text, ".vtu": vtu_text}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())


def tank(nx, ny, l=0.1, walls=2, dummies=2, z=0.0, vel=None, empty=2):
    """A block of fluid nx x ny in an open tank: rows [type, x, y, z, vx, vy, vz]."""
    t, ps = walls + dummies, []
    for ix in range(-t, nx + t):
        for iy in range(-t, ny + empty):
            out = max(-ix, ix - nx + 1, -iy)
            if out <= 0 and iy >= ny: continue
            ps.append([1 if out <= 0 else 2 if out <= walls else 3, ix * l, iy * l, z] + (vel(ix, iy) if vel and out <= 0 else [0, 0, 0]))
    return ps


def problem(rng, big=False):
    """A random small but realistic problem: settings and particles. The settings box contains everything."""
    s = dict(BASE)
    l = rng.choice([0.1, 0.025, 0.012, 0.5])
    nx, ny = rng.randint(3, 9 if big else 6), rng.randint(2, 9 if big else 6)
    dt = rng.choice([1 / 1024, 0.001, 0.0005]) * (l / 0.1) ** 0.5
    u = 0.1 * l / dt
    ps = tank(nx, ny, l, rng.randint(1, 2), rng.randint(0, 2), vel=lambda ix, iy: [rng.uniform(-u, u) * 0.3, rng.uniform(-u, u) * 0.3, 0.0])
    if rng.random() < 0.3:
        for p in ps:
            if p[0] == 1: p[1] += rng.uniform(-.1, .1) * l; p[2] += rng.uniform(-.1, .1) * l
    if rng.random() < 0.3: rng.shuffle(ps)
    solid = rng.random() < 0.12
    if solid: # three dimensions
        nx, ny = rng.randint(2, 4), rng.randint(3, 5)
        ps = [[1 if y > 1 else 2 if y else 3, x * l, y * l, z * l] + ([rng.uniform(-u, u) * 0.3 for _ in range(3)] if y > 1 else [0.0, 0.0, 0.0]) for x in range(nx) for y in range(ny) for z in range(rng.randint(2, 4))]
    explicit = rng.random() < 0.4
    s.update({"particleDistance": l, "dt": dt, "pressureCalculationMethod": "Explicit" if explicit else "Implicit", "soundSpeed": 0.2 * l / dt,
              "domainMin": [-8 * l, -8 * l, 0.0], "domainMax": [(nx + 8) * l, (ny + 12) * l, 0.0], "outputVtkInBinary": rng.random() < 0.5,
              "surfaceDetection-particleDistribution": rng.random() < 0.5, "outputPeriod": dt * rng.choice([1, 2, 3]), "endTime": dt * rng.randint(4, 9)})
    if solid:
        s.update({"dim": 3, "radiusRatioForNumberDensity": 2.1, "radiusRatioForLaplacian": 2.1})
        s["domainMin"][2], s["domainMax"][2] = -8 * l, 12 * l
    return s, ps


def apart(n, l=0.1):
    """n particles without neighbours, and the settings that contain them."""
    side = int(n ** 0.5) + 1
    ps = [[1 + k % 2, 4 * l * (k % side), 4 * l * (k // side), 0.0, 0.0, 0.0, 0.0] for k in range(n)]
    s = dict(BASE)
    s.update({"particleDistance": l, "domainMin": [-l, -l, 0.0], "domainMax": [4 * l * side + l, 4 * l * side + l, 0.0], "endTime": 0.002, "outputPeriod": 0.002})
    return s, ps


def odd_name(rng):
    """A name (possibly of several components) that a shell, a format string, a fixed buffer or a parser could stumble over."""
    return rng.choice(["two words", " leading", "100%s%s%s%s%n%n%d", "Gr\u00f6\u00dfe \u65e5\u672c\u8a9e", "it's", 'a"b"c', "$HOME `id` ;#", "back\\slash", "-s", "--output", "~", "a:b=c", "[1]*?", "x" * 100, "y" * 235, "/".join(["deep" * 40] * rng.randint(2, 12)), "prof", "output_0000.csv", "...", "a,b"])


def setup(d, s, ps, ext=".prof", time=0.0, name="settings.yml", rng=None):
    """Writes settings and particles below d, makes an output directory; returns the settings path and the output directory. With rng some names are odd."""
    part, out = "p", "out"
    if rng and rng.random() < 0.3: part = odd_name(rng).split("/")[0]
    if rng and rng.random() < 0.3: out = "out/" + odd_name(rng)
    if rng and rng.random() < 0.2: name = odd_name(rng).split("/")[0] + ".yml"
    s = dict(s, particlesPath="./p" + ext if part == "p" else json.dumps("./" + part + ext, ensure_ascii=False))
    write(os.path.join(d, name), yaml_text(s))
    write(os.path.join(d, part + ext), TEXT[ext](time, ps))
    os.makedirs(os.path.join(d, out), exist_ok=True)
    return os.path.join(d, name), os.path.join(d, out)


def mps(c, exe, setting, out, **kw): return c.run([exe, "-s", setting, "-o", out], **kw)


def read(path):
    with open(path, "rb") as f: return f.read()


def tree(d):
    """Relative path -> contents of every file below d (directories map to None)."""
    r = {}
    for base, dirs, files in os.walk(d):
        for x in dirs: r[os.path.relpath(os.path.join(base, x), d)] = None
        for x in files:
            p = os.path.join(base, x)
            r[os.path.relpath(p, d)] = read(p) if not os.path.islink(p) else b"-> " + os.readlink(p).encode()
    return r


def outputs(d):
    """Set number -> {'prof', 'vtu', 'csv'} present."""
    r = {}
    for k in ("prof", "vtu", "csv"):
        try: names = os.listdir(os.path.join(d, k))
        except OSError: continue
        for n in names:
            m = re.fullmatch(r"output_(\d{4,})\." + k, n)
            if m: r.setdefault(int(m.group(1)), set()).add(k)
            else: r.setdefault(n, set()).add(k)
    return r


def set_path(d, kind, k): return os.path.join(d, kind, "output_%04d.%s" % (k, kind))


def read_prof(path):
    lines = read(path).decode().split("\n")
    n = int(lines[1])
    assert lines[-1] == "" and len(lines) == n + 3, "number of lines"
    rows = []
    for l in lines[2:-1]:
        f = l.split(" ")
        assert len(f) == 7, l
        rows.append([int(f[0])] + [float(x) for x in f[1:]])
    return float(lines[0]), rows


def read_csv(path):
    lines = read(path).decode().split("\n")
    n = int(lines[1])
    cols = lines[2].split(",")
    assert lines[-1] == "" and len(lines) == n + 4, "number of lines"
    rows = []
    for l in lines[3:-1]:
        f = dict(zip(cols, l.split(",")))
        assert len(f) == len(cols), l
        rows.append([int(f["type"])] + [float(f[k]) for k in ("x", "y", "z", "vx", "vy", "vz")] + [int(f["fluidType"])])
    return float(lines[0]), rows


def read_vtu(path):
    """Name -> list of values (or of tuples) of a VTU file written by the program, ASCII or raw appended."""
    t = read(path)
    a = t.find(b"<AppendedData")
    head = (t if a < 0 else t[:a]).decode()
    base = t.find(b"_", a) + 1 if a >= 0 else 0
    assert t.rstrip().endswith(b"</VTKFile>"), "not complete"
    try: xml.parsers.expat.ParserCreate().Parse(head if a < 0 else head + "</VTKFile>", True)
    except xml.parsers.expat.ExpatError as e: assert False, f"not well formed: {e}"
    r = {"n": int(re.search(r'NumberOfPoints="(\d+)"', head).group(1))}
    for m in re.finditer(r'<DataArray ([^>]*?)/?>([^<]*)', head):
        at = dict(re.findall(r'(\w+)="([^"]*)"', m.group(1)))
        comps = int(at.get("NumberOfComponents", 1))
        if at["format"] == "appended":
            off = base + int(at["offset"])
            (ln,) = struct.unpack_from("<Q", t, off)
            code, sz = {"Float64": ("d", 8), "Int32": ("i", 4), "Int64": ("q", 8), "UInt8": ("B", 1)}[at["type"]]
            assert off + 8 + ln <= len(t), "array beyond the end"
            v = list(struct.unpack_from(f"<{ln // sz}{code}", t, off + 8))
        else:
            v = [float(x) for x in m.group(2).split()]
            if at["type"].startswith(("Int", "UInt")): v = [int(x) for x in v]
        if comps > 1: v = [tuple(v[k:k + comps]) for k in range(0, len(v), comps)]
        r[at["Name"]] = v
    r["binary"] = a >= 0
    return r


def six(printed, v):
    """printed states v to six significant digits."""
    return printed == v or abs(printed - v) <= 0.5001e-5 * abs(v) or (v != v and printed != printed)
