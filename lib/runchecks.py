"""Checks of whole program runs: repeatability, settings, archived inputs, rejected inputs, hostile inputs."""
import json, os, random, re, shutil, subprocess
import cli
from core import pool_map


# ---------------------------------------------------------------- P13
def p13(c):
    c.build("drv_step", "mps_plain", "mps_fill0", "mps_fill1", "watch")
    loc = os.path.join(c.scratch, "locales")
    os.makedirs(loc)
    german = subprocess.run(["localedef", "-f", "UTF-8", "-i", "de_DE", "--no-archive", os.path.join(loc, "de_DE.UTF-8")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    if german: c.count("a locale with decimal commas was made")
    c.rule = ("Generated problems are run to a random step and continued both in place and in a fresh simulation made from the full-precision state (see P05 for the problems). Whole runs of generated problems are repeated with different heap poison, environment size, "
              "working directory, directory names, relative and absolute paths, date and time (a preloaded clock that jumps), locale (German, with decimal commas, and an unknown one), time zone, thread count, priority, file mask and an empty environment, with every environment variable the program asks for set to something else, and by builds in which uninitialised locals hold zeros or a pattern; all files saved are compared byte by byte. Non-trivial: at least one particle.")
    c.assumptions = ["a restarted run may differ by rounding (1e-11 relative, growing 100-fold per step)"]
    c.driver("drv_step", c.n(4000, 120000))

    def one(k):
        rng = random.Random(c.seed * 4099 + k)
        s, ps = cli.problem(rng, big=True)
        s["endTime"] = s["dt"] * rng.randint(3, 12)
        d = c.dir(f"r{k}")
        ext = rng.choice([".prof", ".csv", ".vtu"])
        ref = None
        asked = os.path.join(d, "asked")
        os.makedirs(d, exist_ok=True)
        runs = [("plain", {"MALLOC_PERTURB_": "0", "LD_PRELOAD": c.bins["watch"], "WATCH_ENV": asked}), ("plain", {"MALLOC_PERTURB_": "165"}), ("plain", {"MALLOC_PERTURB_": "90", "MALLOC_TOP_PAD_": "1000000", "PADDING": "x" * rng.randint(1, 60000)}),
                ("plain", {"MALLOC_ARENA_MAX": "1", "MALLOC_MMAP_THRESHOLD_": "4096", "MALLOC_PERTURB_": "255"}), ("fill0", {}), ("fill1", {"MALLOC_PERTURB_": "7"}),
                ("plain", {"LD_PRELOAD": c.bins["watch"], "WATCH_CLOCK": str(rng.randrange(1 << 40)), "TZ": "Pacific/Auckland"}),
                ("plain", {"LOCPATH": loc, "LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8"}), ("plain", {"LC_ALL": "xx_YY.ISO-8859-1", "HOME": "/nonexistent", "TMPDIR": "/nonexistent", "OMP_NUM_THREADS": "3", "COLUMNS": "7", "TERM": "dumb"}), ("plain", "asked"), ("plain", "bare")]
        names = 0
        for n, (b, env) in enumerate(runs):
            # the directories' names differ in length too
            e = os.path.join(d, f"{n}" + "x" * (0 if n < 6 else rng.randint(0, 100)))
            st, out = cli.setup(e, s, ps, ext, 0.5 if k % 3 == 0 else 0.0)
            exe, pre = c.bins["mps_" + b], None
            if env == "asked": # every variable that was asked for is set to something
                q = {x for x in open(asked).read().split("\n") if x and "=" not in x and not x.startswith(("LD_", "MALLOC_", "GLIBC_TUNABLES", "GCONV_PATH", "LOCPATH", "NLSPATH", "ASAN_", "UBSAN_"))} if os.path.exists(asked) else set()
                names = len(q)
                env = {x: rng.choice(["1", "0", "true", "off", "/nonexistent", "xyz", "100"]) for x in q}
            if env == "bare": # nothing in the environment, no standard input, other mask, priority and descriptors
                exe, env = [], {}
                cmd = ["env", "-i", "bash", "-c", 'umask 077; ulimit -s 65536; exec 5<"$1" 6>/dev/null 0<&-; t=; taskset -c 0 true 2>/dev/null && t="taskset -c 0"; exec nice -n 5 $t "$0" -s "$1" -o "$2"', c.bins["mps_" + b], st, out]
            elif n % 2: cmd = [exe, "-s", "settings.yml", "-o", "out"]
            else: cmd = [exe, "--setting", st, "--output", out]
            r = c.run(cmd, cwd=e if n % 2 else d, env=env)
            t = cli.tree(out)
            courant = [x.split(b"Courant=")[-1] for x in r.out.split(b"\n") if b"Courant=" in x]
            got = (r.rc, t, courant, r.err)
            if ref is None: ref = got
            what = f"{b} build, {' '.join(sorted(env)) if env else 'bare' if not exe else ''}"
            if got[0] != ref[0]: return (f"status {ref[0]} became {got[0]} ({what})", k)
            if got[1] != ref[1]:
                f = sorted(x for x in set(got[1]) | set(ref[1]) if got[1].get(x, 0) != ref[1].get(x, 0))[0]
                return (f"file {f} differs between two runs on the same input ({what})", k)
            if got[2] != ref[2] or got[3] != ref[3]: return (f"reported Courant numbers or errors differ between two runs on the same input ({what})", k)
        files = sum(1 for v in ref[1].values() if v is not None)
        shutil.rmtree(d)
        return (None, k, files, ref[0], len(runs))
    for r in pool_map(one, range(c.n(24, 400))):
        if r[0]: c.violation("repeat " + r[0], f"run {r[1]}: {r[0]}", dict(kind="repeat", case=r[1], seed=c.seed))
        else:
            c.case(("repeat", r[1])); c.count("files compared over repeated runs", r[2] * (r[4] - 1)); c.count("repeated runs", r[4])
    return ["restarted steps compared", "files compared over repeated runs"]


CHECKS = {"P13": (p13, "exploration")}


# ---------------------------------------------------------------- P20
def p20(c):
    c.build("drv_step", "mps_plain")
    c.rule = ("Settings files with random values, key order, number and truth-value notation, comments, flow or block lists, optional keys present or absent, relative, absolute and unnormalised particle paths, with a decoy file where the path would lead from the working directory. "
              "The loaded settings are compared field by field, then steps of the simulation made from them are judged by the models of P05 to P12 with the values of the file. Whole runs: encoding, schedule and method actually used. Non-trivial: a file was loaded.")
    c.assumptions = ["the simulation sees the settings only through the Settings object the loader returns, which the whole-run part checks for end time, period, encoding and method"]
    c.driver("drv_step", c.n(2500, 60000))

    def one(k):
        rng = random.Random(c.seed * 6007 + k)
        s, ps = cli.problem(rng)
        s["dt"], n, m = 1 / 1024, rng.randint(0, 12), rng.randint(1, 4)
        for p in ps: p[4:7] = [x * 0.1 for x in p[4:7]]
        s["endTime"], s["outputPeriod"] = n / 1024, m / 1024
        s["kinematicViscosity"] = 0.0
        start = rng.choice([0.0, -5 / 1024, 3 / 1024])
        binary = rng.choice([True, False, None])
        if binary is None: del s["outputVtkInBinary"]
        else: s["outputVtkInBinary"] = binary
        keys = list(s)
        rng.shuffle(keys)
        s = {q: s[q] for q in keys}
        d = c.dir(f"s{k}")
        sub = rng.choice(["", "deep/er", "with space"])
        pdir = rng.choice([".", "..", "parts", "../parts"])
        name, ext = rng.choice(["set.yml", "my settings.yaml", "conf"]), rng.choice([".prof", ".csv", ".vtu"])
        sd = os.path.join(d, "in", sub)
        rel = os.path.join(pdir, "tank" + ext)
        real = os.path.normpath(os.path.join(sd, rel))
        cli.write(real, cli.TEXT[ext](start, ps))
        cli.write(os.path.join(sd, name), cli.yaml_text(dict(s, particlesPath='"' + (real if rng.random() < 0.2 else rel) + '"')))
        out = os.path.join(d, "out put")
        os.makedirs(out)
        cwd = os.path.join(d, "somewhere")
        decoy = os.path.normpath(os.path.join(cwd, rel))
        os.makedirs(cwd)
        if not os.path.exists(decoy): cli.write(decoy, cli.TEXT[ext](start + 1, ps[:1]))
        sp = os.path.join(sd, name)
        if rng.random() < 0.5: sp = os.path.relpath(sp, cwd)
        op = out if rng.random() < 0.5 else os.path.relpath(out, cwd)
        r = c.run([c.bins["mps_plain"]] + (["-s", sp, "-o", op] if rng.random() < 0.5 else ["--output", op, "--setting", sp]), cwd=cwd)
        if r.rc != 0:
            shutil.rmtree(d)
            return ("gave up", k) if os.path.isdir(os.path.join(out, "prof")) else (f"a valid settings file was rejected: {r.err.decode()[-200:]}", k)
        o = cli.outputs(out)
        nstart = round(start * 1024)
        # output only at multiples of the period, see P16
        want = 1 + max(0, (n - nstart) // m) if n > nstart else 1
        msg = None
        if len(o) != want: msg = f"{len(o)} sets for start {start!r}, end {s['endTime']!r}, period {s['outputPeriod']!r}, dt 1/1024; {want} are due"
        for q in o:
            if msg: break
            v = cli.read_vtu(cli.set_path(out, "vtu", q))
            if v["binary"] != bool(binary): msg = f"VTU files are {'binary' if v['binary'] else 'ASCII'}, outputVtkInBinary is {binary}"
            elif v["n"] != len(ps) or (q == 0 and not cli.six(v["Time"][0], start)): msg = "another particle file was simulated"
        shutil.rmtree(d)
        return (msg, k, len(o))
    for r in pool_map(one, range(c.n(40, 800))):
        if r[0] == "gave up": c.count("runs given up by the solver")
        elif r[0]: c.violation("settings " + r[0], f"run {r[1]}: {r[0]}", dict(kind="settings", case=r[1], seed=c.seed))
        else: c.case(("settings", r[1])); c.count("whole runs compared")
    return ["settings files compared", "xyz gravity", "norm and angle gravity", "files without xyz-input", "files without outputVtkInBinary", "number density radius largest", "laplacian radius largest", "gradient radius largest",
            "implicit steps with loaded settings", "explicit steps with loaded settings", "absolute particle paths", "whole runs compared"]


CHECKS["P20"] = (p20, "exploration")


# ---------------------------------------------------------------- P21
def p21(c):
    c.build("mps_plain", "faultrun")
    c.rule = ("Whole runs with settings and particle files of generated contents (comments, UTF-8 and other bytes, CRLF, no final newline, up to some 100 kB, permissions), names (spaces, several dots, leading dots) and places (same or different directories, `..`, absolute, symbolic links, "
              "output directory inside or equal to the input directory), into output directories that are empty, hold other files, earlier results, or something of one of the two names (file, empty file, directory, symbolic link). Directory trees are compared before and after. A second run on the same output directory is let in at every system call of a run that archives its inputs, and at some of the later ones (supervisor of system calls): at most one of the two may simulate, and all files must be those of one of the two alone. Non-trivial: always.")
    c.assumptions = ["a name already taken by a dangling symbolic link is not judged beyond failing or writing nothing into existing files"]
    def one(k):
        rng = random.Random(c.seed * 5003 + k)
        s, ps = cli.problem(rng)
        s["endTime"] = s["dt"] * rng.choice([0, 1, 2])
        s["kinematicViscosity"] = 1e-6
        ext = rng.choice([".prof", ".csv", ".vtu"])
        d = c.dir(f"a{k}")
        try:
            sname = rng.choice(["settings.yml", "s.yaml", "my settings.yml", "a.b.c.yml", ".hidden", "noext", "input", cli.odd_name(rng).split("/")[0] + ".yml"])
            pname = rng.choice(["input", "p q", "x.y.z", ".p", "input.old", cli.odd_name(rng).split("/")[0]]) + ext
            sd = os.path.join(d, "in", rng.choice(["", "x", "x/y z"]))
            pdir = rng.choice([".", "..", "parts", "../o t h e r", "."])
            rel = os.path.join(pdir, pname)
            preal = os.path.normpath(os.path.join(sd, rel))
            text = cli.TEXT[ext](0.0, ps)
            body = cli.yaml_text(dict(s, particlesPath=json.dumps(preal if rng.random() < 0.2 else rel, ensure_ascii=False)))
            extra = rng.choice(["", "# Größe 日本語 \u2028\n", "# trailing blanks   \t\n", "#" + "x" * rng.randint(1, 70000) + "\n", "\n\n\n# end without newline"])
            body = rng.choice([extra.rstrip("\n") + "\n" + body, body + extra]).encode()
            if rng.random() < 0.25: body = body.rstrip(b"\n")
            if ext == ".prof" and rng.random() < 0.5: text += "trailing text is not read\n" * rng.randint(1, 3000)
            if ext == ".csv" and rng.random() < 0.4: text = text.replace("\n", "\r\n")
            sp = os.path.join(sd, sname)
            cli.write(sp, body)
            cli.write(preal, text)
            linked = ""
            for f in (sp, preal): # given by way of a symbolic link
                if rng.random() < (0.15 if f == preal else 0.6 if preal.encode() in body else 0):
                    t = os.path.join(os.path.dirname(f), "store", os.path.basename(f))
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    os.rename(f, t)
                    os.symlink(os.path.relpath(t, os.path.dirname(f)) if rng.random() < 0.5 else t, f)
                    linked = " through symbolic links"
            out = os.path.join(d, rng.choice(["out", "out put", "o/p/q", "o/" + cli.odd_name(rng)]))
            same = rng.random() < 0.08 # the output directory is the input directory: the names are taken
            if same: out = rng.choice([sd, os.path.dirname(preal)])
            os.makedirs(out, exist_ok=True)
            # earlier contents
            prior = "input directory" if same else rng.choice(["empty", "other files", "earlier results", "settings", "particles", "both", "settings as directory", "particles as directory", "settings linked", "particles empty", "settings identical", "particles identical"])
            if prior in ("other files", "earlier results") or (not same and rng.random() < 0.3):
                cli.write(os.path.join(out, "notes.txt"), "keep me")
                cli.write(os.path.join(out, "sub", "x.prof"), "keep me too")
            if prior == "earlier results":
                for kind in ("prof", "csv", "vtu"): cli.write(os.path.join(out, kind, f"output_0007.{kind}"), "old result")
            if prior in ("settings", "both"): cli.write(os.path.join(out, sname), "old settings")
            if prior in ("particles", "both"): cli.write(os.path.join(out, pname), "old particles" * rng.choice([1, 1000]))
            if prior == "settings identical": cli.write(os.path.join(out, sname), body)
            if prior == "particles identical": cli.write(os.path.join(out, pname), text)
            if prior == "particles empty": cli.write(os.path.join(out, pname), "")
            if prior == "settings as directory": os.makedirs(os.path.join(out, sname))
            if prior == "particles as directory": os.makedirs(os.path.join(out, pname))
            if prior == "settings linked":
                cli.write(os.path.join(d, "target"), "linked")
                os.symlink(os.path.join(d, "target"), os.path.join(out, sname))
            taken = same or prior not in ("empty", "other files", "earlier results")
            if same: taken = os.path.exists(os.path.join(out, sname)) or os.path.exists(os.path.join(out, pname))
            if rng.random() < 0.3: os.chmod(sp, 0o444); os.chmod(preal, 0o444)
            cwd = os.path.join(d, "cwd")
            os.makedirs(cwd, exist_ok=True)
            before = cli.tree(d)
            a, b = (os.path.relpath(sp, cwd), os.path.relpath(out, cwd)) if rng.random() < 0.5 else (sp, out)
            if rng.random() < 0.2: b += "/"
            r = c.run([c.bins["mps_plain"], "-s", a, "-o", b], cwd=cwd)
            after = cli.tree(d)
            rel_out = os.path.relpath(out, d)
            what = f"settings {os.path.relpath(sp, d)!r}, particles {os.path.relpath(preal, d)!r}, output {rel_out!r} ({prior})"
            # what was there before must be there unchanged, other than older results of the same set numbers
            for f, v in before.items():
                if after.get(f, 0) != v: return (f"{f} was there before the run and {'is gone' if f not in after else 'was changed'} ({what})", k)
            new = sorted(f for f in after if f not in before)
            results = [f for f in new if re.search(r"output_\d+\.(prof|csv|vtu)$", f)]
            if taken:
                if r.rc == 0 or r.rc is None: return (f"status {r.rc} although a name is taken ({what})", k)
                if results: return (f"results {results[:2]} were saved although a name is taken ({what})", k)
                return (None, k, "refused: " + prior)
            gave_up = r.rc != 0
            if gave_up and not results: return (f"status {r.rc}: {r.err.decode('utf-8', 'replace')[-200:]} ({what})", k)
            for name, v in ((sname, body), (pname, text.encode())):
                f = os.path.normpath(os.path.join(rel_out, name))
                if f not in after: return (f"no copy of {name} in the output directory ({what})", k)
                if after[f] != v: return (f"the copy of {name} differs from the original ({what})", k)
            rest = [f for f in new if f not in results and os.path.basename(f) not in (sname, pname, "prof", "csv", "vtu")]
            if rest: return (f"unexpected new files {rest[:3]} ({what})", k)
            return (None, k, "archived into: " + prior + linked)
        finally: shutil.rmtree(d)
    for r in pool_map(one, range(c.n(1000, 20000))):
        if r[0]: c.violation("archive " + r[0], r[0], dict(kind="archive", case=r[1], seed=c.seed))
        else: c.case(("archive", r[1]), sample=r[2]); c.count("runs " + r[2])

    def race(k):
        rng = random.Random(c.seed * 5009 + k)
        s, ps = cli.problem(rng)
        # big enough that the calls that archive are not all, small enough to be quick
        s["endTime"] = s["dt"] * 2
        s["kinematicViscosity"] = 1e-6
        s["pressureCalculationMethod"] = "Explicit"
        d = c.dir(f"q{k}")
        try:
            sides = []
            shared = rng.choice(["both", "settings", "particles"]) # the names the two runs have in common
            for q in range(2):
                e, ext = os.path.join(d, "ab"[q]), ".prof"
                # the second one differs in everything but the names
                t = s if q == 0 else dict(s, gravity=[1.0, -2.0, 0.0], defaultDensity=900.0, endTime=s["dt"] * 3)
                r = ps if q == 0 else ps[:-1]
                sn, pn = "settings.yml" if q == 0 or shared != "particles" else "other.yml", "p" if q == 0 or shared != "settings" else "other"
                cli.write(os.path.join(e, pn + ext), cli.prof_text(0.0, r))
                cli.write(os.path.join(e, sn), cli.yaml_text(dict(t, particlesPath="./" + pn + ext)))
                alone = os.path.join(d, "alone" + "ab"[q])
                os.makedirs(alone)
                got = c.run([c.bins["mps_plain"], "-s", os.path.join(e, sn), "-o", alone])
                if got.rc: return (None, k, "problems given up", 0)
                sides.append((os.path.join(e, sn), cli.tree(alone), {sn, pn + ext}))
            log = os.path.join(d, "log")
            out0 = os.path.join(d, "r0")
            os.makedirs(out0)
            go = lambda out, op, effect: c.run([c.bins["faultrun"], out, log, str(op), effect, c.bins["mps_plain"], "-s", sides[0][0], "-o", out], timeout=60)
            r = go(out0, 0, "none")
            ops = [l.split(" ", 3) for l in open(log, errors="replace") if l[:1].isdigit()]
            paths = [o[3].rstrip("\n") for o in ops]
            first = next((q for q, o in enumerate(paths) if os.path.relpath(o, out0).startswith(("prof", "vtu", "csv"))), len(ops))
            points = list(range(1, first + 2)) + rng.sample(range(first + 2, len(ops) + 1), min(3, max(0, len(ops) - first - 2)))
            seen = 0
            for op in points:
                out = os.path.join(d, f"o{op}")
                os.makedirs(out)
                r = go(out, op, f"run:'{c.bins['mps_plain']}' -s '{sides[1][0]}' -o '{out}' >'{d}/b.out' 2>'{d}/b.err'")
                if r.rc in (100, 101, 102): return (f"faultrun failed {r.err[-300:]}", k, "", 0)
                m = re.search(r"^rival (\d+)$", open(log, errors="replace").read(), re.M)
                if not m: continue
                rival, tree = int(m.group(1)), cli.tree(out)
                where = f"a second run with the same {shared if shared != 'both' else 'names'} started at call {op} ({ops[op - 1][1]} {os.path.relpath(paths[op - 1], out0)}) of a run; status {r.rc} and {rival}"
                if r.rc == 0 and rival == 0: return (f"both simulated: {where}", k, where, 0)
                # what is there is what one of them writes alone, besides an archived file of the one that was refused
                won = 0 if r.rc == 0 else 1
                if r.rc != 0 and rival != 0: seen += 1; continue
                lost = sides[1 - won]
                for f, v in sides[won][1].items():
                    if tree.get(f, 0) != v: return (f"{f} is {'missing' if f not in tree else 'not that of the run that succeeded'}: {where}", k, where, 0)
                rest = [f for f in tree if f not in sides[won][1] and not (f in lost[2] and tree[f] in (lost[1][f], b""))]
                if rest: return (f"{rest[:3]} was left by the run that failed: {where}", k, where, 0)
                seen += 1
                c.count("second runs refused" if won == 0 else "second runs that were first")
            return (None, k, f"{seen} second runs let in", seen)
        finally: shutil.rmtree(d)
    for r in pool_map(race, range(c.n(24, 400))):
        if r[0]: c.violation("race " + r[0], r[0], dict(kind="race", case=r[1], seed=c.seed))
        else: c.case(("race", r[1]), r[3] > 0, r[2]); c.count("second runs let in", r[3])
    return ["second runs let in", "second runs refused", "second runs that were first", "runs archived into: empty", "runs archived into: empty through symbolic links", "runs archived into: other files", "runs archived into: earlier results", "runs refused: settings", "runs refused: particles", "runs refused: both", "runs refused: settings as directory",
            "runs refused: particles as directory", "runs refused: settings linked", "runs refused: particles identical", "runs refused: settings identical", "runs refused: particles empty", "runs refused: input directory"]


CHECKS["P21"] = (p21, "exploration")


# ---------------------------------------------------------------- P22
def bad_values(good):
    """Values of the wrong type for a required setting (none that reads as a number or truth value)."""
    words = ["abc", "1.0x", "--1", "1,5", '"two words"', "[1.0, 2.0, 3.0, 4.0]", "{a: 1}", "", "~", "0.1 0.2", "1e", "$x", "-"]
    if isinstance(good, list):
        v = [cli.num(x) for x in good]
        wrong = [", ".join(w if q == k else v[q] for q in range(3)) for k in range(3) for w in ("abc", "x1", "[1]", "~", "")]
        return [cli.num(good[0] + 0.5), "", "abc", "[]", "{x: 1.0, y: 2.0}", "{0: 1.0, 1: 2.0}"] + ["[" + ", ".join(v[:k]) + "]" for k in (1, 2)] + [f"[{w}]" for w in wrong if not w.startswith(",")]
    if isinstance(good, bool): return ["maybe", "1", "0", "2.5", "[true]", "", "{a: true}", "truee"]
    if isinstance(good, int): return words + ["2.5", "true", "99999999999999"]
    if isinstance(good, float): return words + ["true"]
    return ["[a, b]", "{a: b}"]


def spoil(rng, ext, text, n):
    """A truncated or malformed version of a particle file, and what was done; n >= 1 particles."""
    L = text.split("\n")
    junk = lambda: rng.choice(["abc", "x", "--1", "..5", "#", "(1)", "+-2", "?", "NULL"])
    # numbers that begin well: what is left of them must not be dropped or taken for the next value
    bad = lambda: junk() if rng.random() < 0.6 else rng.choice(["1.2.3", "1-2", "0x1", "2;", "1,5", "3..", "1/2", "2abc", "1_0", "0.5.5"])
    if ext == ".prof":
        how = rng.choice(["empty", "time only", "rows", "tokens", "junk", "junk", "junk time", "junk count", "no count", "more", "extra field", "negative count"])
        if how == "empty": return rng.choice(["", "\n", "   \n\n"]), how
        if how == "time only": return L[0] + "\n", how
        if how == "rows":
            k = rng.randrange(n)
            return "\n".join(L[:2 + k]) + "\n", f"{n} rows declared, {k} given"
        if how == "tokens":
            k, q = rng.randrange(n), rng.randint(1, 6)
            return "\n".join(L[:2 + k] + [" ".join(L[2 + k].split()[:q])]) + rng.choice(["\n", ""]), f"cut after {q} fields of row {k}"
        if how == "junk":
            k, q = rng.randrange(n), rng.randrange(7)
            f = L[2 + k].split(); f[q] = bad() if rng.random() < 0.9 or q else rng.choice(["1.5", "2.0", "1e0"]); L[2 + k] = " ".join(f)
            return "\n".join(L), f"{f[q]} as field {q} of row {k}"
        if how == "junk time": return "\n".join([junk()] + L[1:]), how
        if how == "junk count": return "\n".join([L[0], junk()] + L[2:]), how
        if how == "no count": return "\n".join([L[0]] + ["a " + x for x in L[2:]]), how
        if how == "negative count": return "\n".join([L[0], str(-rng.choice([1, n, 1000]))] + L[2:]), how
        if how == "extra field":
            k, q = rng.randrange(n), rng.randint(0, 7)
            f = L[2 + k].split(); f.insert(q, rng.choice(["0", "1", "0.5", "-1e-3", "1000"])); L[2 + k] = " ".join(f)
            return "\n".join(L), how + f" in row {k}"
        return "\n".join([L[0], str(n + rng.choice([1, 2, 1000, 2000000000]))] + L[2:]), "more rows declared than given"
    if ext == ".csv":
        how = rng.choice(["empty", "time only", "no header", "rows", "fields", "junk", "junk time", "junk count", "column", "column", "more", "extra field"])
        cols = L[2].split(",")
        if how == "empty": return "", how
        if how == "time only": return L[0] + "\n", how
        if how == "no header": return "\n".join(L[:2] + L[3:]), how
        if how == "rows":
            k = rng.randrange(n)
            return "\n".join(L[:3 + k]) + "\n", f"{n} rows declared, {k} given"
        if how == "fields":
            k, q = rng.randrange(n), rng.randint(1, len(cols) - 1)
            return "\n".join(L[:3 + k] + [",".join(L[3 + k].split(",")[:q])]) + rng.choice(["\n", ""]), f"cut after {q} fields of row {k}"
        if how == "junk":
            k, q = rng.randrange(n), rng.randrange(len(cols))
            f = L[3 + k].split(","); f[q] = rng.choice(["abc", "x", "--1", "#", "(1)", "?", "NULL", "1.2.3", "1 2", "0x10"]); L[3 + k] = ",".join(f)
            return "\n".join(L), f"{f[q]} as {cols[q]} of row {k}"
        if how == "junk time": return "\n".join([junk()] + L[1:]), how
        if how == "junk count": return "\n".join([L[0], rng.choice(["abc", "x", "--1", "#", "?"])] + L[2:]), how
        if how == "column":
            q = rng.choice([i for i in range(len(cols)) if cols[i] not in ("fluidType", "density")])
            if rng.random() < 0.3: L[2] = ",".join(x if i != q else x.upper() + "_" for i, x in enumerate(cols))
            else: L = L[:2] + [",".join(x for i, x in enumerate(l.split(",")) if i != q) if l else l for l in L[2:]]
            return "\n".join(L), f"column {cols[q]} missing"
        if how == "more": return "\n".join([L[0], str(n + rng.choice([1, 2, 1000000]))] + L[2:]), "more rows declared than given"
        k = rng.randrange(n)
        L[3 + k] += ",0"
        return "\n".join(L), how + f" in row {k}"
    how = rng.choice(["empty", "cut", "cut", "cut", "junk", "junk", "row", "row", "extra", "extra", "extra value", "points", "appended", "time"])
    if how == "empty": return "", how
    if how == "cut":
        k = rng.randrange(len(text[:text.rindex("</VTKFile>")]) + 9)
        return text[:k], f"cut after {k} of {len(text)} bytes"
    arrays = [(m.start(1), m.end(1), m.group(0)[:60]) for m in re.finditer(r'Name="(?:Position|Velocity|Particle Type|Fluid Type|Density)"[^>]*>\n([^<]*)', text)]
    a, b, name = rng.choice(arrays)
    rows = text[a:b].split("\n")[:-1]
    k = rng.randrange(len(rows))
    if how == "junk":
        f = rows[k].split(); q = rng.randrange(len(f)); f[q] = bad(); rows[k] = " ".join(f)
        return text[:a] + "\n".join(rows) + "\n" + text[b:], f"{f[q]} in row {k} of {name}"
    if how == "extra value":
        rows[k] += rng.choice([" 0", " 1", " 0.5", "\t-1e3"])
        return text[:a] + "\n".join(rows) + "\n" + text[b:], how + f" in row {k} of {name}"
    if how == "extra":
        f = rows[k].split(); q = rng.randrange(len(f)); f[q] = junk()
        at = rng.choice([0, k, len(rows)]); rows.insert(at, " ".join(f[:rng.randint(q + 1, len(f))]))
        return text[:a] + "\n".join(rows) + "\n" + text[b:], f"extra row {rows[at]} in {name}"
    if how == "row":
        gone = rng.random() < 0.5 and len(rows) > 1
        rows = rows[:k] + rows[k + 1:] if gone else rows[:k] + [rows[k]] + rows[k:]
        return text[:a] + "\n".join(rows) + "\n" + text[b:], f"row {k} of {name} {'missing' if gone else 'twice'}"
    if how == "points": return text.replace(f'NumberOfPoints="{n}"', f'NumberOfPoints="{n + rng.choice([-1, 1, 100])}"'), "wrong NumberOfPoints"
    if how == "appended": return text.replace("</VTKFile>", '<AppendedData encoding="raw">\n_\n</AppendedData>\n</VTKFile>'), "appended data"
    return re.sub(r'(Name="Time"[^>]*>\n)[^\n]*', lambda m: m.group(1) + junk(), text), "junk time"


def p22(c):
    c.build("mps_plain")
    c.rule = ("Real invocations with exactly one fault: each option missing, unknown, without value; settings or output directory absent; each required setting in turn missing or ill-typed; unknown pressure methods; broken YAML; particle files absent, a directory, of an unsupported extension, "
              "or truncated or malformed in a generated way (cut anywhere, junk tokens, missing rows, fields, columns and arrays, wrong counts); binary VTU files saved by the program itself. The same invocations without the fault must run. Non-trivial: always.")
    c.assumptions = ["promptly means within 20 s", "a number cut in the middle is not a detectable fault; a remark after the time or the count is allowed (the documentation shows them) and not tried; an empty CSV field, which the CSV library reads as 0, is not counted as malformed"]
    M = c.bins["mps_plain"]
    plan = []
    for key in cli.REQUIRED:
        plan.append(("missing", key))
        for q in range(max(10, len(bad_values(cli.BASE.get(key, "")))) * c.n(1, 8)): plan.append(("ill-typed", key, q))
    for kind in ("none", "-s only", "-o only", "unknown", "novalue-s", "novalue-o", "positional", "no settings", "no output", "settings is directory", "empty settings", "settings name", "output name", "twice"): plan += [("options", kind)]
    plan += [("method", m) for m in ("implicit", "explicit", "IMPLICIT", "Implicit2", "Semi-Implicit", "Semi", "none", '"Implicit "', '"Explicit\\n"', "1", '""', "Explicit Implicit", "Im", "E")]
    plan += [("yaml", t) for t in ("dim: [2\n", "dim: 2\n  x: 3\n bad\n", "\t- a\n", "just text\n", "- 1\n- 2\n", "{", "dim: 2", "\x00\x01\x02", "%YAML 9\n---\n:", "a: *unknown\n")]
    plan += [("ext", e) for e in (".txt", ".PROF", ".Csv", "", ".prof.bak", ".csv~", ".vtk", ".vtp", ".pro", ".proff", ".gz", ".%s%s%s%s%s%s%s%s", ".%n%n%n%n%n%n", ". x", ".\u00fc", ".csv ", ".p'rof", "." + "z" * 200)]
    plan += [("absent", e) for e in (".prof", ".csv", ".vtu")] + [("absent dir", e) for e in (".prof", ".csv", ".vtu")] + [("directory", e) for e in (".prof", ".csv", ".vtu")]
    plan += [("binary", k) for k in range(3)]
    plan += [("file", e, k) for e in (".prof", ".csv", ".vtu") for k in range(c.n(600, 12000))]
    plan += [("control", e, k) for e in (".prof", ".csv", ".vtu") for k in range(4)]

    def one(a):
        k, f = a
        rng = random.Random(c.seed * 3001 + k)
        s, ps = cli.problem(rng)
        if rng.random() < 0.5: ps = [[1, 0.1 * q, 0.0, 0.0, 0, 0, 0] for q in range(rng.randint(1, 3))] + [[2, -0.5, 0.0, 0.0, 0, 0, 0]]
        elif rng.random() < 0.2: ps = [[1 + q % 2, 0.1 * (q % 15), 0.1 * (q // 15), 0.0, 0, 0, 0] for q in range(rng.randint(110, 200))]
        s["endTime"] = s["dt"] * 2
        ext = rng.choice([".prof", ".csv", ".vtu"])
        d = top = c.dir(f"b{k}")
        try:
            what = " ".join(str(x) for x in f)[:100]
            if f[0] in ("file", "absent", "absent dir", "directory", "control"): ext = f[1]
            if f[0] == "ext": ext = f[1]
            pname = (cli.odd_name(rng).split("/")[0] if f[0] != "ext" and rng.random() < 0.15 else "p") + ext
            if rng.random() < 0.15: d = os.path.join(d, cli.odd_name(rng)); os.makedirs(d)
            base_ext = ext if ext in cli.TEXT else ".prof"
            text = cli.TEXT[base_ext](0.0, ps)
            if f[0] in ("file", "control") and rng.random() < 0.6: # with the optional columns and arrays
                more = [("Int32", "Fluid Type", [str(rng.randint(0, 3)) for _ in ps]), ("Float64", "Density", [cli.num(rng.choice([1000.0, 800.5, 1.25e-3])) for _ in ps])]
                rng.shuffle(more)
                if ext == ".vtu":
                    for t, name, vs in more:
                        array = f'<DataArray type="{t}" Name="{name}" NumberOfComponents="1" format="ascii">\n' + "".join(v + "\n" for v in vs) + "</DataArray>\n"
                        at = rng.choice(["</PointData>", "<PointData>\n"])
                        text = text.replace(at, array + at if at[1] == "/" else at + array)
                elif ext == ".csv":
                    L = text.split("\n")
                    order = rng.sample(range(9), 9)
                    table = [L[2].split(",") + ["fluidType" if m[1] == "Fluid Type" else "density" for m in more]] + [l.split(",") + [m[2][q] for m in more] for q, l in enumerate(L[3:3 + len(ps)])]
                    text = "\n".join(L[:2] + [",".join(row[q] for q in order) for row in table]) + "\n"
            if f[0] == "file":
                text, how = spoil(rng, ext, text, len(ps))
                what = f"{ext} file, {how}"
            vals = {q: cli.num(v) for q, v in dict(s, particlesPath=json.dumps("./" + pname, ensure_ascii=False)).items()}
            if f[0] == "missing": del vals[f[1]]
            if f[0] == "ill-typed":
                wrong = bad_values(s.get(f[1], ""))
                vals[f[1]] = wrong[f[2] % len(wrong)]
                what = f"{f[1]}: {vals[f[1]]}"
            if f[0] == "method": vals["pressureCalculationMethod"] = f[1]
            if f[0] == "absent dir": vals["particlesPath"] = json.dumps("nowhere/" + pname, ensure_ascii=False)
            y = "".join(f"{q}: {v}\n" for q, v in vals.items())
            if f[0] == "yaml": y = f[1]
            st, out = os.path.join(d, "settings.yml"), os.path.join(d, "out")
            cli.write(st, y)
            if f[0] == "directory": os.makedirs(os.path.join(d, pname))
            elif f[0] not in ("absent", "absent dir"): cli.write(os.path.join(d, pname), text)
            os.makedirs(out)
            if f[0] == "binary":
                cli.write(os.path.join(d, "first.yml"), cli.yaml_text(dict(s, particlesPath=json.dumps("./" + pname, ensure_ascii=False), outputVtkInBinary=True, endTime=0.0)))
                os.makedirs(os.path.join(d, "first"))
                r = c.run([M, "-s", os.path.join(d, "first.yml"), "-o", os.path.join(d, "first")])
                if r.rc: return (f"saving a binary file failed: {r.err[-100:]}", k, what)
                vals["particlesPath"] = "first/vtu/output_0000.vtu"
                cli.write(st, "".join(f"{q}: {v}\n" for q, v in vals.items()))
            cmd = [M, "-s", st, "-o", out]
            if f[0] == "options":
                o = f[1]
                if o == "none": cmd = [M]
                if o == "-s only": cmd = [M, "-s", st]
                if o == "-o only": cmd = [M, "-o", out]
                if o == "unknown": cmd += rng.choice([["--frobnicate"], ["-x"], ["--verbose", "1"]])
                if o == "novalue-s": cmd = [M, "-o", out, "-s"]
                if o == "novalue-o": cmd = [M, "-s", st, "-o"]
                if o == "positional": cmd += ["extra"]
                if o == "no settings": cmd = [M, "-s", os.path.join(d, "missing.yml"), "-o", out]
                if o == "no output": cmd = [M, "-s", st, "-o", os.path.join(d, "missing/out")]
                if o == "settings is directory": cmd = [M, "-s", d, "-o", out]
                if o == "empty settings": cli.write(st, "")
                if o == "settings name": cmd = [M, "-s", "", "-o", out]
                if o == "output name": cmd = [M, "-s", st, "-o", ""]
                if o == "twice": cmd = [M, "-s", st, "--settings", st, "-o", out]
            r = c.run(cmd, cwd=d, timeout=20)
            files = [x for x in cli.tree(d) if re.search(r"output_\d+\.(prof|csv|vtu)$", x) and not x.startswith("first/")]
            if f[0] == "control":
                if r.rc != 0 and not files: return (f"a valid {ext} run was rejected: {r.err[-200:]}", k, what)
                return (None, k, what, "controls accepted")
            if r.timeout: return (f"did not end ({what})", k, what)
            if r.rc == 0: return (f"status 0 ({what})", k, what)
            if r.rc in SIGNALS: return (f"{SIGNALS[r.rc]} ({what})", k, what)
            if r.rss > 1 << 20: return (f"{r.rss >> 10} MB of memory were used before it was rejected ({what})", k, what)
            if not r.err.strip(): return (f"no message on standard error, status {r.rc} ({what})", k, what)
            if files: return (f"{files[0]} was saved ({what})", k, what)
            if b"END SIMULATION" in r.out: return (f"the end of a simulation was reported ({what})", k, what)
            return (None, k, what, {"file": f"malformed {ext} files rejected"}.get(f[0], f[0] + " rejected"))
        finally: shutil.rmtree(top)
    for r in pool_map(one, list(enumerate(plan))):
        if r[0]: c.violation(f"rejection: {r[0]}", r[0], dict(kind="rejection", case=r[1], seed=c.seed, what=r[2]))
        else: c.case(("rejection", r[1], r[2]), sample=r[2]); c.count(r[3])
    return ["controls accepted", "missing rejected", "ill-typed rejected", "options rejected", "method rejected", "yaml rejected", "ext rejected", "absent rejected", "directory rejected", "binary rejected",
            "malformed .prof files rejected", "malformed .csv files rejected", "malformed .vtu files rejected"]


CHECKS["P22"] = (p22, "exploration")


# ---------------------------------------------------------------- P15
SIGNALS = {-4: "SIGILL", -7: "SIGBUS", -8: "SIGFPE", -11: "SIGSEGV"}

def p15(c):
    c.build("drv_step", "drv_io", "mps_san", "mps_plain")
    c.rule = ("Absurd particle states (coincident, piled up, huge, tiny, non-finite, unknown types, zero and odd densities, on and one ulp beside the boundary) and extreme settings stepped through; generated particle files of all formats, intact or with up to 12 mutations (bytes, tokens, lines, truncation), "
              "loaded, simulated and saved, in process and by the whole program; all under AddressSanitizer, UndefinedBehaviorSanitizer (with float casts), libstdc++ and Eigen assertions. A few whole runs under valgrind memcheck, for uninitialised memory. Non-trivial: at least one particle or a mutated file.")
    c.assumptions = ["stopping with an uncaught exception counts as stopping with an error", "runs that exceed 60 s are counted, not judged", "exponents with more than eight digits are not put into CSV files: the CSV library, which is not part of the repository, overflows and hangs on some"]
    c.driver("drv_step", c.n(3000, 300000))
    c.driver("drv_io", c.n(5000, 400000))

    def one(k):
        rng = random.Random(c.seed * 2003 + k)
        s, ps = cli.problem(rng)
        s["endTime"] = s["dt"] * rng.randint(0, 3)
        if rng.random() < 0.2: # extreme times and limits
            s["dt"] = 10.0 ** rng.choice([-300, -30, 10, 100, 200, 300, 306])
            s["endTime"], s["outputPeriod"] = s["dt"] * rng.randint(0, 3), s["dt"] * rng.choice([0.0, 0.4, 1.0, 3.0])
            s["cflCondition"] = rng.choice([0.3, 1e-300, 1e300])
        ext = rng.choice([".prof", ".csv", ".vtu"])
        text = bytearray(cli.TEXT[ext](0.0, ps).encode())
        for q in range(rng.choice([0, 1, 1, 2, 5])):
            if not text: break
            a = rng.randrange(len(text))
            how = rng.randrange(5)
            if how == 0: text[a] = rng.randrange(256)
            elif how == 1: del text[a:]
            elif how == 2: del text[a:a + rng.randint(1, 30)]
            elif how == 3: text[a:a] = text[a:a + rng.randint(1, 200)]
            else:
                m = re.compile(rb"[-+.0-9eE]+").search(bytes(text), a)
                if m: text[m.start():m.end()] = rng.choice([b"nan", b"inf", b"1e308", b"-1e308", b"99999999999", b"-1", b"0", b"1e-320", b"", b"1e999", b"2147483648", b"-2147483649"])
        # the CSV library (outside the repository) overflows and then never ends on an exponent of INT_MIN
        if ext == ".csv": text = bytearray(re.sub(rb"([eE][-+]*[0-9]{1,8})[0-9]*", rb"\1", bytes(text)))
        d = c.dir(f"h{k}")
        try:
            st, out = cli.setup(d, s, ps, ext)
            cli.write(os.path.join(d, "p" + ext), bytes(text))
            r = c.run([c.bins["mps_san"], "-s", st, "-o", out], timeout=60, retry_timeout=False)
            if r.timeout: return (None, k, "whole runs too long")
            rep = r.sanitizer
            if rep or r.rc in SIGNALS: return (f"{SIGNALS.get(r.rc, 'report')} on a {ext} file: {rep or r.err[-500:].decode('utf-8', 'replace')}", k, bytes(text))
            return (None, k, "whole runs ended normally" if r.rc == 0 else "whole runs stopped with an error")
        finally: shutil.rmtree(d)
    for r in pool_map(one, range(c.n(400, 20000))):
        if r[0]: c.violation("sanitizer " + r[0], r[0], dict(kind="hostile file", case=r[1], seed=c.seed, contents=r[2].decode("latin-1")))
        else: c.case(("hostile", r[1])); c.count(r[2])

    def many(k):
        # what is kept on the stack or in a table of fixed size does not suffice for these
        rng = random.Random(c.seed * 1013 + k)
        n = rng.randint(300000, 420000)
        s, ps = cli.apart(n)
        s["pressureCalculationMethod"] = ["Implicit", "Explicit"][k % 2]
        s["outputVtkInBinary"] = rng.random() < 0.7
        d = c.dir(f"n{k}")
        try:
            ext = [".prof", ".csv", ".vtu"][(c.seed + k) % 3]
            st, out = cli.setup(d, s, ps, ext)
            r = c.run([c.bins["mps_plain"], "-s", st, "-o", out], timeout=150, retry_timeout=False)
            if r.rc != 0 and not r.timeout and not re.search(rb"bad_alloc", r.err): return (f"{SIGNALS.get(r.rc, 'status %d' % r.rc)} on {n} particles without neighbours in a {ext} file: {r.err[-300:].decode('utf-8', 'replace')}", k)
            if r.rc == 0:
                rows = cli.read(cli.set_path(out, "prof", 1)).count(b"\n")
                if rows != n + 2: return (f"the last profile of a run on {n} particles has {rows} lines", k)
            return (None, k, "runs of more than 300000 particles" if r.rc == 0 else "runs of very many particles that took too long")
        finally: shutil.rmtree(d)
    for r in pool_map(many, range(c.n(2, 12))):
        if r[0]: c.violation("many particles " + r[0], r[0], dict(kind="many particles", case=r[1], seed=c.seed))
        else: c.case(("many", r[1])); c.count(r[2])

    def grind(k):
        rng = random.Random(c.seed * 1009 + k)
        s, ps = cli.problem(rng)
        s["endTime"], s["outputPeriod"] = s["dt"] * 2, s["dt"] # states after steps are saved, too
        s["pressureCalculationMethod"] = ["Implicit", "Explicit"][k % 2]
        s["surfaceDetection-particleDistribution"] = k % 4 < 2
        s["outputVtkInBinary"] = k % 8 < 4
        ext = [".prof", ".csv", ".vtu"][k % 3]
        if k % 5 in (1, 4): s["domainMax"] = [x * 0.5 for x in s["domainMax"]] # some particles become ghosts
        if k % 4 in (2, 3): ps = [[0 if rng.random() < 0.15 else p[0], *p[1:]] for p in ps]
        d = c.dir(f"v{k}")
        try:
            st, out = cli.setup(d, s, ps, ext)
            r = c.run(["valgrind", "-q", "--error-exitcode=99", "--track-origins=no", "--undef-value-errors=yes", c.bins["mps_plain"], "-s", st, "-o", out], timeout=120)
            if b"== " in r.err and (r.rc == 99 or b"uninitialised" in r.err or b"Invalid " in r.err):
                m = re.search(rb"==\d+== (?!\s*$)[\s\S]{0,1500}", r.err)
                return (f"valgrind: {(m.group(0) if m else r.err[-800:]).decode('utf-8', 'replace')}", k)
            return (None, k, len(ps), len(cli.outputs(out)))
        finally: shutil.rmtree(d)
    for r in pool_map(grind, range(c.n(8, 240))):
        if r[0]: c.violation("valgrind " + r[0][:300], r[0], dict(kind="valgrind", case=r[1], seed=c.seed))
        else: c.case(("valgrind", r[1])); c.count("whole runs under valgrind"); c.count("sets saved under valgrind", r[3])
    return ["hostile states stepped through", "hostile states that stopped the run", "coincident particles", "odd positions", "odd velocities", "unknown types", "piles of particles", "crowds of more than a thousand", "hostile .prof files", "hostile .csv files", "hostile .vtu files",
            "hostile runs that went on", "hostile files rejected with a message", "hostile files rejected with an exception", "whole runs ended normally", "whole runs stopped with an error", "whole runs under valgrind"]


CHECKS["P15"] = (p15, "exploration")
