"""P14: threads."""
import os, random, shutil
import cli
from core import pool_map


def p14(c):
    c.build("drv_tsan", "drv_omp", "mps_omp", "mps_plain")
    c.rule = ("Generated problems (tanks, clouds, blocks, clusters with overlaps, crowded cells, ghosts, both methods, with and without the distribution test) advanced one step serially and by teams of 2 to 24 threads of an OpenMP runtime of our own: concurrently with random start orders and pauses under ThreadSanitizer, "
              "and one thread after another in random order, switching at barriers and chunk boundaries. States, neighbour lists, pressures and Courant numbers are compared. Whole runs of the program built with OpenMP and the compiler's own runtime, with 1 to 16 threads, are compared with the ordinary build. Non-trivial: a team of at least two threads worked.")
    c.assumptions = ["results are equal when they agree to 1e-9 of the scale (1e-6 for pressures), which rounding in reductions may use up", "the stand-in runtime gives exactly the synchronisation OpenMP promises: fork, join, barriers, critical and atomic sections, work sharing"]
    c.driver("drv_tsan", c.n(500, 12000), args="tsan")
    c.driver("drv_omp", c.n(1000, 40000))

    def one(k):
        rng = random.Random(c.seed * 8009 + k)
        s, ps = cli.problem(rng, big=True)
        if k % 4 == 0:
            l = s["particleDistance"]
            ps = cli.tank(24, 20, l, vel=lambda ix, iy: [rng.uniform(-.3, .3) * l, 0.0, 0.0])
            s["domainMax"] = [40 * l, 60 * l, 0.0]
        s["endTime"] = s["dt"] * 2
        s["outputPeriod"] = s["dt"]
        d = c.dir(f"t{k}")
        ref = None
        try:
            st, _ = cli.setup(d, s, ps, rng.choice([".prof", ".csv", ".vtu"]))
            runs = [("mps_plain", {})] + [("mps_omp", {"OMP_NUM_THREADS": str(t), "OMP_SCHEDULE": sch}) for t, sch in ((1, "static"), (2, "static"), (rng.randint(3, 7), "dynamic,1"), (16, "guided"))]
            for n, (b, env) in enumerate(runs):
                out = os.path.join(d, f"o{n}")
                os.makedirs(out)
                r = c.run([c.bins[b], "-s", st, "-o", out], env=dict(env, OMP_WAIT_POLICY="passive"))
                got = {}
                for q in cli.outputs(out):
                    p = cli.set_path(out, "vtu", q)
                    if os.path.exists(p): got[q] = cli.read_vtu(p)
                what = f"{b} {env}"
                if ref is None: ref = (r.rc, got); continue
                if r.rc != ref[0]: return (f"status {r.rc} ({what}), serially {ref[0]}", k)
                if set(got) != set(ref[1]): return (f"sets {sorted(got)} ({what}), serially {sorted(ref[1])}", k)
                for q in got:
                    a, b2 = ref[1][q], got[q]
                    for name in a:
                        if name in ("n", "binary"): continue
                        fa = [v for x in a[name] for v in (x if isinstance(x, tuple) else (x,))]
                        fb = [v for x in b2[name] for v in (x if isinstance(x, tuple) else (x,))]
                        scale = max([1e-300] + [abs(v) for v in fa if v == v])
                        for x, y in zip(fa, fb):
                            if x != y and not (abs(x - y) <= (2e-5 if not a["binary"] else 1e-6) * scale): return (f"{name} of set {q} differs: {y!r}, serially {x!r} ({what})", k)
            return (None, k, len(ps), len(runs) - 1)
        finally: shutil.rmtree(d)
    for r in pool_map(one, range(c.n(12, 200)), jobs=4):
        if r[0]: c.violation("threads " + r[0], f"run {r[1]}: {r[0]}", dict(kind="threads", case=r[1], seed=c.seed))
        else: c.case(("threads", r[1])); c.count("whole runs with threads compared", r[3])
    return ["steps run by teams of threads", "parallel regions run by teams", "steps with threads one after another", "steps with concurrent threads", "implicit problems", "explicit problems", "problems with ghosts", "whole runs with threads compared"]


CHECKS = {"P14": (p14, "exploration")}
