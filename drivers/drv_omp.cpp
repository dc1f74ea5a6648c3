// Runs steps of one problem serially and by teams of threads (gompshim.cpp) and compares the states (P14).
// Built with ThreadSanitizer (drv_tsan), which judges the accesses, and without (drv_omp), where one-by-one schedules are explored.
#include "gompshim.hpp"
#include "scen.hpp"
using namespace orc;

struct Res { State a; std::vector<double> p; double courant; bool exited; int code; };
static Res step(const Input& in, const Scenario& sc, const GompPlan& plan) {
    gompPlan(plan);
    Res r;
    MPS m = MPSFactory::create(in);
    r.exited = callsExit([&] { m.stepForward(); }, &r.code);
    gompPlan(GompPlan());
    if (r.exited) return r;
    r.a = snap(m.particles, true);
    for (auto& n : r.a.nb) std::sort(n.begin(), n.end()); // the order in which neighbours are listed is not part of the result
    r.courant = m.courant;
    return r;
}
static double worst(double a, double b, double scale) {
    if (a == b || (a != a && b != b)) return 0;
    double d = std::fabs(a - b) / scale;
    return d == d ? d : 1e300;
}
static void compare(Case& c, const Scenario& sc, const Res& s, const Res& t, const std::string& how) {
    if (s.exited != t.exited || (s.exited && s.code != t.code)) return c.fail("%s: the run %s, serially it %s", how.c_str(), t.exited ? "stopped" : "went on", s.exited ? "stopped" : "went on");
    if (s.exited) return;
    double l0 = sc.s.l0, v0 = l0 / sc.s.dt, p0 = 1e-300, n0 = 1e-300;
    for (int i = 0; i < s.a.n; i++) { p0 = std::max(p0, std::fabs(s.a.P[i])); n0 = std::max(n0, s.a.nd[i]); }
    double w = worst(s.courant, t.courant, std::max(1.0, std::fabs(s.courant)));
    if (w > 1e-9) return c.fail("%s: Courant number %.17g, serially %.17g", how.c_str(), t.courant, s.courant);
    for (int i = 0; i < s.a.n; i++) {
        if (s.a.type[i] != t.a.type[i] || s.a.bc[i] != t.a.bc[i]) return c.fail("%s: particle %d has type %d and boundary condition %d, serially %d and %d", how.c_str(), i, t.a.type[i], t.a.bc[i], s.a.type[i], s.a.bc[i]);
        if (s.a.nb[i].size() != t.a.nb[i].size()) return c.fail("%s: particle %d has %zu neighbours, serially %zu", how.c_str(), i, t.a.nb[i].size(), s.a.nb[i].size());
        for (size_t k = 0; k < s.a.nb[i].size(); k++) if (s.a.nb[i][k].first != t.a.nb[i][k].first) return c.fail("%s: particle %d has neighbour %d, serially %d", how.c_str(), i, t.a.nb[i][k].first, s.a.nb[i][k].first);
        double e = 0;
        for (int k = 0; k < 3; k++) e = std::max({e, worst(s.a.x[i][k], t.a.x[i][k], l0 + std::fabs(s.a.x[i][k])), worst(s.a.v[i][k], t.a.v[i][k], v0)});
        double q = std::max(worst(s.a.nd[i], t.a.nd[i], n0), worst(s.a.P[i], t.a.P[i], p0));
        maxi("relative difference", std::max(e, q));
        if (!(e <= 1e-9) || !(q <= 1e-6))
            return c.fail("%s: particle %d has x (%.17g %.17g %.17g) v (%.17g %.17g %.17g) n %.17g p %.17g, serially x (%.17g %.17g %.17g) v (%.17g %.17g %.17g) n %.17g p %.17g", how.c_str(), i, t.a.x[i][0], t.a.x[i][1], t.a.x[i][2],
                          t.a.v[i][0], t.a.v[i][1], t.a.v[i][2], t.a.nd[i], t.a.P[i], s.a.x[i][0], s.a.x[i][1], s.a.x[i][2], s.a.v[i][0], s.a.v[i][1], s.a.v[i][2], s.a.nd[i], s.a.P[i]);
    }
}

static void run(Case& c) {
    Rng& r = c.rng;
    GenOpt o;
    o.maxN = 60; o.maxSteps = 1;
    o.overlap = r.p(0.5) ? 0.5 : -1;
    o.big = c.args == "tsan" ? 0.02 : 0.08;
    o.tight = 0.4;
    Scenario sc = genScenario(r, o);
    if (r.p(0.15)) sc.s.cfl = 0.02;
    // coincident cells, crowded buckets
    if (r.p(0.2)) for (int k = r.i(1, 20); k-- > 0 && !sc.parts.empty();) { Part q = sc.parts[r.i(0, (int) sc.parts.size() - 1)]; for (int d = 0; d < sc.s.dim; d++) q.x[d] += sc.s.l0 * r.u(-.4, .4); sc.parts.push_back(q); }
    sc.mixInto(c);
    Input in = sc.input();
    Res serial = step(in, sc, GompPlan());
    int n = (int) sc.parts.size(), tries = c.args == "tsan" ? 2 : 6;
    for (int k = 0; k < tries && !c.failed; k++) {
        GompPlan p;
        p.threads  = r.p(0.25) ? 2 : r.p(0.5) ? r.i(3, 8) : r.p(0.7) ? r.i(2, 17) : std::max(2, std::min(n, 24));
        p.pauses   = r.p(0.7);
        p.oneByOne = c.args != "tsan" && r.p(0.7);
        p.seed     = r.next();
        auto before = gompStats;
        Res t = step(in, sc, p);
        if (gompStats.teams > before.teams) c.nontrivial = true;
        count("steps run by teams of threads");
        count(p.oneByOne ? "steps with threads one after another" : "steps with concurrent threads");
        count("parallel regions run by teams", gompStats.teams - before.teams);
        if (p.threads > n) count("steps with more threads than particles");
        maxi("threads", p.threads);
        compare(c, sc, serial, t, fmt("%d threads%s%s", p.threads, p.oneByOne ? " one after another" : "", p.pauses ? " with pauses" : ""));
        c.mix((double) (gompStats.hash >> 12));
    }
    if (serial.exited) count("solver gave up");
    else {
        count(sc.s.implicit ? "implicit problems" : "explicit problems");
        int near = 0;
        for (int i = 0; i < serial.a.n; i++) near += serial.a.type[i] == Ghost;
        if (near) count("problems with ghosts");
    }
    maxi("particles", n);
    c.sample = sc.describe();
}
int main(int argc, char** argv) { return harnessMain(argc, argv, run); }
