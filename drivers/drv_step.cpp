// Runs real time steps (MPS::stepForward) on generated problems and watches them at four points:
// before the step, at the entry and exit of the pressure calculation, and after the step.
#include "scen.hpp"
#include "saver.hpp"
#include "loader.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
using namespace orc;
namespace fs = std::filesystem;

static double amax(const V3& a) { return std::max({std::fabs(a[0]), std::fabs(a[1]), std::fabs(a[2])}); }
static bool same(const V3& a, const V3& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static bool sameBits(const V3& a, const V3& b) { return !memcmp(&a, &b, sizeof a); }
static V3 sub(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static bool near(const V3& a, const V3& b, double tol) {
    for (int k = 0; k < 3; k++) if (!(std::fabs(a[k] - b[k]) <= tol)) return false;
    return true;
}
static std::string str(const V3& a) { return fmt("(%.17g, %.17g, %.17g)", a[0], a[1], a[2]); }
static bool finite(const State& a) {
    for (int i = 0; i < a.n; i++) for (int k = 0; k < 3; k++) if (!std::isfinite(a.x[i][k]) || !std::isfinite(a.v[i][k]) || std::fabs(a.v[i][k]) > 1e100) return false;
    return true;
}

// ---------------------------------------------------------------- P01 (inside the step)
static void checkNeighbours(Case& c, const Set& s, const State& a, int step) {
    for (int i = 0; i < a.n; i++) {
        if (a.type[i] == Ghost) continue;
        std::vector<char> seen(a.n, 0);
        for (auto& q : a.nb[i]) {
            if (q.first < 0 || q.first >= a.n || q.first == i) return c.fail("step %d: neighbour list of %d contains %d", step, i, q.first);
            if (seen[q.first]++) return c.fail("step %d: neighbour list of %d contains %d twice", step, i, q.first);
            double d = dist(a.x[i], a.x[q.first]);
            if (a.type[q.first] == Ghost) return c.fail("step %d: ghost %d is a neighbour of %d", step, q.first, i);
            if (std::fabs(d - q.second) > 1e-12 * (d + s.reMax)) return c.fail("step %d: distance %d-%d is %.17g, listed as %.17g", step, i, q.first, d, q.second);
            if (d > s.reMax * (1 + 1e-12)) return c.fail("step %d: %d listed as neighbour of %d at distance %.17g, radius %.17g", step, q.first, i, d, s.reMax);
        }
        for (int j = 0; j < a.n; j++)
            if (j != i && a.type[j] != Ghost && !seen[j] && dist(a.x[i], a.x[j]) < s.reMax * (1 - 1e-12))
                return c.fail("step %d: %d is missing from the neighbours of %d at distance %.17g, radius %.17g", step, j, i, dist(a.x[i], a.x[j]), s.reMax);
        count("neighbour lists compared");
        count("neighbours", a.nb[i].size());
    }
    if (a.n > 1) c.nontrivial = true;
}

// ---------------------------------------------------------------- P02
static void checkGhosts(Case& c, const Set& s, const Obs& o, const Pred& p, int step) {
    const State &b = o.before, &m = o.mid, &a = o.after;
    for (int i = 0; i < b.n; i++) {
        if (p.risky[i]) { count("skipped within rounding of the boundary"); continue; }
        bool g0 = b.type[i] != Ghost && p.type0[i] == Ghost, g1 = p.type0[i] != Ghost && p.type[i] == Ghost;
        bool out = !inside(s, m.x[i]);
        bool wantGhost = b.type[i] == Ghost || g0 || g1 || out;
        if (wantGhost != (m.type[i] == Ghost))
            return c.fail("step %d: particle %d at %s (predicted %s, collided %s) in box [%.17g,%.17g]x[%.17g,%.17g]x[%.17g,%.17g] has type %d at the pressure calculation, was %d", step, i,
                          str(b.x[i]).c_str(), str(p.x[i]).c_str(), str(m.x[i]).c_str(), s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2], m.type[i], b.type[i]);
        if (b.type[i] == Ghost || g0) {
            if (!sameBits(b.x[i], m.x[i]) || !sameBits(b.v[i], m.v[i])) return c.fail("step %d: ghost %d moved or changed velocity before the pressure calculation: x %s -> %s, v %s -> %s", step, i, str(b.x[i]).c_str(), str(m.x[i]).c_str(), str(b.v[i]).c_str(), str(m.v[i]).c_str());
        } else if (g1) {
            if (!near(m.x[i], p.x[i], 1e-9 * s.l0 + 1e-13 * amax(p.x[i]) + 1e-9 * s.dt * p.vscale[i])) return c.fail("step %d: particle %d left the domain in the prediction but was moved afterwards, to %s instead of %s", step, i, str(m.x[i]).c_str(), str(p.x[i]).c_str());
        }
        if (m.type[i] == Ghost) {
            if (!sameBits(m.x[i], a.x[i]) || !sameBits(m.v[i], a.v[i])) return c.fail("step %d: ghost %d moved or changed velocity in the correction", step, i);
            if (a.type[i] != Ghost) return c.fail("step %d: ghost %d came back as type %d", step, i, a.type[i]);
            if (m.nd[i] != 0 || a.nd[i] != 0 || o.mid2.nd[i] != 0) return c.fail("step %d: ghost %d has number density %g", step, i, a.nd[i]);
            if (a.P[i] != 0 || o.pressures[i] != 0) return c.fail("step %d: ghost %d has pressure %g", step, i, a.P[i]);
            c.nontrivial = true;
            count(b.type[i] == Ghost ? "ghosts that stayed inert" : g0 ? "particles ghosted at step start" : g1 ? "particles ghosted by prediction" : "particles ghosted by collision");
        } else if (a.type[i] == Ghost && inside(s, a.x[i]))
            return c.fail("step %d: particle %d inside the box became a ghost in the correction", step, i);
        if (m.type[i] != Ghost) {
            bool onb = false;
            for (int k = 0; k < 3; k++) if (m.x[i][k] == s.lo[k] || m.x[i][k] == s.hi[k]) onb = true;
            if (onb) count("particles exactly on the boundary that stayed");
        }
        for (auto& q : m.nb[i])
            if (m.type[i] != Ghost && q.first >= 0 && q.first < m.n && m.type[q.first] == Ghost) return c.fail("step %d: ghost %d is a neighbour of %d", step, q.first, i);
    }
}
// removing the ghosts from the input must not change anything else
static void ghostRemoval(Case& c, const Scenario& sc) {
    Scenario s2 = sc;
    std::vector<int> map;
    s2.parts.clear();
    for (size_t k = 0; k < sc.parts.size(); k++) {
        if (sc.parts[k].type == Ghost || !inside(sc.s, sc.parts[k].x)) continue;
        map.push_back((int) k);
        s2.parts.push_back(sc.parts[k]);
    }
    if (map.size() == sc.parts.size()) return;
    MPS A = MPSFactory::create(sc.input()), B = MPSFactory::create(s2.input());
    Tap ta, tb;
    attach(A, sc.s, &ta); attach(B, s2.s, &tb);
    Obs oa = stepObserved(A, ta), ob = stepObserved(B, tb);
    const Set& s = sc.s;
    {
        const bool both = !oa.exited && !ob.exited;
        const State &a = both ? oa.mid2 : oa.mid, &b = both ? ob.mid2 : ob.mid;
        double vmax = 1e-3 * s.l0 / s.dt;
        for (int q = 0; q < b.n; q++) vmax = std::max(vmax, amax(b.v[q]));
        for (int q = 0; q < b.n; q++) {
            int i = map[q];
            if (a.type[i] != b.type[q] || a.bc[i] != b.bc[q] || !near(a.x[i], b.x[q], 1e-9 * s.l0 + 1e-14 * amax(b.x[q])) || !near(a.v[i], b.v[q], 1e-9 * vmax) || std::fabs(a.nd[i] - b.nd[q]) > 1e-8 * (1 + a.nd[i]))
                return c.fail("ghosts influence particle %d: at the pressure calculation it has x %s v %s n %.17g type %d state %d with them, x %s v %s n %.17g type %d state %d without", i, str(a.x[i]).c_str(), str(a.v[i]).c_str(), a.nd[i], a.type[i], a.bc[i], str(b.x[q]).c_str(), str(b.v[q]).c_str(), b.nd[q], b.type[q], b.bc[q]);
        }
    }
    count("ghost-removal comparisons");
    c.nontrivial = true;
    if (oa.exited || ob.exited) { count("solver gave up"); return; }
    double perr = 0, pmax = 1e-300, vmax = 1e-3 * s.l0 / s.dt;
    if (s.implicit) {
        PPE q = solvePPE(s, oa.mid2, oa.mid2.bc);
        if (!q.ok) { count("ghost removal: ill-conditioned pressures not compared"); return; }
        perr = 2 * q.err;
    }
    const State &a = oa.after, &b = ob.after;
    Grad gr = gradient(s, oa.mid2, oa.pressures);
    for (int q = 0; q < b.n; q++) { vmax = std::max(vmax, amax(b.v[q])); pmax = std::max(pmax, std::fabs(b.P[q])); }
    for (int q = 0; q < b.n; q++) {
        int i = map[q];
        if (gr.risky[i] && a.type[i] == Fluid) continue;
        double vt = 1e-9 * vmax + (gr.scale[i] > 0 ? 10 * s.dt * gr.scale[i] * (perr / pmax + 1e-9) : 0), xt = 1e-9 * s.l0 + 1e-14 * amax(b.x[q]) + s.dt * vt;
        if (a.type[i] != b.type[q] || a.bc[i] != b.bc[q]) return c.fail("with ghosts particle %d ends as type %d/state %d, without them as %d/%d", i, a.type[i], a.bc[i], b.type[q], b.bc[q]);
        if (!near(a.x[i], b.x[q], xt) || !near(a.v[i], b.v[q], vt) || std::fabs(a.P[i] - b.P[q]) > perr + 1e-8 * pmax || std::fabs(a.nd[i] - b.nd[q]) > 1e-8 * (1 + a.nd[i]))
            return c.fail("ghosts influence particle %d: x %s v %s P %.17g n %.17g with them, x %s v %s P %.17g n %.17g without", i, str(a.x[i]).c_str(), str(a.v[i]).c_str(), a.P[i], a.nd[i], str(b.x[q]).c_str(), str(b.v[q]).c_str(), b.P[q], b.nd[q]);
    }
    count("ghost-removal results compared");
}

// ---------------------------------------------------------------- P03
static void checkIdentity(Case& c, const Scenario& sc, const MPS& m, const Obs& o, int step) {
    const State& a = o.after;
    if (m.particles.size() != (int) sc.parts.size()) return c.fail("step %d: %d particles, started with %zu", step, m.particles.size(), sc.parts.size());
    int i = 0;
    for (const auto& p : m.particles) {
        const Part& q = sc.parts[i];
        if (p.id != i) return c.fail("step %d: particle at place %d has id %d", step, i, p.id);
        if (p.fluidType != q.ftype) return c.fail("step %d: fluid type of %d changed from %d to %d", step, i, q.ftype, p.fluidType);
        if (p.density != q.rho) return c.fail("step %d: density of %d changed from %.17g to %.17g", step, i, q.rho, p.density);
        int t = (int) p.type;
        if (t != q.type && t != Ghost) return c.fail("step %d: type of %d changed from %d to %d", step, i, q.type, t);
        if (o.before.type[i] == Ghost && t != Ghost) return c.fail("step %d: ghost %d came back", step, i);
        if (q.type == Wall || q.type == Dummy) {
            for (const State* st : {&o.mid, &a})
                if (!same(st->x[i], q.x) || !same(st->v[i], q.v)) return c.fail("step %d: wall particle %d (type %d) moved: x %s -> %s, v %s -> %s", step, i, q.type, str(q.x).c_str(), str(st->x[i]).c_str(), str(q.v).c_str(), str(st->v[i]).c_str());
            count("wall particles unchanged");
            c.nontrivial = true;
        }
        i++;
    }
    count("particles identified", i);
}

// ---------------------------------------------------------------- P05
// partner[i]: number of non-ghost particles closer than (or within rounding of) the collision distance after prediction
static std::vector<int> partners(const Set& s, const Pred& p, bool fluidPairsOnly) {
    int n = (int) p.x.size();
    std::vector<int> r(n, 0);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (p.type[i] == Ghost && !p.risky[i]) continue;
        if (p.type[j] == Ghost && !p.risky[j]) continue;
        if (fluidPairsOnly && p.type[i] != Fluid && p.type[j] != Fluid) continue;
        if (dist(p.x[i], p.x[j]) < s.cd * (1 + 1e-7) + 1e-12 * (amax(p.x[i]) + amax(p.x[j]))) { r[i]++; r[j]++; }
    }
    return r;
}
static void checkPrediction(Case& c, const Set& s, const Obs& o, const Pred& p, int step, bool onlyFree) {
    auto part = partners(s, p, true);
    for (int i = 0; i < o.before.n; i++) {
        if (p.type0[i] != Fluid || p.type[i] != Fluid || p.risky[i] || part[i]) continue;
        double vt = 1e-10 * p.vscale[i] + 1e-14 * s.l0 / s.dt, xt = s.dt * vt + 1e-10 * s.l0 + 4e-15 * amax(p.x[i]);
        if (!near(o.mid.v[i], p.v[i], vt) || !near(o.mid.x[i], p.x[i], xt))
            return c.fail("step %d: fluid particle %d without collision partner: x %s v %s before the step, expected x %s v %s at the pressure calculation, observed x %s v %s", step, i, str(o.before.x[i]).c_str(), str(o.before.v[i]).c_str(),
                          str(p.x[i]).c_str(), str(p.v[i]).c_str(), str(o.mid.x[i]).c_str(), str(o.mid.v[i]).c_str());
        count(onlyFree ? "particles without partner left alone" : "predictions compared");
        if (!onlyFree && p.ascale[i] > 0) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- P06
static void checkCollisions(Case& c, const Set& s, const Obs& o, const Pred& p, int step) {
    int n = o.before.n;
    for (int i = 0; i < n; i++) if (p.risky[i]) { count("steps skipped within rounding of the boundary"); return; }
    checkPrediction(c, s, o, p, step, true);
    // clusters of touching particles
    std::vector<int> comp(n);
    for (int i = 0; i < n; i++) comp[i] = i;
    std::function<int(int)> find = [&](int a) { return comp[a] == a ? a : comp[a] = find(comp[a]); };
    std::vector<int> deg(n, 0), mate(n, -1);
    std::vector<char> tie(n, 0);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (p.type[i] == Ghost || p.type[j] == Ghost) continue;
        double d = dist(p.x[i], p.x[j]), slack = 1e-9 * s.cd + 1e-13 * (amax(p.x[i]) + amax(p.x[j])) + 1e-9 * s.dt * (p.vscale[i] + p.vscale[j]);
        if (d < s.cd + slack) {
            if (d > s.cd - slack) tie[i] = tie[j] = 1;
            deg[i]++; deg[j]++; mate[i] = j; mate[j] = i;
            comp[find(i)] = find(j);
        }
    }
    // isolated pairs: the outcome is fully determined
    for (int i = 0; i < n; i++) {
        int j = mate[i];
        if (deg[i] != 1 || deg[j] != 1 || j < i || tie[i]) continue;
        if (p.type[i] != Fluid && p.type[j] != Fluid) continue;
        double wi = p.type[i] == Fluid ? 1 / o.before.rho[i] : 0, wj = p.type[j] == Fluid ? 1 / o.before.rho[j] : 0, mass = 1 / (wi + wj);
        double d = dist(p.x[i], p.x[j]);
        V3 e = sub(p.x[j], p.x[i]), dv = sub(p.v[j], p.v[i]), xi = p.x[i], xj = p.x[j], vi = p.v[i], vj = p.v[j];
        for (auto& q : e) q /= d;
        double rel = dot(dv, e), J = rel < 0 ? -(1 + s.rest) * rel * mass : 0, D = (s.cd - d) * mass;
        for (int k = 0; k < 3; k++) {
            vi[k] -= J * wi * e[k]; vj[k] += J * wj * e[k];
            xi[k] -= D * wi * e[k]; xj[k] += D * wj * e[k];
        }
        double amp = 1e-9 + 1e-14 * (amax(p.x[i]) + amax(p.x[j])) / d, vs = p.vscale[i] + p.vscale[j] + 1e-6 * s.l0 / s.dt;
        double vt = amp * vs, xt = amp * s.l0 + 1e-14 * (amax(p.x[i]) + amax(p.x[j])) + s.dt * 1e-9 * vs;
        if (!near(o.mid.v[i], vi, vt) || !near(o.mid.v[j], vj, vt) || !near(o.mid.x[i], xi, xt) || !near(o.mid.x[j], xj, xt))
            return c.fail("step %d: collision of %d (type %d, density %g) and %d (type %d, density %g), distance %.9g < %.9g, restitution %g, normal velocity %.9g: expected v %s / %s, x %s / %s; observed v %s / %s, x %s / %s", step, i, p.type[i], o.before.rho[i], j, p.type[j], o.before.rho[j],
                          d, s.cd, s.rest, rel, str(vi).c_str(), str(vj).c_str(), str(xi).c_str(), str(xj).c_str(), str(o.mid.v[i]).c_str(), str(o.mid.v[j]).c_str(), str(o.mid.x[i]).c_str(), str(o.mid.x[j]).c_str());
        if (p.type[i] != Fluid && !(sameBits(o.mid.x[i], o.before.x[i]) && sameBits(o.mid.v[i], o.before.v[i]))) return c.fail("step %d: wall partner %d was affected", step, i);
        if (p.type[j] != Fluid && !(sameBits(o.mid.x[j], o.before.x[j]) && sameBits(o.mid.v[j], o.before.v[j]))) return c.fail("step %d: wall partner %d was affected", step, j);
        count(rel < 0 ? (wi * wj > 0 ? "fluid pairs approaching" : "fluid-wall pairs approaching") : (wi * wj > 0 ? "fluid pairs separating" : "fluid-wall pairs separating"));
        c.nontrivial = true;
    }
    // clusters of fluid only: conservation
    for (int root = 0; root < n; root++) {
        if (find(root) != root || !deg[root]) continue;
        bool fluid = true;
        int size = 0;
        long double p0[3] = {}, p1[3] = {}, x0[3] = {}, x1[3] = {}, k0 = 0, k1 = 0, m = 0;
        double ps = 0, xs = 0, ks = 0, amp = 0;
        for (int i = 0; i < n; i++) {
            if (p.type[i] == Ghost || find(i) != root) continue;
            if (p.type[i] != Fluid) { fluid = false; break; }
            size++;
            double rho = o.before.rho[i];
            m += rho;
            for (int k = 0; k < 3; k++) {
                p0[k] += (long double) rho * p.v[i][k]; p1[k] += (long double) rho * o.mid.v[i][k];
                x0[k] += (long double) rho * p.x[i][k]; x1[k] += (long double) rho * o.mid.x[i][k];
                k0 += 0.5L * rho * p.v[i][k] * p.v[i][k]; k1 += 0.5L * rho * o.mid.v[i][k] * o.mid.v[i][k];
            }
            ps += rho * (p.vscale[i] + amax(o.mid.v[i]));
            ks += rho * std::pow(p.vscale[i] + amax(o.mid.v[i]), 2);
            xs += rho * (1e-10 * s.l0 + 1e-13 * amax(p.x[i]) + 1e-10 * s.dt * p.vscale[i]);
            (void) amp;
        }
        if (!fluid) continue;
        for (int k = 0; k < 3; k++) {
            if (!(std::fabs((double) (p1[k] - p0[k])) <= 1e-9 * ps + 1e-300)) return c.fail("step %d: a cluster of %d fluid particles around %d changed its momentum component %d from %.17Lg to %.17Lg in the collision phase", step, size, root, k, p0[k], p1[k]);
            if (!(std::fabs((double) (x1[k] - x0[k])) <= xs)) return c.fail("step %d: a cluster of %d fluid particles around %d moved its centre of mass (component %d) from %.17Lg to %.17Lg", step, size, root, k, x0[k] / m, x1[k] / m);
        }
        if (!(k1 <= k0 + 1e-9 * ks)) return c.fail("step %d: a cluster of %d fluid particles around %d gained kinetic energy in the collision phase: %.17Lg -> %.17Lg (restitution %g)", step, size, root, k0, k1, s.rest);
        count(size > 2 ? "clusters of three or more fluid particles" : "fluid pair conservation checks");
        c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- P07
static bool vtuArray(const std::string& file, const std::string& name, size_t bytes, std::vector<char>& out) {
    std::ifstream f(file, std::ios::binary);
    std::string t((std::istreambuf_iterator<char>(f)), {});
    size_t a = t.find("Name=\"" + name + "\""), b = t.find("<AppendedData");
    if (a == std::string::npos || b == std::string::npos) return false;
    size_t q = t.find("offset=\"", a);
    size_t off = strtoull(t.c_str() + q + 8, 0, 10), base = t.find('_', b) + 1 + off;
    if (base + 8 + bytes > t.size()) return false;
    uint64_t len;
    memcpy(&len, &t[base], 8);
    if (len != bytes) return false;
    out.assign(t.begin() + base + 8, t.begin() + base + 8 + bytes);
    return true;
}
static void checkNumberDensity(Case& c, const Set& s, const MPS& m, const Obs& o, int step) {
    std::vector<double> sc, nd = numberDensity(s, o.mid.type, o.mid.x, &sc);
    for (int i = 0; i < o.mid.n; i++) {
        double tol = 1e-11 * (sc[i] + 1e-3) + 1e-13 * sc[i] * sc[i];
        for (const State* st : {&o.mid, &o.mid2, &o.after})
            if (!(std::fabs(st->nd[i] - nd[i]) <= tol)) return c.fail("step %d: number density of particle %d (type %d) is %.17g %s, the weights of the others sum to %.17g", step, i, o.mid.type[i], st->nd[i], st == &o.mid ? "at the pressure calculation" : st == &o.mid2 ? "after the pressure calculation" : "after the step", nd[i]);
        count(o.mid.type[i] == Ghost ? "ghost densities zero" : nd[i] > 0 ? "positive densities compared" : "isolated particles");
        if (nd[i] > 0) c.nontrivial = true;
    }
    if (c.rng.p(0.12) && !gWorkDir.empty()) { // what the saved file reports for this step
        fs::path dir = fs::path(gWorkDir) / "sv";
        fs::remove_all(dir);
        { Saver sv(dir, true); sv.save(m, 0.5); }
        std::vector<char> a, b;
        std::string f = (dir / "vtu" / "output_0000.vtu").string();
        size_t bytes = 8 * o.mid.n;
        if (!vtuArray(f, "Number Density", bytes, a) || !vtuArray(f, "Number Density Ratio", bytes, b)) { fs::remove_all(dir); return c.fail("step %d: saved VTU file has no usable number density arrays", step); }
        double n0, lam;
        ref(s.dim, s.l0, s.reN, n0, lam);
        for (int i = 0; i < o.mid.n; i++) {
            double x, y;
            memcpy(&x, &a[8 * i], 8); memcpy(&y, &b[8 * i], 8);
            if (x != o.after.nd[i] || !(std::fabs(y - nd[i] / n0) <= 1e-9 * (y + 1) + 1e-12 * sc[i])) { fs::remove_all(dir); return c.fail("step %d: saved number density of %d is %.17g, ratio %.17g; expected %.17g and %.17g", step, i, x, y, nd[i], nd[i] / n0); }
        }
        fs::remove_all(dir);
        count("saved density arrays compared");
    }
}

// ---------------------------------------------------------------- P08
static void checkSurface(Case& c, const Set& s, const Obs& o, int step) {
    auto want = classify(s, o.mid2.type, o.mid2.x, o.mid2.nd);
    static const char* nm[] = {"ignored", "free surface", "sub free surface", "inner", "splash"};
    for (int i = 0; i < o.mid.n; i++) {
        if (want[i] < 0) { count("skipped within rounding of a threshold"); continue; }
        for (const State* st : {&o.mid2, &o.after})
            if (st->bc[i] != want[i]) return c.fail("step %d: particle %d (type %d, n = %.9g, %s mode) is marked %d, the criterion says %s", step, i, o.mid.type[i], o.mid.nd[i], s.distMode ? "distribution" : "number-density", st->bc[i], nm[want[i]]);
        count(want[i] == Ignored ? "ignored" : want[i] == Inner ? "inner" : "free surface");
        if (want[i] == Inner || want[i] == FreeSurface) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- P09
static void checkPPE(Case& c, const Set& s, const Obs& o, int step) {
    if (o.exited) { // the mid state is known, the classification was done in place
        count("solver gave up");
        State a = o.mid;
        auto bc = classify(s, a.type, a.x, a.nd);
        for (int b : bc) if (b < 0) return;
        PPE p = solvePPE(s, a, bc);
        if (p.unsolvable) { count("unsolvable systems stopped the run"); c.nontrivial = true; if (o.code == 0) c.fail("step %d: the run ended with status 0 although the pressure equation has no solution", step); }
        // the iterative solver asks for a residual of one machine epsilon, which it sometimes cannot reach from a condition of some thousands on
        if (p.ok && !p.singular && p.cond < 100 && finite(a)) c.fail("step %d: the pressure calculation gave up (exit %d) on a well-conditioned system (condition %.3g)", step, o.code, p.cond);
        return;
    }
    PPE p = solvePPE(s, o.mid2, o.mid2.bc);
    if (p.unsolvable) return c.fail("step %d: the run continued, with pressures up to %.6g, although the pressure equation has no solution", step, *std::max_element(o.pressures.begin(), o.pressures.end()));
    maxi("largest condition number compared", p.ok ? p.cond : 0);
    if (!p.ok) { count(p.singular ? "skipped: singular system" : "skipped: ill-conditioned system"); return; }
    double pm = 0;
    int inner = 0, pos = 0, neg = 0;
    for (int i = 0; i < o.mid.n; i++) pm = std::max(pm, std::fabs(p.P[i]));
    for (int i = 0; i < o.mid.n; i++) {
        double tol = p.err + 1e-9 * pm;
        for (double got : {o.pressures[i], o.after.P[i]})
            if (!(std::fabs(got - p.P[i]) <= tol)) return c.fail("step %d: pressure of particle %d (type %d, state %d) is %.12g, the Poisson equation gives %.12g (largest %.6g, condition %.3g, error bound %.3g)", step, i, o.mid.type[i], o.mid2.bc[i], got, p.P[i], pm, p.cond, p.err);
        if (o.mid2.bc[i] == Inner) { inner++; (p.P[i] > 0 ? pos : neg)++; }
    }
    count("systems compared"); count("inner particles", inner); count("positive pressures", pos); count("clamped pressures", neg);
    if (pos) c.nontrivial = true;
}

// ---------------------------------------------------------------- P10
static void checkEOS(Case& c, const Set& s, const Obs& o, int step) {
    double n0, lam;
    ref(s.dim, s.l0, s.reN, n0, lam);
    for (int i = 0; i < o.after.n; i++) {
        double got = o.after.P[i], n = o.after.nd[i];
        if (o.after.type[i] == Ghost) {
            if (got != 0) return c.fail("step %d: ghost %d has pressure %.17g", step, i, got);
            continue;
        }
        if (!(got >= 0)) return c.fail("step %d: pressure of %d is negative: %.17g", step, i, got);
        if (o.after.type[i] == Dummy) continue;
        if (std::fabs(n - n0) < 1e-11 * n0) { count("skipped within rounding of n0"); continue; }
        double want = n > n0 ? s.c * s.c * o.after.rho[i] * (n - n0) / n0 : 0.0;
        if (want == 0 ? got != 0 : !(std::fabs(got - want) <= 1e-9 * want + 1e-11 * s.c * s.c * o.after.rho[i])) return c.fail("step %d: pressure of particle %d (type %d, density %g, n = %.12g, n0 = %.12g, c = %g) is %.12g, the equation of state gives %.12g", step, i, o.after.type[i], o.after.rho[i], n, n0, s.c, got, want);
        count(want > 0 ? "compressed particles" : "uncompressed particles");
        if (want > 0) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- P11
static void checkGradient(Case& c, const Set& s, const Obs& o, int step) {
    Grad g = gradient(s, o.mid2, o.pressures);
    const State &m = o.mid, &a = o.after;
    for (int i = 0; i < m.n; i++) {
        if (m.type[i] != Fluid) {
            if (!sameBits(m.x[i], a.x[i]) || !sameBits(m.v[i], a.v[i])) return c.fail("step %d: particle %d of type %d was moved by the correction", step, i, m.type[i]);
            continue;
        }
        if (g.risky[i]) { count("skipped within rounding of the radius"); continue; }
        V3 wv = m.v[i], wx = m.x[i];
        for (int k = 0; k < 3; k++) { wv[k] += s.dt * g.a[i][k]; wx[k] += s.dt * s.dt * g.a[i][k]; }
        double vt = 1e-10 * (s.dt * g.scale[i] + amax(m.v[i])) + 1e-300, xt = 1e-10 * s.dt * s.dt * g.scale[i] + 1e-14 * amax(m.x[i]) + 1e-13 * s.l0;
        if (!near(a.v[i], wv, vt) || !near(a.x[i], wx, xt))
            return c.fail("step %d: correction of fluid particle %d (density %g): v %s -> %s, x %s -> %s; the pressure gradient gives v %s, x %s", step, i, o.mid.rho[i], str(m.v[i]).c_str(), str(a.v[i]).c_str(), str(m.x[i]).c_str(), str(a.x[i]).c_str(), str(wv).c_str(), str(wx).c_str());
        count(g.scale[i] > 0 ? "accelerated particles" : "unaccelerated particles");
        if (g.scale[i] > 0) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- P12
static bool captureFd(const std::function<void()>& f, std::string& text) {
    fflush(stderr);
    int mem = memfd_create("err", 0), save = dup(2);
    dup2(mem, 2);
    f();
    std::cerr.flush();
    fflush(stderr);
    dup2(save, 2);
    close(save);
    off_t n = lseek(mem, 0, SEEK_END);
    text.resize(n);
    bool ok = pread(mem, &text[0], n, 0) == n;
    close(mem);
    return ok;
}
static void checkCourant(Case& c, const Set& s, const Obs& o, const std::string& err, int step) {
    double want = 0;
    for (int i = 0; i < o.after.n; i++)
        if (o.after.type[i] == Fluid) want = std::max(want, std::sqrt(dot(o.after.v[i], o.after.v[i])) * s.dt / s.l0);
    if (!(std::fabs(o.courant - want) <= 1e-12 * want)) return c.fail("step %d: Courant number reported %.17g, largest fluid speed gives %.17g", step, o.courant, want);
    bool msg = false, num = false;
    std::istringstream is(err);
    for (std::string l; std::getline(is, l);) {
        std::string low;
        for (char ch : l) low += (char) tolower(ch);
        if (low.find("courant") == std::string::npos) continue;
        msg = true;
        for (size_t k = 0; k < l.size(); k++)
            if (isdigit((unsigned char) l[k]) || (l[k] == '.' && k + 1 < l.size() && isdigit((unsigned char) l[k + 1]))) {
                char* e;
                double v = strtod(&l[k], &e);
                if (std::fabs(v - want) <= 1e-2 * want) num = true;
                k = e - l.data();
            }
    }
    if (std::fabs(want - s.cfl) > 1e-12 * s.cfl) {
        if (msg != (want > s.cfl)) return c.fail("step %d: Courant number %.17g, CFL condition %.17g, but %s error was reported", step, want, s.cfl, msg ? "an" : "no");
    } else if (want == s.cfl && o.courant == s.cfl && msg) return c.fail("step %d: Courant number equals the CFL condition %.17g but an error was reported", step, s.cfl);
    if (msg && !num) return c.fail("step %d: the CFL error does not name the Courant number %.6g: %s", step, want, err.substr(0, 300).c_str());
    count(msg ? "CFL violations reported" : "steps within the CFL condition");
    if (want > 0) c.nontrivial = true;
}

// ---------------------------------------------------------------- P13 (split runs)
static void splitRun(Case& c, Scenario sc) {
    if (!sc.longRun) sc.steps = 3 + (int) (c.rng.next() % (c.thorough ? 12 : 5));
    MPS A = MPSFactory::create(sc.input());
    int cut = sc.longRun ? sc.steps - 4 : c.rng.i(1, sc.steps - 1);
    std::unique_ptr<MPS> B;
    for (int t = 0; t < sc.steps; t++) {
        if (t == cut) {
            Scenario s2 = sc;
            s2.parts.clear();
            for (const auto& p : A.particles)
                s2.parts.push_back({(int) p.type, p.fluidType, {p.position.x(), p.position.y(), p.position.z()}, {p.velocity.x(), p.velocity.y(), p.velocity.z()}, p.density});
            B = std::make_unique<MPS>(MPSFactory::create(s2.input()));
        }
        bool ea = callsExit([&] { A.stepForward(); }), eb = ea;
        if (B) eb = callsExit([&] { B->stepForward(); });
        if (ea != eb) return c.fail("step %d: the uninterrupted run %s, the one restarted at step %d %s", t, ea ? "stopped" : "went on", cut, eb ? "stopped" : "went on");
        if (ea) { count("solver gave up"); return; }
        if (!B) continue;
        State a = snap(A.particles), b = snap(B->particles);
        if (!finite(a)) { count("stopped comparing: not finite"); return; }
        double pm = 1e-300, vm = 1e-300;
        for (int i = 0; i < a.n; i++) { pm = std::max(pm, std::fabs(a.P[i])); vm = std::max(vm, amax(a.v[i])); }
        double g = std::pow(100.0, t - cut);
        for (int i = 0; i < a.n; i++)
            if (a.type[i] != b.type[i] || a.bc[i] != b.bc[i] || !near(a.x[i], b.x[i], 1e-11 * g * (sc.s.l0 + 1e-3 * amax(a.x[i]))) || !near(a.v[i], b.v[i], 1e-11 * g * vm) || std::fabs(a.P[i] - b.P[i]) > 1e-9 * g * pm || std::fabs(a.nd[i] - b.nd[i]) > 1e-10 * g * (1 + a.nd[i]))
                return c.fail("step %d of a run restarted at step %d from the full state: particle %d has x %s v %s P %.17g n %.17g state %d, uninterrupted x %s v %s P %.17g n %.17g state %d", t, cut, i, str(b.x[i]).c_str(), str(b.v[i]).c_str(), b.P[i], b.nd[i], b.bc[i], str(a.x[i]).c_str(), str(a.v[i]).c_str(), a.P[i], a.nd[i], a.bc[i]);
        count("restarted steps compared");
        if (a.n) c.nontrivial = true;
    }
}

// ---------------------------------------------------------------- P25
struct Map { int perm[3] = {0, 1, 2}; double sg[3] = {1, 1, 1}; V3 sh = {0, 0, 0}; double len = 1, tim = 1, dens = 1; std::vector<int> id; bool keepDim = true; std::string name; };
static V3 lin(const Map& m, const V3& a) { V3 r; for (int k = 0; k < 3; k++) r[k] = m.sg[k] * a[m.perm[k]]; return r; }
static void metamorphic(Case& c, const Scenario& sc) {
    Rng& r = c.rng;
    const Set& s = sc.s;
    Map m;
    int n = (int) sc.parts.size();
    int kind = r.i(0, 4);
    if (kind == 0 || kind == 4) {
        m.name = "axes";
        int dims = s.dim == 2 && r.p(0.4) ? 2 : 3; // two-dimensional problems also in other planes
        for (int k = dims - 1; k > 0; k--) std::swap(m.perm[k], m.perm[r.i(0, k)]);
        for (int k = 0; k < 3; k++) if (r.p(0.5)) m.sg[k] = -1;
    }
    if (kind == 1 || kind == 4) { m.name += " shift"; const double far = r.p(0.2) ? r.lu(40, 1e5) : 40; for (int k = 0; k < 3; k++) m.sh[k] = s.l0 * r.u(-far, far); }
    if (kind == 3 || kind == 4) {
        m.name += " units";
        m.len = r.lu(0.01, 100); m.tim = r.lu(0.01, 100); m.dens = r.lu(0.1, 10);
    }
    m.id.resize(n);
    for (int k = 0; k < n; k++) m.id[k] = k;
    if (kind == 2 || kind == 4) { m.name += " renumber"; for (int k = n - 1; k > 0; k--) std::swap(m.id[k], m.id[r.i(0, k)]); }
    const double L = m.len, T = m.tim, V = L / T;
    Scenario t = sc;
    Set& u = t.s;
    u.l0 *= L; u.dt *= T; u.nu *= L * L / T; u.cd *= L; u.reN *= L; u.reG *= L; u.reL *= L; u.reMax *= L; u.c *= V;
    u.comp *= T * T / (L * L) / m.dens;
    t.normAngle = false;
    V3 g = lin(m, s.g);
    for (int k = 0; k < 3; k++) u.g[k] = g[k] * L / (T * T);
    V3 a = lin(m, s.lo), b = lin(m, s.hi);
    for (int k = 0; k < 3; k++) { u.lo[k] = L * (std::min(a[k], b[k]) + m.sh[k]); u.hi[k] = L * (std::max(a[k], b[k]) + m.sh[k]); }
    for (int k = 0; k < 3; k++) if (s.dim == 2 && u.lo[k] == u.hi[k]) { u.lo[k] -= 0.5 * u.l0; u.hi[k] += 0.5 * u.l0; }
    t.parts.assign(n, Part{});
    for (int i = 0; i < n; i++) {
        Part p = sc.parts[i];
        p.x = lin(m, p.x); p.v = lin(m, p.v);
        for (int k = 0; k < 3; k++) { p.x[k] = L * (p.x[k] + m.sh[k]); p.v[k] *= V; }
        p.rho *= m.dens;
        t.parts[m.id[i]] = p;
    }
    MPS A = MPSFactory::create(sc.input()), B = MPSFactory::create(t.input());
    Tap ta, tb;
    attach(A, s, &ta); attach(B, u, &tb);
    Obs oa = stepObserved(A, ta, true), ob = stepObserved(B, tb);
    if (oa.exited || ob.exited) { count("solver gave up"); return; }
    // not in general position: a decision lies within rounding of its threshold, or more than two particles collide
    Pred p = predict(s, oa.before);
    for (int i = 0; i < n; i++) {
        V3 x0 = oa.before.x[i], flat = {1, 1, s.dim == 2 && s.lo[2] == s.hi[2] && x0[2] == s.lo[2] && p.v[i][2] == 0 ? 0.0 : 1.0};
        double eps = 1e-7 * s.l0 + 1e-12 * amax(x0);
        if (p.risky[i] || (oa.before.type[i] != Ghost && nearBoundary(s, x0, eps, &flat)) || (p.type[i] != Ghost && nearBoundary(s, p.x[i], eps, &flat)) || nearBoundary(s, oa.mid.x[i], eps, &flat)) { count("skipped: near the boundary"); return; }
    }
    {
        std::vector<int> deg(n, 0);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
            if (p.type[i] == Ghost || p.type[j] == Ghost) continue;
            double d = dist(p.x[i], p.x[j]), e = dist(oa.mid.x[i], oa.mid.x[j]), f = dist(oa.before.x[i], oa.before.x[j]);
            if (d < s.cd * (1 + 1e-7)) { if (d > s.cd * (1 - 1e-7)) { count("skipped: collision threshold"); return; } deg[i]++; deg[j]++; }
            for (double q : {e, f}) for (double re : {s.reN, s.reG, s.reL, s.reMax}) if (std::fabs(q - re) < 1e-9 * re && (re == s.reG || re == s.reMax)) { count("skipped: radius threshold"); return; }
        }
        for (int q : deg) if (q > 1) { count("skipped: cluster collision"); return; }
    }
    auto cl = classify(s, oa.mid2.type, oa.mid2.x, oa.mid2.nd);
    for (int q : cl) if (q < 0 && s.implicit) { count("skipped: surface threshold"); return; }
    double perr = 0, pm = 0;
    if (s.implicit) {
        PPE q = solvePPE(s, oa.mid2, oa.mid2.bc);
        if (!q.ok) { count("skipped: ill-conditioned"); return; }
        perr = q.err;
        for (double x : q.P) pm = std::max(pm, x);
    }
    double n0, lam, vm = 1e-3 * s.l0 / s.dt;
    ref(s.dim, s.l0, s.reN, n0, lam);
    for (int i = 0; i < n; i++) {
        vm = std::max({vm, p.vscale[i], amax(oa.after.v[i])});
        if (!s.implicit && std::fabs(oa.mid.nd[i] - n0) < 1e-9 * n0) { count("skipped: n0 threshold"); return; }
        pm = std::max(pm, std::fabs(oa.after.P[i]));
    }
    Grad gr = gradient(s, oa.mid2, oa.pressures);
    double shift = (std::fabs(m.sh[0]) + std::fabs(m.sh[1]) + std::fabs(m.sh[2])) / s.l0 + 1, off = 0;
    for (int i = 0; i < n; i++) off = std::max(off, amax(oa.before.x[i]) / s.l0);
    double amp = 1e-8 + 1e-13 * (shift + off); // rounding of shifted coordinates
    if (amp > 1e-6) { count("skipped: far from the origin"); return; }
    const double PS = m.dens * V * V;
    double nbmin = 1; // smallest separation in l0
    for (int i = 0; i < n; i++) for (auto& q : oa.mid.nb[i]) nbmin = std::min(nbmin, q.second / s.l0);
    amp /= nbmin * nbmin;
    if (amp > 1e-4) { count("skipped: nearly coincident particles"); return; }
    for (int i = 0; i < n; i++) {
        int j = m.id[i];
        const State &x = oa.after, &y = ob.after;
        if (x.type[i] != y.type[j]) return c.fail("transformation [%s]: particle %d ends with type %d, transformed %d", m.name.c_str(), i, x.type[i], y.type[j]);
        if (s.implicit && x.bc[i] != y.bc[j]) return c.fail("transformation [%s]: particle %d has boundary condition %d, transformed %d", m.name.c_str(), i, x.bc[i], y.bc[j]);
        V3 wx = lin(m, x.x[i]), wv = lin(m, x.v[i]);
        for (int k = 0; k < 3; k++) { wx[k] = L * (wx[k] + m.sh[k]); wv[k] *= V; }
        double ga = pm > 0 && gr.scale[i] > 0 ? gr.scale[i] * s.dt * (perr / pm + amp) : 0; // pressure error carried into the correction
        double vt = V * (amp * vm + 10 * ga), xt = L * (amp * s.l0 + 1e-14 * amax(x.x[i])) + T * vt + 1e-13 * amax(wx);
        double pt = PS * (perr * 10 + amp * pm);
        if (!s.implicit) pt += PS * amp * s.c * s.c * x.rho[i];
        if (!near(y.x[j], wx, xt) || !near(y.v[j], wv, vt) || !(std::fabs(y.P[j] - PS * x.P[i]) <= pt) || !(std::fabs(y.nd[j] - x.nd[i]) <= amp * 10 * (1 + x.nd[i])))
            return c.fail("transformation [%s, length %g, time %g]: particle %d should end at x %s v %s P %.12g n %.12g, does at x %s v %s P %.12g n %.12g", m.name.c_str(), L, T, i, str(wx).c_str(), str(wv).c_str(), PS * x.P[i], x.nd[i], str(y.x[j]).c_str(), str(y.v[j]).c_str(), y.P[j], y.nd[j]);
    }
    if (std::fabs(oa.courant - ob.courant) > amp * (oa.courant + 1e-3) * 10 + 1e-6 * oa.courant) return c.fail("transformation [%s]: Courant number %.12g became %.12g", m.name.c_str(), oa.courant, ob.courant);
    count(("transformed steps: " + m.name).c_str());
    if (n) c.nontrivial = true;
}

// ---------------------------------------------------------------- special cases
// P08: neighbour imbalance exactly at, just above and just below the threshold (all numbers exact in binary)
static void exactSurface(Case& c) {
    Rng& r = c.rng;
    Scenario sc;
    Set& s = sc.s;
    if (r.p(0.4)) { // a number density exactly at the threshold is not below it
        s.dim = r.i(2, 3); s.l0 = r.pick({1.0, 0.5, 0.25}); s.dt = 1.0 / 1024; s.cfl = 10; s.nu = 0; s.g = {0, 0, 0};
        s.distMode = r.p(0.5); s.distThr = r.pick({0.1, 0.0});
        s.implicit = true; s.comp = 1e-6; s.gamma = 0.2; s.c = 1; s.cd = 0.125 * s.l0; s.rest = 0;
        s.reN = s.reG = s.reL = s.reMax = 2.25 * s.l0;
        s.lo = {-6, -6, -6}; s.hi = {6, 6, 6};
        const double n0 = RefValues(s.dim, s.l0, s.reN).n0;
        V3 a = {r.i(-8, 8) * 0.5, r.i(-8, 8) * 0.5, r.i(-8, 8) * 0.5}, b = a;
        double nd = 0;
        int m = r.i(1, 3); // number of particles: none, one or two neighbours in a row
        sc.parts.push_back({r.pick({1, 2}), 0, a, {0, 0, 0}, 1000});
        int axis = r.i(0, 2), sign = r.pick({-1, 1});
        for (int k = 1; k < m; k++) { double d = s.l0 * k * r.pick({1.0, 0.5}); b = a; b[axis] += sign * d; sc.parts.push_back({r.pick({1, 2, 3}), 0, b, {0, 0, 0}, 1000}); nd += s.reN / d - 1; sign = -sign; }
        double thr = nd / n0;
        for (int k = 0; k < 4 && !(thr * n0 == nd && nd / n0 == thr); k++) thr = std::nextafter(thr, thr * n0 < nd ? 1e300 : -1e300);
        if (!(thr * n0 == nd && nd / n0 == thr)) { count("no exact threshold"); return; }
        int off = m == 1 ? 0 : r.i(-1, 1);
        s.ndThr = thr * (1 + off * 1e-6);
        sc.kind = "exact threshold";
        sc.mixInto(c);
        MPS mps = MPSFactory::create(sc.input());
        Tap tap;
        attach(mps, s, &tap);
        Obs o = stepObserved(mps, tap);
        if (o.exited) return;
        int want = off > 0 ? FreeSurface : Inner;
        if (off > 0 && s.distMode) want = m == 3 && dist(sc.parts[1].x, a) == dist(sc.parts[2].x, a) ? Inner : FreeSurface;
        if (o.mid2.bc[0] != want) return c.fail("number density %.17g of a particle with %d neighbours, threshold %.17g times n0 %.17g (%s%s): marked %d instead of %d", nd, m - 1, s.ndThr, n0, off < 0 ? "below" : off > 0 ? "above" : "exactly at", s.distMode ? ", distribution mode" : "", o.mid2.bc[0], want);
        count("exact density thresholds");
        c.nontrivial = true;
        return;
    }
    s.dim = 2; s.l0 = r.pick({1.0, 0.5, 0.25}); s.dt = 1.0 / 1024; s.cfl = 10; s.nu = 0; s.g = {0, 0, 0};
    s.distMode = true; s.ndThr = 100; s.distThr = r.pick({0.5, 0.75, 1.0, 1.25});
    s.implicit = true; s.comp = 1e-6; s.gamma = 0.2; s.c = 1; s.cd = 0.125 * s.l0; s.rest = 0;
    s.reN = s.reG = s.reL = s.reMax = 2.25 * s.l0;
    s.lo = {-6, -6, -6}; s.hi = {6, 6, 6};
    int axis = r.i(0, 2), sign = r.pick({-1, 1}), off = r.i(-1, 1);
    double d = s.distThr * s.l0 + off / 1024.0;
    V3 a = {r.i(-8, 8) * 0.5, r.i(-8, 8) * 0.5, r.i(-8, 8) * 0.5}, b = a;
    b[axis] += sign * d;
    int ta = r.pick({1, 2}), tb = r.pick({1, 2});
    sc.parts.push_back({ta, 0, a, {0, 0, 0}, 1000});
    sc.parts.push_back({tb, 0, b, {0, 0, 0}, 1000});
    sc.kind = "exact threshold";
    sc.mixInto(c);
    MPS m = MPSFactory::create(sc.input());
    Tap tap;
    attach(m, s, &tap);
    Obs o = stepObserved(m, tap);
    if (o.exited) return;
    int want = off > 0 ? FreeSurface : Inner;
    for (int i = 0; i < 2; i++)
        if (o.mid2.bc[i] != want) return c.fail("imbalance %.17g along axis %d (sign %d), threshold %.17g: particle %d is marked %d instead of %d", d, axis, sign, s.distThr * s.l0, i, o.mid2.bc[i], want);
    count("exact imbalance cases");
    c.nontrivial = true;
}
// P09: systems without a solution must stop the run
static void unsolvable(Case& c) {
    Rng& r = c.rng;
    Scenario sc;
    Set& s = sc.s;
    s.dim = r.i(2, 3); s.l0 = r.pick({1.0, 0.1, 0.01}); s.dt = r.pick({0.001, 0.01}); s.cfl = 100; s.nu = 0; s.g = {0, 0, 0};
    s.distMode = false; s.ndThr = -1; s.distThr = 1; s.implicit = true; s.comp = 0; s.gamma = 0.2; s.c = 1; s.cd = 0.1 * s.l0; s.rest = 0;
    s.reN = s.reG = s.reL = s.reMax = 2.5 * s.l0;
    s.lo = {-100 * s.l0, -100 * s.l0, -100 * s.l0}; s.hi = {100 * s.l0, 100 * s.l0, 100 * s.l0};
    int n = r.i(4, 30);
    for (int k = 0; k < n; k++) {
        V3 x = {s.l0 * (k % 5 + r.u(-0.2, 0.2)), s.l0 * (k / 5 + r.u(-0.2, 0.2)), 0};
        sc.parts.push_back({1, 0, x, {0, 0, 0}, 1000});
    }
    sc.kind = "no solution";
    sc.mixInto(c);
    MPS m = MPSFactory::create(sc.input());
    Tap tap;
    attach(m, s, &tap);
    Obs o = stepObserved(m, tap);
    checkPPE(c, s, o, 0);
}
// P12: Courant number exactly equal to the condition (numbers exact in binary)
static void exactCourant(Case& c) {
    Rng& r = c.rng;
    Scenario sc;
    Set& s = sc.s;
    s.dim = 2; s.l0 = r.pick({1.0, 0.5, 2.0}); s.dt = r.pick({0.5, 0.25, 0.125}); s.nu = 0; s.g = {0, 0, 0};
    s.distMode = false; s.ndThr = 2; s.distThr = 1; s.implicit = r.p(0.5); s.comp = 1e-3; s.gamma = 0.2; s.c = 1; s.cd = 0.1 * s.l0; s.rest = 0;
    s.reN = s.reG = s.reL = s.reMax = 2.25 * s.l0;
    s.lo = {-4, -4, -4}; s.hi = {24, 4, 4};
    double v = r.i(1, 16) / 8.0;
    int off = r.i(-1, 1);
    s.cfl = (v + off / 64.0) * s.dt / s.l0;
    V3 vel = {0, 0, 0};
    vel[r.i(0, 2)] = r.p(0.5) ? v : -v;
    sc.parts.push_back({1, 0, {0, 0, 0}, vel, 1000});
    sc.parts.push_back({2, 0, {20, 0, 0}, {9, 9, 9}, 1000});
    sc.mixInto(c);
    MPS m = MPSFactory::create(sc.input());
    Tap tap;
    attach(m, s, &tap);
    Obs o;
    std::string err;
    captureFd([&] { o = stepObserved(m, tap); }, err);
    if (!o.exited) checkCourant(c, s, o, err, 0);
    count("exact Courant cases");
}

// ---------------------------------------------------------------- P15: absurd states and extreme valid settings; the sanitizers judge
static void hostileSteps(Case& c, Scenario sc) {
    Rng& r = c.rng;
    Set& s = sc.s;
    auto odd = [&]() -> double { return r.pick({0.0, -0.0, 1e308, -1e308, 1e-320, 1e100, -1e17, 1e10, (double) INFINITY, -(double) INFINITY, (double) NAN, 2147483648.0, -2147483649.0, 4294967296.0, 1e19}); };
    int n = (int) sc.parts.size();
    if (n && r.p(0.005)) { // more particles within one radius than anyone would foresee
        const Part e = sc.parts[r.i(0, n - 1)];
        const double spread = r.pick({0.0, 1e-9, 0.1, 0.4}) * s.reN;
        sc.steps = 1; sc.parts.clear();
        for (int k = r.i(1100, s.implicit ? 1400 : 2600); k > 0; k--) { Part q = e; for (int ax = 0; ax < 3; ax++) q.x[ax] += spread * r.u(-0.5, 0.5); sc.parts.push_back(q); }
        n = (int) sc.parts.size();
        count("crowds of more than a thousand");
    }
    for (int k = r.i(0, 6); k > 0 && n; k--) {
        Part& p = sc.parts[r.i(0, n - 1)];
        switch (r.i(0, 7)) {
        case 0: p.x = sc.parts[r.i(0, n - 1)].x; count("coincident particles"); break;
        case 1: p.x[r.i(0, 2)] = odd(); count("odd positions"); break;
        case 2: p.v[r.i(0, 2)] = odd(); count("odd velocities"); break;
        case 3: p.type = r.pick({-1, 4, 5, 100, 2147483647, (int) (-2147483647 - 1)}); count("unknown types"); break;
        case 4: p.rho = r.pick({0.0, -1.0, 1e308, 1e-320, (double) NAN, (double) INFINITY}); count("odd densities"); break;
        case 5: for (int q = 0; q < 3; q++) p.x[q] = r.p(0.5) ? s.lo[q] : s.hi[q]; count("particles in a corner"); break;
        case 6: { int ax = r.i(0, 2); p.x[ax] = r.p(0.5) ? std::nextafter(s.hi[ax], r.p(0.5) ? 1e300 : -1e300) : std::nextafter(s.lo[ax], r.p(0.5) ? 1e300 : -1e300); count("particles one ulp from the boundary"); break; }
        default: for (int q = r.i(1, 30), from = (int) (&p - &sc.parts[0]); q > 0; q--) { Part e = sc.parts[from]; if (r.p(0.5)) e.x[0] = std::nextafter(e.x[0], 1e300); sc.parts.push_back(e); } n = (int) sc.parts.size(); count("piles of particles"); break;
        }
    }
    for (int k = r.i(0, 2); k > 0; k--) switch (r.i(0, 8)) { // unusual settings
        case 0: s.dt = r.pick({1e-12, 1e3, 1e12}); break;
        case 1: s.cd = r.pick({0.0, 5.0, 100.0}) * s.l0; break;
        case 2: s.rest = r.pick({0.0, 1.0, 2.0}); break;
        case 3: s.nu = r.pick({0.0, 1e6, 1e-300}); break;
        case 4: s.comp = r.pick({0.0, 1e-300, 1e300}); break;
        case 5: s.gamma = r.pick({0.0, 1.0, 1e300}); break;
        case 6: s.c = r.pick({0.0, 1e200}); break;
        case 7: s.ndThr = r.pick({-1.0, 0.0, 1e300}); break;
        default: s.reG = r.pick({0.5, 1.01, 6.0}) * s.l0; s.reMax = std::max({s.reN, s.reG, s.reL}); break;
    }
    if (r.p(0.1)) for (int k = 0; k < 3; k++) s.hi[k] = s.lo[k]; // a domain without extent
    sc.mixInto(c);
    for (auto& p : sc.parts) { c.mix(p.type); c.mix(p.rho); }
    c.sample = sc.describe();
    fs::path dir = fs::path(gWorkDir) / "hs";
    if (callsExit([&] {
            MPS m = MPSFactory::create(sc.input());
            for (int t = 0; t < sc.steps; t++) m.stepForward();
            if (r.p(0.1)) { Saver sv(dir, r.p(0.5)); sv.save(m, 0); count("hostile states saved"); }
        })) count("hostile states that stopped the run");
    else count("hostile states stepped through");
    fs::remove_all(dir);
    if (n) c.nontrivial = true;
}

// ---------------------------------------------------------------- P20
// A settings file in random notation; returns the scenario it describes (numbers as the file gives them).
static std::string yamlNum(Rng& r, double v) {
    std::string t = fmt("%.17g", v);
    if (std::isfinite(v) && t.find_first_of("e.") != std::string::npos) {
        int k = r.i(0, 5);
        if (k == 0) return fmt("%.16e", v);
        if (k == 1) { std::string u = fmt("%.17E", v); return u; }
        if (k == 2 && t[0] != '-') return "+" + t;
    } else if (v == (int) v && std::fabs(v) < 1e9) {
        int k = r.i(0, 3);
        if (k == 0) return t + ".0";
        if (k == 1) return t + ".";
        if (k == 2) return fmt("%.1f", v);
    }
    return t;
}
static std::string yamlBool(Rng& r, bool b) { return b ? r.pick({"true", "True", "TRUE", "yes", "Yes", "on", "y"}) : r.pick({"false", "False", "FALSE", "no", "No", "off", "n"}); }
static bool settingsAsGiven(Case& c, Scenario& sc, std::unique_ptr<MPS>& out) {
    Rng& r = c.rng;
    Set& s = sc.s;
    double rN = s.reN / s.l0, rG = s.reG / s.l0, rL = s.reL / s.l0, rC = s.cd / s.l0;
    s.reN = rN * s.l0; s.reG = rG * s.l0; s.reL = rL * s.l0; s.cd = rC * s.l0;
    s.reMax = std::max({s.reN, s.reG, s.reL});
    for (auto& p : sc.parts) { p.ftype = 0; p.rho = sc.defaultDensity; }
    Input want = sc.input();
    Settings& w = want.settings;
    w.endTime = r.p(0.3) ? r.i(0, 10) : r.lu(1e-3, 1e3);
    w.outputPeriod = r.lu(1e-3, 1e3);
    w.numPhysicalCores = r.i(1, 64);
    w.outputVtkInBinary = r.p(0.5);
    struct KV { std::string k, v; bool seq; std::vector<std::string> items; };
    std::vector<KV> y;
    auto put = [&](const char* k, std::string v) { y.push_back({k, v, false, {}}); };
    auto seq = [&](const char* k, double a, double b, double d) { y.push_back({k, "", true, {yamlNum(r, a), yamlNum(r, b), yamlNum(r, d)}}); };
    auto num = [&](const char* k, double v) { put(k, yamlNum(r, v)); };
    put("dim", fmt("%d", w.dim)); num("particleDistance", w.particleDistance); num("dt", w.dt); num("endTime", w.endTime); num("outputPeriod", w.outputPeriod); num("cflCondition", w.cflCondition);
    put("numPhysicalCores", fmt("%d", w.numPhysicalCores));
    seq("domainMin", s.lo[0], s.lo[1], s.lo[2]); seq("domainMax", s.hi[0], s.hi[1], s.hi[2]);
    num("defaultDensity", w.defaultDensity); num("kinematicViscosity", w.kinematicViscosity);
    seq("gravity", w.gravity[0], w.gravity[1], w.gravity[2]);
    if (sc.normAngle || r.p(0.5)) put("xyz-input", yamlBool(r, w.xyzInput));
    else count("files without xyz-input");
    if (sc.normAngle && w.gNorm == 0 && r.p(0.7)) { count("files without gravity-norm"); w.gNorm = 0; }
    else if (sc.normAngle || r.p(0.5)) num("gravity-norm", w.gNorm);
    else w.gNorm = 0;
    if (sc.normAngle && w.gAngle == 0 && r.p(0.7)) { count("files without gravity-angle"); w.gAngle = 0; }
    else if (sc.normAngle || r.p(0.5)) num("gravity-angle", w.gAngle);
    else w.gAngle = 0;
    num("surfaceDetection-numberDensity-threshold", w.surfaceDetection_numberDensity_threshold);
    put("surfaceDetection-particleDistribution", yamlBool(r, w.surfaceDetection_particleDistribution));
    num("surfaceDetection-particleDistribution-threshold", w.surfaceDetection_particleDistribution_threshold);
    put("pressureCalculationMethod", r.p(0.3) ? "\"" + w.pressureCalculationMethod + "\"" : r.p(0.3) ? "'" + w.pressureCalculationMethod + "'" : w.pressureCalculationMethod);
    num("compressibility", w.compressibility); num("relaxationCoefficientForPressure", w.relaxationCoefficientForPressure); num("soundSpeed", w.soundSpeed);
    num("collisionDistanceRatio", rC); num("coefficientOfRestitution", w.coefficientOfRestitution);
    num("radiusRatioForNumberDensity", rN); num("radiusRatioForGradient", rG); num("radiusRatioForLaplacian", rL);
    if (w.outputVtkInBinary || r.p(0.4)) put("outputVtkInBinary", yamlBool(r, w.outputVtkInBinary));
    else count("files without outputVtkInBinary");
    if (r.p(0.3)) put("someOtherKey", "[1, 2, {a: b}]");
    // location of both files
    static int serial = 0;
    fs::path base = fs::path(gWorkDir) / fmt("y%d", serial++);
    fs::path setDir = base / (r.p(0.5) ? "" : r.p(0.5) ? "a" : "a/b c");
    fs::path partDir = r.p(0.4) ? setDir : base / (r.p(0.5) ? "particles" : "a/b c/d");
    fs::create_directories(setDir); fs::create_directories(partDir); fs::create_directories(base / "out");
    std::string pname = r.p(0.5) ? "input.prof" : r.p(0.5) ? "p q.prof" : "in.v2.prof";
    fs::path rel = fs::relative(partDir / pname, setDir);
    std::string ptxt = rel.string();
    int form = r.i(0, 3);
    if (form == 0) ptxt = "./" + ptxt;
    if (form == 1) { ptxt = (partDir / pname).string(); count("absolute particle paths"); }
    if (form == 2) { fs::create_directories(setDir / "x"); ptxt = "x/../" + ptxt; }
    put("particlesPath", ptxt.find(' ') != std::string::npos || r.p(0.3) ? "\"" + ptxt + "\"" : ptxt);
    for (int k = (int) y.size() - 1; k > 0; k--) std::swap(y[k], y[r.i(0, k)]);
    {
        std::ofstream f(setDir / "set.yml", std::ios::binary);
        if (r.p(0.2)) f << "---\n";
        for (auto& e : y) {
            if (r.p(0.1)) f << "# comment: 1\n";
            if (r.p(0.1)) f << "\n";
            if (!e.seq) f << e.k << ":" << (r.p(0.2) ? "   " : " ") << e.v;
            else if (r.p(0.6)) f << e.k << ": [" << e.items[0] << ", " << e.items[1] << (r.p(0.5) ? ", " : ",") << e.items[2] << "]";
            else f << e.k << ":\n  - " << e.items[0] << "\n  - " << e.items[1] << "\n  - " << e.items[2];
            if (r.p(0.1)) f << "   # " << e.k;
            f << "\n";
        }
    }
    double t0 = r.p(0.5) ? 0 : r.u(-1, 5);
    auto prof = [&](const fs::path& p, bool decoy) {
        std::ofstream f(p, std::ios::binary);
        f << fmt("%.17g\n%zu\n", decoy ? t0 + 1 : t0, sc.parts.size());
        for (auto& q : sc.parts) f << fmt("%d %.17g %.17g %.17g %.17g %.17g %.17g\n", q.type, q.x[0], q.x[1], q.x[2], q.v[0], q.v[1], q.v[2]);
    };
    prof(partDir / pname, false);
    // the same relative path seen from the working directory leads to another file
    fs::path cwd = fs::current_path(), other = base / "elsewhere";
    fs::create_directories(other);
    if (form != 1) {
        std::error_code ec;
        fs::path d = other / ptxt;
        if (form == 2) fs::create_directories(other / "x", ec);
        fs::create_directories(d.parent_path(), ec);
        if (!fs::exists(d)) prof(d, true);
    }
    fs::current_path(other);
    fs::path sp = r.p(0.5) ? setDir / "set.yml" : fs::relative(setDir / "set.yml", other);
    if (r.p(0.2)) { fs::current_path(setDir); sp = "set.yml"; count("settings in the working directory"); }
    Input in;
    int code = 0;
    bool ex = false;
    std::string what;
    try { ex = callsExit([&] { Loader l; in = l.load(sp, base / "out"); }, &code); } catch (const std::exception& e) { what = e.what(); }
    fs::current_path(cwd);
    std::string where = "settings " + sp.string() + ", particles " + ptxt;
    auto bad = [&](const std::string& m) { c.fail("%s (%s)", m.c_str(), where.c_str()); fs::remove_all(base); return false; };
    if (ex || !what.empty()) return bad("valid settings were rejected: " + what);
    const Settings& g = in.settings;
#define SAME(f) if (!(g.f == w.f)) return bad(fmt("setting " #f " is %.17g, the file says %.17g", (double) g.f, (double) w.f));
    SAME(dim) SAME(particleDistance) SAME(dt) SAME(endTime) SAME(outputPeriod) SAME(cflCondition) SAME(numPhysicalCores) SAME(kinematicViscosity) SAME(defaultDensity) SAME(xyzInput)
    SAME(gravity[0]) SAME(gravity[1]) SAME(gravity[2]) SAME(gNorm) SAME(gAngle) SAME(surfaceDetection_numberDensity_threshold) SAME(surfaceDetection_particleDistribution) SAME(surfaceDetection_particleDistribution_threshold)
    SAME(compressibility) SAME(relaxationCoefficientForPressure) SAME(soundSpeed) SAME(coefficientOfRestitution) SAME(outputVtkInBinary)
    SAME(domain.xMin) SAME(domain.yMin) SAME(domain.zMin) SAME(domain.xMax) SAME(domain.yMax) SAME(domain.zMax)
#undef SAME
    if (g.pressureCalculationMethod != w.pressureCalculationMethod) return bad("pressure method is " + g.pressureCalculationMethod);
#define NEAR(f) if (!(std::fabs(g.f - w.f) <= 4e-16 * std::fabs(w.f) + 4e-16 * std::fabs(w.domain.xMax) * 0)) return bad(fmt("setting " #f " is %.17g instead of %.17g", g.f, w.f));
    NEAR(collisionDistance) NEAR(re_forNumberDensity) NEAR(re_forGradient) NEAR(re_forLaplacian) NEAR(reMax) NEAR(domain.xLength) NEAR(domain.yLength) NEAR(domain.zLength)
#undef NEAR
    if (in.startTime != t0) return bad(fmt("start time is %.17g, the particle file says %.17g: another file was loaded", in.startTime, t0));
    if (in.particles.size() != (int) sc.parts.size()) return bad("another particle file was loaded");
    count("settings files compared");
    count(w.xyzInput ? "xyz gravity" : "norm and angle gravity");
    if (w.reMax == w.re_forNumberDensity) count("number density radius largest"); else if (w.reMax == w.re_forLaplacian) count("laplacian radius largest"); else count("gradient radius largest");
    c.nontrivial = true;
    fs::remove_all(base);
    out = std::make_unique<MPS>(MPSFactory::create(in));
    return true;
}

static void run(Case& c) {
    const std::string& P = c.prop;
    if (P == "P08" && c.rng.p(0.15)) return exactSurface(c);
    if (P == "P09" && c.rng.p(0.04)) return unsolvable(c);
    if (P == "P12" && c.rng.p(0.15)) return exactCourant(c);
    GenOpt o;
    if (P == "P02") { o.tight = 0.9; o.speed = 0.4; }
    if (P == "P03") { o.tight = 0.3; o.overlap = c.rng.p(0.4) ? 0.5 : -1; o.speed = 0.3; }
    if (P == "P05") { o.tight = 0.15; }
    if (P == "P06") { o.tight = 0.1; o.overlap = 0.5; o.speed = 0.25; }
    if (P == "P07") { o.overlap = c.rng.p(0.3) ? 0.5 : -1; o.tight = 0.4; }
    if (P == "P09") { o.forceMethod = 1; o.maxSteps = 3; o.big = 0.0; o.tight = 0.2; }
    if (P == "P08") { o.forceMethod = 1; o.maxSteps = 3; o.big = 0.002; }
    if (P == "P12") o.big = 0.002;
    if (P == "P15") { o.maxN = 80; o.big = 0.005; o.tight = 0.6; o.overlap = c.rng.p(0.4) ? 0.5 : -1; o.speed = c.rng.p(0.7) ? 0.3 : 1e4; }
    if (P == "P20") { o.maxN = 50; o.big = 0; o.maxSteps = 2; o.tight = 0.3; o.overlap = c.rng.p(0.3) ? 0.5 : -1; o.wallSpeed = false; }
    if (P == "P10") o.forceMethod = 0;
    if (P == "P13") { o.tight = 0.4; o.overlap = c.rng.p(0.2) ? 0.5 : -1; }
    if (P == "P25") { o.tight = 0.1; o.big = 0; o.maxN = 90; o.overlap = c.rng.p(0.2) ? 0.5 : -1; o.speed = 0.1; }
    if (P != "P15" && P != "P25") o.longRun = P == "P20" ? 0.004 : 0.012;
    if (c.thorough) { o.longSteps = 1200; o.maxSteps += 4; o.big *= 2; o.maxRatio = 5.6; }
    Scenario sc = genScenario(c.rng, o);
    if ((P == "P03" || P == "P06" || P == "P10" || P == "P11") && c.rng.p(P == "P06" ? 0.2 : 0.1)) { // fluids as different as air and mercury, and more
        const double spread = c.rng.lu(3, 1e5);
        for (auto& p : sc.parts) p.rho *= c.rng.p(0.4) ? 1 : c.rng.lu(1 / spread, spread);
        if (!sc.longRun) sc.steps = std::min(sc.steps, 3);
        count("problems with very different densities");
    }
    if ((P == "P05" || P == "P07" || P == "P09" || P == "P10" || P == "P11" || P == "P12") && !sc.longRun && !sc.parts.empty() && sc.parts.size() < 400 && c.rng.p(0.06)) { // particles almost upon each other, and collisions that hardly reach them
        sc.s.cd *= c.rng.p(0.3) ? 0.0 : c.rng.lu(1e-4, 0.1);
        const int n = (int) sc.parts.size(), m = c.rng.i(1, std::min(n, 8));
        for (int k = 0; k < m; k++) {
            const Part& q = sc.parts[c.rng.i(0, n - 1)];
            Part p = sc.parts[c.rng.i(0, n - 1)];
            V3 d = {c.rng.gauss(), c.rng.gauss(), sc.s.dim == 3 ? c.rng.gauss() : 0.0};
            const double len = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), gap = sc.s.l0 * c.rng.lu(P == "P09" ? 1e-2 : 1e-4, 0.1);
            p.x = q.x;
            for (int i = 0; i < 3; i++) p.x[i] += gap * d[i] / len;
            bool same = false;
            for (auto& o : sc.parts) same |= o.x == p.x;
            if (!same) sc.parts.push_back(p);
        }
        sc.steps = std::min(sc.steps, 2);
        count("problems with particles almost upon each other");
    }
    if ((P == "P05" || P == "P07" || P == "P11" || P == "P12") && !sc.longRun && c.rng.p(0.06)) { // stiffer than any sensible time step
        sc.s.nu *= c.rng.lu(10, 500);
        sc.steps = std::min(sc.steps, 3);
        count("problems with a very viscous fluid");
    }
    sc.mixInto(c);
    c.sample = sc.describe();
    if (P == "P15") return hostileSteps(c, sc);
    if (P == "P13") return splitRun(c, sc);
    if (P == "P25") return metamorphic(c, sc);
    if (P == "P02" && c.rng.p(0.35)) ghostRemoval(c, sc);
    std::unique_ptr<MPS> made;
    if (P == "P20") { if (!settingsAsGiven(c, sc, made)) return; }
    else made = std::make_unique<MPS>(MPSFactory::create(sc.input()));
    MPS& m = *made;
    if (!near(V3{m.gravity.x(), m.gravity.y(), m.gravity.z()}, sc.s.g, 1e-12 * amax(sc.s.g) + 1e-13 * sc.gNorm) && (P == "P05" || P == "P20"))
        return c.fail("gravity is %s, expected %s (norm %.17g angle %.17g)", str({m.gravity.x(), m.gravity.y(), m.gravity.z()}).c_str(), str(sc.s.g).c_str(), sc.gNorm, sc.gAngle);
    Tap tap;
    attach(m, sc.s, &tap);
    std::vector<double> inj;
    for (int t = 0; t < sc.steps && !c.failed; t++) {
        if (!finite(snap(m.particles))) { count("stopped: not finite"); return; }
        const std::vector<double>* pi = nullptr;
        if (P == "P11" && c.rng.p(sc.longRun ? 0.3 : 0.6)) { // arbitrary pressure fields
            inj.assign(m.particles.size(), 0.0);
            double sc0 = c.rng.lu(1e-3, 0.2) * sc.defaultDensity * sc.s.l0 * sc.s.l0 / (sc.s.dt * sc.s.dt) * (sc.longRun ? 1e-3 : 1.0);
            int mode = c.rng.i(0, 3);
            for (size_t k = 0; k < inj.size(); k++) inj[k] = mode == 0 ? sc0 * c.rng.u() : mode == 1 ? sc0 * c.rng.u(-1, 1) : mode == 2 ? (c.rng.p(0.7) ? 0 : sc0) : sc0 * m.particles[k].position.y() / sc.s.l0;
            if (mode == 3) for (auto& q : inj) q = std::max(-10 * sc0, std::min(10 * sc0, q));
            pi = &inj;
        }
        Obs ob;
        std::string err;
        bool wantNb = P == "P01" || P == "P02";
        if (P == "P12" || P == "P20") captureFd([&] { ob = stepObserved(m, tap, wantNb, pi); }, err);
        else ob = stepObserved(m, tap, wantNb, pi);
        if (ob.exited) {
            if (P == "P09" || P == "P20") checkPPE(c, sc.s, ob, t);
            else count("solver gave up");
            return;
        }
        if (ob.calls < 1) return c.fail("step %d: pressure was not calculated", t);
        count("steps observed");
        if (t >= 50) count("steps observed beyond the fiftieth");
        count("particle-steps", ob.before.n);
        if (P == "P01") checkNeighbours(c, sc.s, ob.mid, t);
        else if (P == "P02") checkGhosts(c, sc.s, ob, predict(sc.s, ob.before), t);
        else if (P == "P03") checkIdentity(c, sc, m, ob, t);
        else if (P == "P05") checkPrediction(c, sc.s, ob, predict(sc.s, ob.before), t, false);
        else if (P == "P06") checkCollisions(c, sc.s, ob, predict(sc.s, ob.before), t);
        else if (P == "P07") checkNumberDensity(c, sc.s, m, ob, t);
        else if (P == "P08") checkSurface(c, sc.s, ob, t);
        else if (P == "P09") checkPPE(c, sc.s, ob, t);
        else if (P == "P10") checkEOS(c, sc.s, ob, t);
        else if (P == "P11") checkGradient(c, sc.s, ob, t);
        else if (P == "P12") checkCourant(c, sc.s, ob, err, t);
        else if (P == "P20") { // what each setting does to a step
            Pred p = predict(sc.s, ob.before);
            checkPrediction(c, sc.s, ob, p, t, false); checkCollisions(c, sc.s, ob, p, t); checkNumberDensity(c, sc.s, m, ob, t);
            if (sc.s.implicit) { checkSurface(c, sc.s, ob, t); checkPPE(c, sc.s, ob, t); } else checkEOS(c, sc.s, ob, t);
            checkGradient(c, sc.s, ob, t); checkCourant(c, sc.s, ob, err, t);
            count(sc.s.implicit ? "implicit steps with loaded settings" : "explicit steps with loaded settings");
        } else { c.fail("unknown property"); return; }
    }
}
int main(int argc, char** argv) { return harnessMain(argc, argv, run); }
