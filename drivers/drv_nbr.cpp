// Histories of one neighbour searcher: particles move, jump, change type and leave between updates;
// after every update all lists are compared with a brute-force search over exact comparisons.
#include "harness.hpp"
#include "oracle.hpp"
#include "neighbor_searcher.hpp"
#include <algorithm>
#include <cmath>

static double amax(const Eigen::Vector3d& a) { return a.cwiseAbs().maxCoeff(); }

static void run(Case& c) {
    Rng& r = c.rng;
    const bool dyadic = r.p(0.5); // all coordinates multiples of 2^-k: distances exactly at the radius are decided exactly
    const int dim = r.p(0.5) ? 2 : 3;
    double unit = dyadic ? std::ldexp(1.0, r.i(-12, 8)) : r.lu(1e-4, 1e3);
    double re   = dyadic ? unit * r.pick({4, 5, 8, 10, 13, 16}) : unit * r.u(2, 16);
    auto q = [&](double x) { return dyadic ? unit * std::floor(x / unit) : x; };
    Domain d;
    double lo[3], hi[3];
    double off = r.p(0.4) ? 0.0 : r.pick({1.0, -1.0}) * re * r.pick({1.0, 10.0, 1000.0});
    for (int k = 0; k < 3; k++) {
        lo[k] = q(off * r.u() + re * r.u(-3, 3));
        int kind = r.i(0, 4);
        double len = kind == 0 ? re * r.i(0, 5) : kind == 1 ? re * r.u(0, 1) : re * r.u(0, dim == 3 ? 5.0 : 9.0); // exact multiples of the cell, flatter than a cell, generic
        if (k == 2 && dim == 2) { len = r.p(0.6) ? 0.0 : re * r.u(0, 2); if (r.p(0.4)) lo[k] = 0; }
        hi[k] = lo[k] + q(len);
        if (!dyadic && kind == 0) hi[k] = lo[k] + len;
    }
    const bool large = c.index % 3001 == 11, longBox = c.index % 501 == 13; // more particles, or more cells along an axis, than 16 bits can count
    int n = r.p(0.1) ? r.i(0, 3) : r.p(0.05) ? r.i(200, 900) : r.i(4, 160);
    if (large) {
        n = r.i(33000, 72000);
        double side = re * (dim == 2 ? std::sqrt(n / 7.0) : std::cbrt(n / 7.0)), aspect = r.u(0.5, 2);
        for (int k = 0; k < dim; k++) hi[k] = lo[k] + q(side * (k == 0 ? aspect : k == 1 ? 1 / aspect : 1));
        if (dim == 2) hi[2] = lo[2];
    }
    if (longBox) {
        for (int k = 0; k < 3; k++) hi[k] = lo[k] + q(re * r.u(0, 3));
        if (r.p(0.5)) { int k = r.i(0, 2); hi[k] = lo[k] + q(re * r.u(33000, 70000)); }
        else for (int k = 0; k < 3; k++) if (k != 2 || dim == 3) hi[k] = lo[k] + q(re * (dim == 3 ? r.u(60, 140) : r.u(300, 1200)));
    }
    d.xMin = lo[0]; d.xMax = hi[0]; d.yMin = lo[1]; d.yMax = hi[1]; d.zMin = lo[2]; d.zMax = hi[2];
    d.xLength = hi[0] - lo[0]; d.yLength = hi[1] - lo[1]; d.zLength = hi[2] - lo[2];
    double at = 0; // where a long box is crowded
    auto coord = [&](int k) -> double {
        double p = r.u();
        if (large && p < 0.96) return q(lo[k] + (hi[k] - lo[k]) * r.u());
        if (longBox && p < 0.6) return lo[k] + (hi[k] - lo[k]) * at + (hi[k] - lo[k] > 4 * re ? q(re * r.u(-1.5, 1.5)) : (hi[k] - lo[k]) * r.u(-1, 1) * 0.3);
        if (p < 0.06) return lo[k];
        if (p < 0.12) return hi[k];
        if (p < 0.15) return std::nextafter(lo[k], -1e300);
        if (p < 0.18) return std::nextafter(hi[k], 1e300);
        if (p < 0.28) { double x = lo[k] + re * r.i(0, 9); return x <= hi[k] ? x : hi[k]; } // on a cell boundary
        if (p < 0.30) return std::nextafter(lo[k] + re * r.i(1, 9), r.p(0.5) ? -1e300 : 1e300);
        if (p < 0.315) return r.p(0.5) ? hi[k] + re * r.u(0, 3) : lo[k] - re * r.u(0, 3);
        if (p < 0.317) return r.pick({(double) NAN, (double) INFINITY, (double) -INFINITY, 1e300, -1e18, 3e9});
        return q(lo[k] + (hi[k] - lo[k]) * r.u());
    };
    auto position = [&] {
        if (longBox) at = r.pick({0.0, 0.25, 0.5, 0.96875, 1.0});
        Eigen::Vector3d x(coord(0), coord(1), coord(2));
        if (dim == 2 && r.p(0.9)) x.z() = lo[2] <= 0 && hi[2] >= 0 ? 0 : lo[2];
        return x;
    };
    Particles ps;
    for (int i = 0; i < n; i++) {
        int t = r.p(0.6) ? 1 : r.i(0, 3);
        ps.add(Particle(i, static_cast<ParticleType>(t), position(), Eigen::Vector3d(0, 0, 0), 1000, 0));
    }
    c.mix(re); for (int k = 0; k < 3; k++) { c.mix(lo[k]); c.mix(hi[k]); }
    for (auto& p : ps) for (int k = 0; k < 3; k++) c.mix(p.position[k]);
    NeighborSearcher searcher(re, d, n);
    int rounds = large ? 2 : r.i(1, c.thorough ? 12 : 6);
    c.sample = fmt("%dD, %d particles, radius %.6g, box [%.6g,%.6g]x[%.6g,%.6g]x[%.6g,%.6g], %d updates, %s coordinates", dim, n, re, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], rounds, dyadic ? "dyadic" : "generic");
    for (int t = 0; t < rounds; t++) {
        if (t)
            for (auto& p : ps) { // a move of the history
                double w = r.u();
                if (w < 0.1) p.position = position();
                else if (w < 0.5) for (int k = 0; k < (dim == 2 ? 2 : 3); k++) p.position[k] = std::isfinite(p.position[k]) ? p.position[k] + q(re * r.u(-0.4, 0.4)) : p.position[k];
                else if (w < 0.52 && p.type != ParticleType::Ghost) p.type = static_cast<ParticleType>(r.i(1, 3));
                else if (w < 0.53) p.type = ParticleType::Ghost;
                else if (w < 0.6 && n > 1) { // exactly one radius away from another particle
                    auto& o = ps[r.i(0, n - 1)];
                    Eigen::Vector3d x = o.position;
                    x[r.i(0, dim - 1)] += r.pick({1.0, -1.0}) * re;
                    p.position = x;
                }
            }
        std::vector<int> before(n), type(n);
        std::vector<Eigen::Vector3d> x(n);
        for (int i = 0; i < n; i++) { before[i] = (int) ps[i].type; x[i] = ps[i].position; }
        searcher.setNeighbors(ps);
        if (ps.size() != n) return c.fail("update %d: %d particles became %d", t, n, ps.size());
        for (int i = 0; i < n; i++) {
            bool in = true;
            for (int k = 0; k < 3; k++) if (!(x[i][k] >= lo[k] && x[i][k] <= hi[k])) in = false;
            type[i] = in ? before[i] : 0;
            if ((int) ps[i].type != type[i]) return c.fail("update %d: particle %d at (%.17g, %.17g, %.17g), type %d, has type %d afterwards in box [%.17g,%.17g]x[%.17g,%.17g]x[%.17g,%.17g]", t, i, x[i][0], x[i][1], x[i][2], before[i], (int) ps[i].type, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
            if (memcmp(ps[i].position.data(), x[i].data(), 24)) return c.fail("update %d moved particle %d", t, i);
            if (in && before[i]) {
                bool b = false;
                for (int k = 0; k < 3; k++) b |= x[i][k] == lo[k] || x[i][k] == hi[k];
                if (b) count("particles on the boundary");
            } else if (before[i]) count("particles that left");
        }
        std::vector<char> seen(n);
        std::vector<int> order; // of a large set only the particles in three strips along y, and there near in y, need a look
        for (int i = 0; i < n; i++) if (type[i]) order.push_back(i);
        const double strip = re * (1 + 1e-9) + 1e-12 * std::max(std::max(std::fabs(lo[0]), std::fabs(hi[0])), std::max(std::fabs(lo[1]), std::fabs(hi[1])));
        struct Entry { double y, z; int i; };
        std::map<int, std::vector<Entry>> strips;
        if (large) {
            for (int i : order) strips[(int) std::floor((x[i][0] - lo[0]) / strip)].push_back({x[i][1], x[i][2], i});
            for (auto& s : strips) std::sort(s.second.begin(), s.second.end(), [](const Entry& a, const Entry& b) { return a.y < b.y || (a.y == b.y && a.i < b.i); });
        }
        for (int i = 0; i < n; i++) {
            if (!type[i]) continue;
            if (!large) std::fill(seen.begin(), seen.end(), 0);
            for (auto& q : ps[i].neighbors) {
                if (q.id < 0 || q.id >= n) return c.fail("update %d: neighbour list of %d contains %d", t, i, q.id);
                if (q.id == i) return c.fail("update %d: particle %d is its own neighbour", t, i);
                if (seen[q.id]++) return c.fail("update %d: neighbour list of %d contains %d twice", t, i, q.id);
                if (!type[q.id]) return c.fail("update %d: ghost %d is a neighbour of %d", t, q.id, i);
                double dist = (x[q.id] - x[i]).norm();
                if (!(std::fabs(q.distance - dist) <= 1e-14 * dist)) return c.fail("update %d: distance %d-%d is %.17g, listed as %.17g", t, i, q.id, dist, q.distance);
            }
            count("neighbours", ps[i].neighbors.size());
            size_t inWindow = 0;
            std::vector<int> near;
            if (large)
                for (int k = -1, m = (int) std::floor((x[i][0] - lo[0]) / strip); k <= 1; k++) {
                    auto it = strips.find(m + k);
                    if (it == strips.end()) continue;
                    auto& s = it->second;
                    const double y0 = x[i][1] - strip, y1 = x[i][1] + strip, z0 = x[i][2] - strip, z1 = x[i][2] + strip;
                    size_t e = std::lower_bound(s.begin(), s.end(), y0, [](const Entry& a, double y) { return a.y < y; }) - s.begin();
                    for (const Entry *f = s.data() + e, *end = s.data() + s.size(); f != end && f->y <= y1; ++f) if (f->z >= z0 && f->z <= z1) near.push_back(f->i);
                }
            for (int j : large ? near : order) {
                if (j == i) continue;
                inWindow += seen[j];
                double dx = x[j][0] - x[i][0], dy = x[j][1] - x[i][1], dz = x[j][2] - x[i][2];
                long double d2 = (long double) dx * dx + (long double) dy * dy + (long double) dz * dz, r2 = (long double) re * re;
                bool want = d2 < r2;
                if (want == (bool) seen[j]) { if (d2 == r2) count("pairs exactly at the radius"); continue; }
                // rounding of generic coordinates may decide within this
                long double slack = r2 * 1e-13L + re * 4e-16L * (amax(x[i]) + amax(x[j]));
                if (!dyadic && fabsl(d2 - r2) <= slack) { count("pairs within rounding of the radius"); continue; }
                if (dyadic && fabsl(d2 - r2) <= r2 * 3e-16L && d2 != r2) { count("pairs within rounding of the radius"); continue; }
                return c.fail("update %d: particle %d at (%.17g, %.17g, %.17g) and %d at (%.17g, %.17g, %.17g), distance %.17Lg, radius %.17g: %s in the list (box from (%.17g, %.17g, %.17g) to (%.17g, %.17g, %.17g))", t, i, x[i][0], x[i][1], x[i][2], j, x[j][0], x[j][1], x[j][2], sqrtl(d2), re, want ? "missing" : "wrongly", lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
            }
            if (inWindow != ps[i].neighbors.size()) return c.fail("update %d: %zu of the %zu particles in the neighbour list of %d are farther than the radius", t, ps[i].neighbors.size() - inWindow, ps[i].neighbors.size(), i);
            if (large) for (auto& q : ps[i].neighbors) seen[q.id] = 0;
            count(large ? "neighbour lists compared among more than 32768 particles" : "neighbour lists compared");
            if (longBox && !ps[i].neighbors.empty()) count("neighbour lists compared in boxes of very many cells");
        }
        count("updates");
        if (t) count("updates after moves");
    }
    if (n > 1) c.nontrivial = true;
}
int main(int argc, char** argv) { return harnessMain(argc, argv, run); }
