// Random simulation problems: particle arrangements and settings.
#pragma once
#include "harness.hpp"
#include "oracle.hpp"
#include "input.hpp"
#include "mps.hpp"
#include "mps_factory.hpp"
#include "pressure_calculator/explicit.hpp"
#include <algorithm>
#include <cmath>
#include <memory>

struct Part { int type, ftype; orc::V3 x, v; double rho; };
struct Scenario {
    std::vector<Part> parts;
    orc::Set s;
    bool normAngle = false;
    double gNorm = 0, gAngle = 0;
    double startTime = 0, defaultDensity = 1000;
    int steps = 1;
    bool longRun = false;
    std::string kind;

    Input input() const {
        Input in;
        Settings& t        = in.settings;
        t.dim              = s.dim;
        t.particleDistance = s.l0;
        t.dt               = s.dt;
        t.endTime          = 1.0;
        t.outputPeriod     = 1.0;
        t.cflCondition     = s.cfl;
        t.numPhysicalCores = 1;
        t.domain.xMin = s.lo[0]; t.domain.xMax = s.hi[0];
        t.domain.yMin = s.lo[1]; t.domain.yMax = s.hi[1];
        t.domain.zMin = s.lo[2]; t.domain.zMax = s.hi[2];
        t.domain.xLength = s.hi[0] - s.lo[0];
        t.domain.yLength = s.hi[1] - s.lo[1];
        t.domain.zLength = s.hi[2] - s.lo[2];
        t.kinematicViscosity = s.nu;
        t.defaultDensity     = defaultDensity;
        t.xyzInput           = !normAngle;
        if (normAngle) t.gravity = Eigen::Vector3d(3.0, 2.0, 1.0) * (1 + gNorm); // must be ignored
        else t.gravity = Eigen::Vector3d(s.g[0], s.g[1], s.g[2]);
        t.gNorm  = normAngle ? gNorm : 123.0;
        t.gAngle = normAngle ? gAngle : 45.0;
        t.surfaceDetection_numberDensity_threshold        = s.ndThr;
        t.surfaceDetection_particleDistribution           = s.distMode;
        t.surfaceDetection_particleDistribution_threshold = s.distThr;
        t.pressureCalculationMethod        = s.implicit ? "Implicit" : "Explicit";
        t.compressibility                  = s.comp;
        t.relaxationCoefficientForPressure = s.gamma;
        t.soundSpeed                       = s.c;
        t.collisionDistance                = s.cd;
        t.coefficientOfRestitution         = s.rest;
        t.re_forNumberDensity = s.reN;
        t.re_forGradient      = s.reG;
        t.re_forLaplacian     = s.reL;
        t.reMax               = s.reMax;
        for (auto& p : parts)
            in.particles.add(Particle(in.particles.size(), static_cast<ParticleType>(p.type), Eigen::Vector3d(p.x[0], p.x[1], p.x[2]),
                                      Eigen::Vector3d(p.v[0], p.v[1], p.v[2]), p.rho, p.ftype));
        in.startTime = startTime;
        return in;
    }
    void mixInto(Case& c) const {
        for (auto& p : parts) { c.mix(p.type); for (int k = 0; k < 3; k++) { c.mix(p.x[k]); c.mix(p.v[k]); } c.mix(p.rho); }
        for (double d : {s.l0, s.dt, s.nu, s.g[0], s.g[1], s.g[2], s.ndThr, s.distThr, s.comp, s.gamma, s.c, s.cd, s.rest, s.reN, s.reG, s.reL, s.lo[0], s.hi[0]}) c.mix(d);
    }
    std::string describe() const {
        return fmt("%s: %dD, %zu particles, l0=%.4g dt=%.4g %s%s, re/l0=(N %.3g, G %.3g, L %.3g), nu=%.3g g=(%.3g,%.3g,%.3g), cd/l0=%.3g e=%.2g, box [%.4g,%.4g]x[%.4g,%.4g]x[%.4g,%.4g], %d steps",
                   kind.c_str(), s.dim, parts.size(), s.l0, s.dt, s.implicit ? "implicit" : "explicit", s.distMode ? "+distribution" : "", s.reN / s.l0, s.reG / s.l0, s.reL / s.l0,
                   s.nu, s.g[0], s.g[1], s.g[2], s.cd / s.l0, s.rest, s.lo[0], s.hi[0], s.lo[1], s.hi[1], s.lo[2], s.hi[2], steps);
    }
};

inline double minSep(const std::vector<Part>& ps, const orc::V3& x) {
    double m = 1e300;
    for (auto& p : ps) m = std::min(m, orc::dist(p.x, x));
    return m;
}

struct GenOpt {
    int maxN = 130;
    double overlap = -1;   // probability that a particle is put close to another one
    double tight = 0.35;   // probability of a tight domain
    double sepMin = 0.35;  // smallest initial separation in units of l0 (of non-overlapping arrangements)
    double speed = 0.15;   // typical displacement per step in units of l0
    int maxSteps = 4;
    int forceMethod = -1;  // 0 explicit, 1 implicit
    bool ghosts = true;
    bool wallSpeed = true;
    double big = 0.02;     // probability of a large problem
    double maxRatio = 4.1;
    double longRun = 0;    // probability of a gentle problem that runs for hundreds of steps
    int longSteps = 300;
};

// Fluid sloshing in a small closed or open box: particles stay together, collide and meet walls for as long as one likes.
inline void genLong(Rng& r, const GenOpt& o, Scenario& sc) {
    orc::Set& s = sc.s;
    sc.longRun = true;
    sc.kind = "long";
    const bool d3 = s.dim == 3;
    sc.parts.clear();
    int nx = r.i(2, d3 ? 2 : 4), ny = r.i(2, d3 ? 3 : 5), nz = d3 ? 2 : 1, t = d3 ? 2 : 3, head = r.i(0, 2), lid = r.p(0.5) ? t : 0;
    s.cd = r.u(0.4, 0.95) * s.l0;
    double g = r.lu(0.1, 20), vs = std::sqrt(g * ny * s.l0);
    s.dt = (s.implicit ? r.u(0.05, 0.2) : r.u(0.01, 0.04)) * s.l0 / vs;
    s.nu = r.p(0.2) ? 0 : r.lu(1e-5, 1e-2) * vs * s.l0;
    s.comp = r.lu(1e-6, 1e-3) / (sc.defaultDensity * vs * vs);
    s.gamma = r.u(0.05, 0.3);
    s.c = r.u(5, 10) * vs;
    s.ndThr = r.u(0.85, 0.99);
    s.cfl = r.u(0.02, 0.3);
    if (s.implicit) { s.reN = std::max(s.reN, 1.9 * s.l0); s.reG = std::max(s.reG, 1.9 * s.l0); s.reL = std::max(s.reL, 1.9 * s.l0); s.reMax = std::max({s.reN, s.reG, s.reL}); }
    double th = r.p(0.5) ? 0 : r.u(-0.5, 0.5);
    if (sc.normAngle) { sc.gNorm = g; sc.gAngle = th * 180 / M_PI; long double a = (long double) sc.gAngle * 3.14159265358979323846264338327950288L / 180; s.g = {(double) (g * sinl(a)), (double) (-g * cosl(a)), 0}; }
    else s.g = {g * std::sin(th), -g * std::cos(th), d3 ? 0.1 * g : 0};
    const bool dens = r.p(0.4);
    for (int ix = -t; ix < nx + t; ix++)
        for (int iy = -t; iy < ny + head + lid; iy++)
            for (int iz = d3 ? -t : 0; iz < (d3 ? nz + t : 1); iz++) {
                int out = std::max({-ix, ix - nx + 1, -iy, iy - ny - head + 1, d3 ? -iz : 0, d3 ? iz - nz + 1 : 0});
                if (out > 0 && iy >= ny + head && !lid) continue;
                if (out <= 0 && iy >= ny) continue;
                Part p;
                p.type = out <= 0 ? orc::Fluid : out <= (d3 ? 1 : 2) ? orc::Wall : orc::Dummy;
                p.x = {s.l0 * (ix + (out <= 0 ? 0.05 * r.u(-1, 1) : 0)), s.l0 * (iy + (out <= 0 ? 0.05 * r.u(-1, 1) : 0)), d3 ? s.l0 * iz : 0.0};
                p.v = {0, 0, 0};
                if (p.type == orc::Fluid) p.v = {0.4 * vs * r.gauss(), 0.4 * vs * r.gauss(), d3 ? 0.4 * vs * r.gauss() : 0.0};
                p.ftype = r.i(0, 3);
                p.rho = dens ? sc.defaultDensity * r.u(0.5, 2) : sc.defaultDensity;
                sc.parts.push_back(p);
            }
    if (r.p(0.7)) for (int k = (int) sc.parts.size() - 1; k > 0; k--) std::swap(sc.parts[k], sc.parts[r.i(0, k)]);
    bool tight = r.p(o.tight);
    int up = tight && !lid ? r.i(0, 1) : 30;
    s.lo = {-s.l0 * (t + 1), -s.l0 * (t + 1), d3 ? -s.l0 * (t + 1) : 0.0};
    s.hi = {s.l0 * (nx + t), s.l0 * (ny + head + lid + up), d3 ? s.l0 * (nz + t) : 0.0};
    sc.steps = r.i(o.longSteps / 3, o.longSteps);
}

inline Scenario genScenario(Rng& r, const GenOpt& o) {
    Scenario sc;
    orc::Set& s = sc.s;
    s.dim = r.p(0.6) ? 2 : 3;
    s.l0  = r.p(0.5) ? r.pick({1.0, 0.1, 0.025, 0.012, 0.01, 0.001, 37.5}) : r.lu(1e-3, 1e2);
    const double l0 = s.l0;
    s.dt  = r.p(0.5) ? r.pick({0.001, 0.0005, 0.01, 0.25, 1.0}) : r.lu(1e-4, 1.0);
    auto ratio = [&] { return r.p(0.4) ? r.pick({2.1, 3.1, 1.6, 2.5, 4.1}) : r.u(1.2, o.maxRatio); };
    double a = ratio(), b = ratio(), c = ratio();
    if (r.p(0.1)) b = a;
    if (r.p(0.1)) c = b;
    if (r.p(0.08)) b = a * (1 + r.pick({-1, 1}) * r.lu(1e-7, 1e-2)); // hardly different
    if (r.p(0.08)) c = a * (1 + r.pick({-1, 1}) * r.lu(1e-7, 1e-2));
    if (s.dim == 3 || r.p(0.5)) { a = std::min(a, 3.1); b = std::min(b, 3.1); c = std::min(c, 3.1); }
    s.reN = a * l0; s.reG = b * l0; s.reL = c * l0;
    s.reMax = std::max({s.reN, s.reG, s.reL});
    const double vs = o.speed * l0 / s.dt;
    s.nu = r.p(0.2) ? 0.0 : r.lu(1e-4, 0.08) * l0 * l0 / s.dt / s.dim;
    double gmag = r.p(0.15) ? 0.0 : r.lu(1e-3, 0.06) * l0 / (s.dt * s.dt);
    if (r.p(0.35)) {
        sc.normAngle = true;
        sc.gNorm  = gmag;
        sc.gAngle = r.p(0.4) ? r.pick({0.0, 90.0, 180.0, 270.0, -90.0, 45.0, 30.0, 360.0}) : r.u(-720, 720);
        // counter-clockwise from -Y in the XY plane
        long double th = sc.gAngle * 3.14159265358979323846264338327950288L / 180;
        s.g = {(double) (gmag * sinl(th)), (double) (-gmag * cosl(th)), 0.0};
    } else {
        double d[3] = {r.gauss(), r.gauss(), s.dim == 3 || r.p(0.1) ? r.gauss() : 0.0};
        if (r.p(0.4)) { d[0] = 0; d[1] = -1; d[2] = 0; }
        double n = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) + 1e-12;
        s.g = {gmag * d[0] / n, gmag * d[1] / n, gmag * d[2] / n};
    }
    s.cd   = (r.p(0.3) ? 0.5 : r.u(0.25, 0.95)) * l0;
    s.rest = r.p(0.25) ? r.pick({0.0, 1.0, 0.2, 0.5}) : r.u();
    s.cfl  = r.p(0.2) ? r.pick({1.0, 0.2, 0.5}) : r.lu(0.01, 2);
    s.distMode = r.p(0.5);
    s.ndThr    = r.p(0.4) ? r.pick({0.97, 0.95, 0.8}) : r.u(0.4, 1.3);
    s.distThr  = r.p(0.3) ? 0.85 : r.lu(0.05, 8);
    s.implicit = o.forceMethod >= 0 ? o.forceMethod == 1 : r.p(0.65);
    s.gamma = r.p(0.3) ? 0.2 : r.u(0.01, 1);
    double dens = r.p(0.5) ? 1000.0 : r.lu(0.5, 2e4);
    sc.defaultDensity = dens;
    s.comp = r.p(0.1) ? 0.0 : r.lu(1e-6, 3) * s.dt * s.dt / (l0 * l0 * dens);
    s.c    = r.u(0.05, 0.5) * l0 / s.dt;
    bool mixedDensity = r.p(0.5);
    bool big = r.p(o.big);
    int maxN = big ? 900 : o.maxN;

    orc::V3 org = {0, 0, 0};
    if (r.p(0.6)) for (int k = 0; k < 3; k++) org[k] = (s.dim == 2 && k == 2 && r.p(0.8)) ? 0.0 : r.u(-1, 1) * l0 * r.pick({3.0, 30.0, 1000.0});

    std::vector<Part>& P = sc.parts;
    auto add = [&](int type, orc::V3 x) {
        Part p;
        p.type = type; p.x = x;
        p.v = {0, 0, 0};
        p.ftype = r.i(0, 3);
        p.rho = mixedDensity ? dens * r.u(0.3, 3.0) : dens;
        P.push_back(p);
    };
    auto randType = [&] { double q = r.u(); return q < 0.62 ? orc::Fluid : q < 0.84 ? orc::Wall : q < 0.96 ? orc::Dummy : (o.ghosts ? orc::Ghost : orc::Fluid); };
    int kind = r.i(0, 5);
    if (o.overlap > 0.3) kind = r.pick({1, 3, 3, 2});
    double jit = r.p(0.3) ? 0.0 : r.u(0, 0.3);
    auto at = [&](double x, double y, double z) {
        orc::V3 q = {org[0] + l0 * (x + jit * r.u(-1, 1)), org[1] + l0 * (y + jit * r.u(-1, 1)), org[2] + (s.dim == 3 ? l0 * (z + jit * r.u(-1, 1)) : 0.0)};
        return q;
    };
    if (kind == 0) {
        sc.kind = "tank";
        int nx = r.i(3, s.dim == 2 ? (big ? 22 : 7) : (big ? 6 : 3)), ny = r.i(2, s.dim == 2 ? (big ? 22 : 6) : (big ? 6 : 3)), nz = s.dim == 3 ? r.i(2, big ? 5 : 3) : 1;
        int wl = s.dim == 2 ? 2 : 1, dl = r.i(0, s.dim == 2 ? 2 : 1), t = wl + dl, empty = r.i(0, 2);
        for (int ix = -t; ix < nx + t; ix++)
            for (int iy = -t; iy < ny + empty; iy++)
                for (int iz = s.dim == 3 ? -t : 0; iz < (s.dim == 3 ? nz + t : 1); iz++) {
                    int out = std::max({-ix, ix - nx + 1, -iy, s.dim == 3 ? -iz : 0, s.dim == 3 ? iz - nz + 1 : 0});
                    if (out <= 0 && iy >= ny) continue;
                    add(out <= 0 ? orc::Fluid : out <= wl ? orc::Wall : orc::Dummy, at(ix, iy, iz));
                }
    } else if (kind == 1) {
        sc.kind = "cloud";
        int n = r.i(5, maxN);
        double L = std::pow(n * r.u(1.0, 2.5), 1.0 / s.dim);
        for (int k = 0, tries = 0; k < n && tries < 50 * n; tries++) {
            orc::V3 x = {org[0] + l0 * r.u(0, L), org[1] + l0 * r.u(0, L), org[2] + (s.dim == 3 ? l0 * r.u(0, L) : 0.0)};
            if (o.overlap <= 0 && minSep(P, x) < o.sepMin * l0) continue;
            if (minSep(P, x) < 0.02 * l0) continue;
            add(randType(), x); k++;
        }
    } else if (kind == 2) {
        sc.kind = "block";
        int m = s.dim == 2 ? r.i(2, big ? 28 : 10) : r.i(2, big ? 9 : 4), m2 = s.dim == 2 ? r.i(1, big ? 28 : 10) : r.i(1, big ? 9 : 4), m3 = s.dim == 3 ? r.i(1, big ? 9 : 4) : 1;
        double sp = r.p(0.5) ? 1.0 : r.u(0.6, 1.3);
        bool allFluid = r.p(0.5);
        for (int ix = 0; ix < m; ix++) for (int iy = 0; iy < m2; iy++) for (int iz = 0; iz < m3; iz++)
            if (r.p(0.95)) add(allFluid ? orc::Fluid : randType(), at(sp * ix, sp * iy, sp * iz));
    } else if (kind == 3) {
        sc.kind = "clusters";
        int k = r.i(1, 10);
        for (int q = 0; q < k; q++) {
            orc::V3 c0 = {org[0] + r.u(0, 1) * 20 * l0, org[1] + r.u(0, 1) * 20 * l0, org[2] + (s.dim == 3 ? r.u(0, 1) * 20 * l0 : 0)};
            int m = o.overlap > 0 && r.p(0.6) ? 2 : r.i(1, 9);
            double rad = o.overlap > 0 ? s.cd * r.u(0.3, 0.9) : l0 * r.u(0.5, 2.5);
            for (int t = 0, tries = 0; t < m && tries < 200; tries++) {
                orc::V3 x = {c0[0] + rad * r.u(-1, 1), c0[1] + rad * r.u(-1, 1), c0[2] + (s.dim == 3 ? rad * r.u(-1, 1) : 0)};
                if (minSep(P, x) < (o.overlap > 0 ? 0.03 : o.sepMin) * l0) continue;
                add(o.overlap > 0 ? (r.p(0.75) ? orc::Fluid : r.p(0.5) ? orc::Wall : r.p(0.7) ? orc::Dummy : o.ghosts ? orc::Ghost : orc::Fluid) : randType(), x);
                t++;
            }
        }
    } else if (kind == 4) {
        sc.kind = "tiny";
        int n = r.i(0, 3);
        for (int k = 0, tries = 0; k < n && tries < 100; tries++) {
            orc::V3 x = {org[0] + l0 * r.u(0, 3), org[1] + l0 * r.u(0, 3), org[2] + (s.dim == 3 ? l0 * r.u(0, 2) : 0)};
            if (minSep(P, x) < 0.05 * l0) continue;
            add(randType(), x); k++;
        }
    } else {
        sc.kind = "sheet";
        int n = r.i(4, 40), ax = r.i(0, 1), m = r.i(1, 3);
        for (int k = 0; k < n; k++) for (int q = 0; q < m; q++)
            add(q == 0 && r.p(0.5) ? orc::Wall : orc::Fluid, ax ? at(q, k, r.i(0, 1)) : at(k, q, r.i(0, 1)));
        std::vector<Part> keep; // no coincident particles
        for (auto& p : P) if (minSep(keep, p.x) > 0.05 * l0) keep.push_back(p);
        P = keep;
    }
    // velocities
    int vk = r.i(0, 4);
    orc::V3 drift = {vs * r.gauss(), vs * r.gauss(), s.dim == 3 ? vs * r.gauss() : 0.0};
    for (auto& p : P) {
        bool fluid = p.type == orc::Fluid;
        if (!fluid && !(o.wallSpeed && r.p(0.5))) continue;
        double f = vk == 0 ? 0.0 : vk == 1 ? 1.0 : vk == 2 ? 0.3 : vk == 3 ? r.u() : (r.p(0.1) ? 4.0 : 0.1);
        if (!fluid) f = r.u();
        for (int k = 0; k < 3; k++) p.v[k] = f * vs * r.gauss();
        if (s.dim == 2) p.v[2] = 0;
        if (vk == 3) for (int k = 0; k < 3; k++) p.v[k] = drift[k];
        if (s.dim == 2 && r.p(0.01)) p.v[2] = 0.1 * vs;
    }
    // particle numbering independent of the arrangement
    if (r.p(0.7)) for (int k = (int) P.size() - 1; k > 0; k--) std::swap(P[k], P[r.i(0, k)]);
    // domain
    orc::V3 lo = {1e300, 1e300, 1e300}, hi = {-1e300, -1e300, -1e300};
    for (auto& p : P) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], p.x[k]); hi[k] = std::max(hi[k], p.x[k]); }
    if (P.empty()) lo = hi = org;
    bool tight = r.p(o.tight);
    for (int k = 0; k < 3; k++) {
        double m1 = tight ? (r.p(0.3) ? 0.0 : r.u(-0.2, 1.0)) : r.u(6, 12), m2 = tight ? (r.p(0.3) ? 0.0 : r.u(-0.2, 1.0)) : r.u(6, 12);
        if (k == 2 && s.dim == 2) { if (r.p(0.6)) m1 = m2 = 0; else { m1 = std::fabs(m1); m2 = std::fabs(m2); } }
        s.lo[k] = lo[k] - m1 * l0; s.hi[k] = hi[k] + m2 * l0;
        if (s.hi[k] < s.lo[k]) std::swap(s.hi[k], s.lo[k]);
    }
    sc.steps = r.i(1, o.maxSteps);
    if (big) sc.steps = std::min(sc.steps, 2);
    if (o.longRun > 0 && r.p(o.longRun)) genLong(r, o, sc);
    return sc;
}

inline orc::State snap(const Particles& ps, bool nb = false) {
    orc::State a;
    a.n = ps.size();
    for (const auto& p : ps) {
        a.type.push_back((int) p.type); a.ftype.push_back(p.fluidType); a.bc.push_back((int) p.boundaryCondition);
        a.x.push_back({p.position.x(), p.position.y(), p.position.z()});
        a.v.push_back({p.velocity.x(), p.velocity.y(), p.velocity.z()});
        a.rho.push_back(p.density); a.nd.push_back(p.numberDensity); a.P.push_back(p.pressure);
        if (nb) {
            std::vector<std::pair<int, double>> l;
            for (auto& q : p.neighbors) l.push_back({q.id, q.distance});
            a.nb.push_back(std::move(l));
        }
    }
    return a;
}

// What one step showed at its observation points.
struct Obs {
    orc::State before, mid, mid2, after; // mid: handed to the first pressure calculation; mid2: right after it
    std::vector<double> pressures;       // returned by it
    int calls = 0;
    double courant = 0;
    bool exited = false;
    int code = 0;
};

struct Tap {
    Obs* obs = nullptr;
    bool wantNb = false;
    const std::vector<double>* inject = nullptr;
    std::vector<double> around(Particles& ps, PressureCalculator::Interface& inner) {
        bool first = obs && obs->calls++ == 0;
        if (first) obs->mid = snap(ps, wantNb);
        auto r = inner.calc(ps);
        if (first) {
            if (inject && (int) inject->size() == ps.size()) r = *inject;
            obs->mid2 = snap(ps);
            obs->pressures = r;
        }
        return r;
    }
};
struct MonImplicit : PressureCalculator::Interface {
    std::unique_ptr<PressureCalculator::Interface> inner;
    Tap* tap;
    std::vector<double> calc(Particles& ps) override { return tap->around(ps, *inner); }
};
struct MonExplicit : PressureCalculator::Explicit {
    std::unique_ptr<PressureCalculator::Interface> inner;
    Tap* tap;
    MonExplicit(const orc::Set& s) : PressureCalculator::Explicit(s.reN, s.c, s.dim, s.l0) {}
    std::vector<double> calc(Particles& ps) override { return tap->around(ps, *inner); }
};
inline void attach(MPS& m, const orc::Set& s, Tap* tap) {
    if (dynamic_cast<PressureCalculator::Explicit*>(m.pressureCalculator.get())) {
        auto w   = std::make_unique<MonExplicit>(s);
        w->inner = std::move(m.pressureCalculator);
        w->tap   = tap;
        m.pressureCalculator = std::move(w);
    } else {
        auto w   = std::make_unique<MonImplicit>();
        w->inner = std::move(m.pressureCalculator);
        w->tap   = tap;
        m.pressureCalculator = std::move(w);
    }
}
inline Obs stepObserved(MPS& m, Tap& tap, bool nb = false, const std::vector<double>* inject = nullptr) {
    Obs o;
    o.before = snap(m.particles);
    tap.obs = &o; tap.wantNb = nb; tap.inject = inject;
    o.exited = callsExit([&] { m.stepForward(); }, &o.code);
    tap.obs = nullptr;
    if (!o.exited) { o.after = snap(m.particles); o.courant = m.courant; }
    return o;
}
