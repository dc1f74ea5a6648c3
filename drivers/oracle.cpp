#include "oracle.hpp"
#include <algorithm>
#include <cmath>
#include <functional>
namespace orc {
double w(double r, double re) { return r < re ? re / r - 1.0 : 0.0; }
double dist(const V3& a, const V3& b) {
    double s = 0;
    for (int k = 0; k < 3; k++) s += (a[k] - b[k]) * (a[k] - b[k]);
    return std::sqrt(s);
}
void ref(int dim, double l0, double re, double& n0, double& lambda) {
    long double n = 0, l = 0, h = l0, r = re;
    int R = (int) std::ceil(re / l0) + 2;
    for (int i = -R; i <= R; i++)
        for (int j = -R; j <= R; j++)
            for (int k = (dim == 3 ? -R : 0); k <= (dim == 3 ? R : 0); k++) {
                if (!i && !j && !k) continue;
                long double d = h * sqrtl((long double) (i * i + j * j + k * k));
                if (d >= r) continue;
                long double ww = r / d - 1;
                n += ww;
                l += d * d * ww;
            }
    n0     = (double) n;
    lambda = (double) (l / n);
}
bool inside(const Set& s, const V3& x) {
    for (int k = 0; k < 3; k++)
        if (!(x[k] >= s.lo[k] && x[k] <= s.hi[k])) return false;
    return true;
}
bool nearBoundary(const Set& s, const V3& x, double eps, const V3* still) {
    for (int k = 0; k < 3; k++)
        if (still && (*still)[k] == 0.0) continue;
        else if (std::fabs(x[k] - s.lo[k]) < eps || std::fabs(x[k] - s.hi[k]) < eps) return true;
    return false;
}
Pred predict(const Set& s, const State& a) {
    Pred p;
    p.type0 = a.type; p.x = a.x; p.v = a.v;
    p.risky.assign(a.n, 0);
    p.vscale.assign(a.n, 0); p.ascale.assign(a.n, 0);
    for (int i = 0; i < a.n; i++)
        if (p.type0[i] != Ghost && !inside(s, a.x[i])) p.type0[i] = Ghost;
    double n0, lam;
    ref(s.dim, s.l0, s.reL, n0, lam);
    double c = s.nu * 2.0 * s.dim / (n0 * lam);
    for (int i = 0; i < a.n; i++) {
        if (p.type0[i] != Fluid) continue;
        long double acc[3] = {0, 0, 0};
        double sc = 0;
        for (int j = 0; j < a.n; j++) {
            if (j == i || p.type0[j] == Ghost) continue;
            double d = dist(a.x[i], a.x[j]);
            if (!(d < s.reL)) continue;
            double ww = w(d, s.reL);
            for (int k = 0; k < 3; k++) acc[k] += (long double) (a.v[j][k] - a.v[i][k]) * ww;
            for (int k = 0; k < 3; k++) sc += (std::fabs(a.v[j][k]) + std::fabs(a.v[i][k])) * (s.reL / d + 1);
        }
        double gs = std::fabs(s.g[0]) + std::fabs(s.g[1]) + std::fabs(s.g[2]);
        double vs = std::fabs(a.v[i][0]) + std::fabs(a.v[i][1]) + std::fabs(a.v[i][2]);
        p.ascale[i] = gs + c * sc;
        p.vscale[i] = vs + s.dt * p.ascale[i];
        for (int k = 0; k < 3; k++) {
            p.v[i][k] = (double) (a.v[i][k] + s.dt * (s.g[k] + c * acc[k]));
            p.x[i][k] = (double) ((long double) a.x[i][k] + (long double) s.dt * p.v[i][k]);
        }
    }
    p.type = p.type0;
    for (int i = 0; i < a.n; i++) {
        if (p.type[i] == Ghost) continue;
        if (p.type[i] == Fluid) {
            double m = 0;
            for (int k = 0; k < 3; k++) m = std::max(m, std::fabs(p.x[i][k]));
            // a coordinate that does not move is known exactly
            if (nearBoundary(s, p.x[i], 1e-9 * s.l0 + 1e-12 * m + 1e-9 * s.dt * p.vscale[i], &p.v[i])) p.risky[i] = 1;
        }
        if (!inside(s, p.x[i])) p.type[i] = Ghost;
    }
    return p;
}
std::vector<double> numberDensity(const Set& s, const std::vector<int>& type, const std::vector<V3>& x, std::vector<double>* scale) {
    int n = (int) x.size();
    std::vector<double> nd(n, 0.0);
    if (scale) scale->assign(n, 0.0);
    for (int i = 0; i < n; i++) {
        if (type[i] == Ghost) continue;
        long double q = 0;
        double sc = 0;
        for (int j = 0; j < n; j++) {
            if (j == i || type[j] == Ghost) continue;
            double d = dist(x[i], x[j]);
            if (d < s.reN) { q += w(d, s.reN); sc += s.reN / d + 1; }
        }
        nd[i] = (double) q;
        if (scale) (*scale)[i] = sc;
    }
    return nd;
}
std::vector<int> classify(const Set& s, const std::vector<int>& type, const std::vector<V3>& x, const std::vector<double>& nd) {
    int n = (int) x.size();
    double n0, lam;
    ref(s.dim, s.l0, s.reN, n0, lam);
    std::vector<int> r(n, Ignored);
    for (int i = 0; i < n; i++) {
        if (type[i] == Ghost || type[i] == Dummy) continue;
        double thr = s.ndThr * n0;
        if (std::fabs(nd[i] - thr) < 1e-9 * (thr + std::fabs(nd[i]))) { r[i] = -1; continue; }
        if (!(nd[i] < thr)) { r[i] = Inner; continue; }
        if (!s.distMode) { r[i] = FreeSurface; continue; }
        long double sum[3] = {0, 0, 0};
        double sc = 0;
        int cnt = 0;
        bool tie = false;
        for (int j = 0; j < n; j++) {
            if (j == i || type[j] == Ghost) continue;
            double d = dist(x[i], x[j]);
            if (std::fabs(d - s.reMax) < 1e-11 * s.reMax) tie = true;
            if (!(d < s.reMax)) continue;
            cnt++;
            for (int k = 0; k < 3; k++) { sum[k] += x[j][k] - x[i][k]; sc += std::fabs(x[j][k] - x[i][k]); }
        }
        if (tie) { r[i] = -1; continue; }
        if (!cnt) { r[i] = FreeSurface; continue; }
        double t = s.distThr * s.l0;
        bool over = false, close = false;
        for (int k = 0; k < 3; k++) {
            double m = std::fabs((double) sum[k]);
            if (std::fabs(m - t) < 1e-10 * (sc + t)) close = true;
            else if (m > t) over = true;
        }
        r[i] = over ? FreeSurface : close ? -1 : Inner;
    }
    return r;
}
PPE solvePPE(const Set& s, const State& a, const std::vector<int>& bc) {
    PPE r{};
    int n = a.n;
    double n0L, lamL, n0N, lamN;
    ref(s.dim, s.l0, s.reL, n0L, lamL);
    ref(s.dim, s.l0, s.reN, n0N, lamN);
    double c0 = 2.0 * s.dim / (n0L * lamL);
    std::vector<int> idx(n, -1), inner;
    for (int i = 0; i < n; i++)
        if (bc[i] == Inner) { idx[i] = (int) inner.size(); inner.push_back(i); }
    int m = (int) inner.size();
    r.P.assign(n, 0.0);
    r.ok = true; r.cond = 1; r.err = 0;
    if (!m) return r;
    std::vector<double> A((size_t) m * m, 0.0), B(m, 0.0);
    double rowmax = 0;
    for (int q = 0; q < m; q++) {
        int i = inner[q];
        double dii = s.comp / (s.dt * s.dt);
        for (int j = 0; j < n; j++) {
            if (j == i || bc[j] == Ignored || a.type[j] == Ghost || a.type[j] == Dummy) continue;
            double d = dist(a.x[i], a.x[j]);
            if (!(d < s.reL)) continue;
            double c = c0 * w(d, s.reL) / a.rho[i];
            dii += c;
            if (idx[j] >= 0) A[(size_t) q * m + idx[j]] -= c; // Dirichlet neighbours have pressure zero
        }
        A[(size_t) q * m + q] += dii;
        B[q] = s.gamma / (s.dt * s.dt) * (a.nd[i] - n0N) / n0N;
        rowmax = std::max(rowmax, dii);
    }
    if (s.comp == 0) {
        // blocks connected through the matrix; a block without Dirichlet neighbour only allows sources with sum(rho b) = 0
        double bn = 0;
        for (double b : B) bn += b * b;
        std::vector<int> block(m, -1), todo;
        for (int q0 = 0; q0 < m; q0++) {
            if (block[q0] >= 0) continue;
            todo.assign(1, q0); block[q0] = q0;
            bool closed = true;
            double sum = 0, mag = 0, rr = 0;
            while (!todo.empty()) {
                int q = todo.back(), i = inner[q];
                todo.pop_back();
                sum += a.rho[i] * B[q]; mag += std::fabs(a.rho[i] * B[q]); rr += a.rho[i] * a.rho[i];
                for (int j = 0; j < n; j++) {
                    if (j == i || bc[j] == Ignored || a.type[j] == Ghost || a.type[j] == Dummy || !(dist(a.x[i], a.x[j]) < s.reL * (1 + 1e-9))) continue;
                    if (idx[j] < 0) closed = false;
                    else if (block[idx[j]] < 0) { block[idx[j]] = q0; todo.push_back(idx[j]); }
                }
            }
            if (closed && std::fabs(sum) > 0.02 * mag && std::fabs(sum) > 1e-3 * std::sqrt(rr * bn)) r.unsolvable = true;
        }
    }
    // inverse by Gauss-Jordan with partial pivoting
    std::vector<double> M = A, I((size_t) m * m, 0.0);
    for (int q = 0; q < m; q++) I[(size_t) q * m + q] = 1;
    for (int c = 0; c < m; c++) {
        int piv = c;
        for (int q = c + 1; q < m; q++) if (std::fabs(M[(size_t) q * m + c]) > std::fabs(M[(size_t) piv * m + c])) piv = q;
        double pv = M[(size_t) piv * m + c];
        if (!(std::fabs(pv) > 0)) { r.ok = false; r.singular = true; return r; }
        if (piv != c) {
            std::swap_ranges(&M[(size_t) piv * m], &M[(size_t) piv * m] + m, &M[(size_t) c * m]);
            std::swap_ranges(&I[(size_t) piv * m], &I[(size_t) piv * m] + m, &I[(size_t) c * m]);
        }
        for (int k = 0; k < m; k++) { M[(size_t) c * m + k] /= pv; I[(size_t) c * m + k] /= pv; }
        for (int q = 0; q < m; q++) {
            if (q == c) continue;
            double f = M[(size_t) q * m + c];
            if (f == 0) continue;
            double *mq = &M[(size_t) q * m], *mc = &M[(size_t) c * m], *iq = &I[(size_t) q * m], *ic = &I[(size_t) c * m];
            for (int k = c; k < m; k++) mq[k] -= f * mc[k];
            for (int k = 0; k < m; k++) iq[k] -= f * ic[k];
        }
    }
    double na = 0, ni = 0, nb = 0, bsum = 0;
    for (int q = 0; q < m; q++) {
        double sa = 0, si = 0;
        for (int k = 0; k < m; k++) { sa += std::fabs(A[(size_t) q * m + k]); si += std::fabs(I[(size_t) q * m + k]); }
        na = std::max(na, sa); ni = std::max(ni, si); nb = std::max(nb, std::fabs(B[q])); bsum += B[q] * B[q];
    }
    r.cond = na * ni;
    std::vector<double> X(m, 0.0);
    for (int q = 0; q < m; q++) {
        long double t = 0;
        for (int k = 0; k < m; k++) t += (long double) I[(size_t) q * m + k] * B[k];
        X[q] = (double) t;
    }
    for (int it = 0; it < 2; it++) { // iterative refinement
        std::vector<double> R(m);
        for (int q = 0; q < m; q++) {
            long double t = B[q];
            for (int k = 0; k < m; k++) t -= (long double) A[(size_t) q * m + k] * X[k];
            R[q] = (double) t;
        }
        for (int q = 0; q < m; q++) {
            long double t = X[q];
            for (int k = 0; k < m; k++) t += (long double) I[(size_t) q * m + k] * R[k];
            X[q] = (double) t;
        }
    }
    double xm = 0;
    for (int q = 0; q < m; q++) { xm = std::max(xm, std::fabs(X[q])); r.P[inner[q]] = X[q] < 0 ? 0.0 : X[q]; }
    // an iterative solver that stops at a relative residual of 1e-12 or better deviates by at most this
    // (second term: rounding of the number densities, of which the source is a small difference)
    r.err = 1e-12 * ni * std::sqrt(bsum) + 1e-12 * ni * s.gamma / (s.dt * s.dt) + (1e-10 + 1e-14 * r.cond) * xm; // the last term: rounding in the coefficients
    r.ok  = std::isfinite(r.err) && std::isfinite(xm) && r.err <= 1e-5 * xm + 1e-300;
    if (!std::isfinite(r.cond) || r.cond > 1e12) { r.singular = true; r.ok = false; }
    return r;
}
Grad gradient(const Set& s, const State& a, const std::vector<double>& P) {
    Grad r;
    r.a.assign(a.n, V3{0, 0, 0});
    r.scale.assign(a.n, 0.0);
    r.risky.assign(a.n, 0);
    double n0, lam;
    ref(s.dim, s.l0, s.reG, n0, lam);
    for (int i = 0; i < a.n; i++) {
        if (a.type[i] != Fluid) continue;
        double pm = P[i];
        for (int j = 0; j < a.n; j++) {
            if (j == i || a.type[j] == Ghost || a.type[j] == Dummy) continue;
            double d = dist(a.x[i], a.x[j]);
            if (std::fabs(d - s.reG) < 1e-11 * s.reG) r.risky[i] = 1;
            if (d < s.reG) pm = std::min(pm, P[j]);
        }
        long double acc[3] = {0, 0, 0};
        double sc = 0;
        for (int j = 0; j < a.n; j++) {
            if (j == i || a.type[j] == Ghost || a.type[j] == Dummy) continue;
            double d = dist(a.x[i], a.x[j]);
            if (!(d < s.reG)) continue;
            long double q = (long double) (P[j] - pm) / ((long double) d * d) * w(d, s.reG);
            for (int k = 0; k < 3; k++) acc[k] += q * (a.x[j][k] - a.x[i][k]);
            sc += (std::fabs(P[j]) + std::fabs(pm)) / d * (s.reG / d + 1);
        }
        double f = s.dim / n0 / a.rho[i];
        for (int k = 0; k < 3; k++) r.a[i][k] = (double) (-f * acc[k]);
        r.scale[i] = f * sc;
    }
    return r;
}
} // namespace orc
