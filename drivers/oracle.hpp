// Independent executable model of one MPS step, by brute force over all pairs. Shares no code with the repository.
#pragma once
#include <array>
#include <vector>

namespace orc {
typedef std::array<double, 3> V3;
enum { Ghost = 0, Fluid = 1, Wall = 2, Dummy = 3 };
enum { Ignored = 0, FreeSurface = 1, SubFreeSurface = 2, Inner = 3 };

struct Set { // settings
    int dim;
    double l0, dt, cfl, nu;
    V3 g;
    bool distMode;
    double ndThr, distThr;
    bool implicit;
    double comp, gamma, c;
    double cd, rest;
    double reN, reG, reL, reMax;
    V3 lo, hi;
};
struct State {
    int n = 0;
    std::vector<int> type, ftype, bc;
    std::vector<V3> x, v;
    std::vector<double> rho, nd, P;
    std::vector<std::vector<std::pair<int, double>>> nb;
};
double w(double r, double re);
double dist(const V3& a, const V3& b);
void ref(int dim, double l0, double re, double& n0, double& lambda); // exact lattice sums
bool inside(const Set& s, const V3& x);
// true if x is so close to the boundary of the box that a rounding difference may decide
// (components whose entry in still is zero are not looked at)
bool nearBoundary(const Set& s, const V3& x, double eps, const V3* still = nullptr);

struct Pred { // state after prediction, before collision
    std::vector<int> type0, type; // after the first and second domain test
    std::vector<V3> x, v;
    std::vector<double> vscale, ascale; // magnitude of the terms summed
    std::vector<char> risky;    // a domain test was decided within rounding
};
Pred predict(const Set& s, const State& a);

std::vector<double> numberDensity(const Set& s, const std::vector<int>& type, const std::vector<V3>& x, std::vector<double>* scale);

// Classification: 0/1/3, or -1 where the criterion is within rounding of its threshold
std::vector<int> classify(const Set& s, const std::vector<int>& type, const std::vector<V3>& x, const std::vector<double>& nd);

struct PPE {
    bool ok;        // solved accurately enough to compare
    bool unsolvable; // without compressibility a block of inner particles without surface has a source its matrix cannot produce
    bool singular;  // some block of inner particles has a (numerically) singular matrix
    double cond;    // infinity-norm condition estimate
    std::vector<double> P; // clamped solution
    double err;     // bound on the acceptable deviation
    double residualTol;
};
PPE solvePPE(const Set& s, const State& a, const std::vector<int>& bc);
// residual of given (unclamped) pressures, infinity norm relative to the matrix row scale
struct Grad {
    std::vector<V3> a;          // acceleration
    std::vector<double> scale;
    std::vector<char> risky;
};
Grad gradient(const Set& s, const State& a, const std::vector<double>& P);
} // namespace orc
