// Weight function and reference values against exact (long double) lattice sums.
#include "harness.hpp"
#include "refvalues.hpp"
#include "weight.hpp"
#include <cmath>

static void run(Case& c) {
    Rng& r = c.rng;
    double unit = r.p(0.4) ? r.pick({1.0, 0.1, 0.025, 0.012, 0.01, 0.001, 0.02, 0.005}) : r.p(0.3) ? std::ldexp(1.0, r.i(-20, 20)) : r.lu(1e-7, 1e7);
    if (r.p(0.45)) { // weight
        for (int k = 0; k < 400; k++) {
            double re = unit * (r.p(0.3) ? r.pick({2.1, 3.1, 1.5, 4.0, 2.0}) : r.u(0.5, 8));
            int kind = r.i(0, 7);
            double d = kind == 0 ? re : kind == 1 ? std::nextafter(re, 0) : kind == 2 ? std::nextafter(re, 1e300) : kind == 3 ? re * r.u(1, 5) : kind == 4 ? re * r.lu(1e-9, 1) : kind == 5 ? re / r.i(1, 9) : kind == 6 ? re * (1 - r.lu(1e-15, 1e-3)) : re * r.u();
            if (!(d > 0)) continue;
            double got = weight(d, re);
            if (d >= re ? got != 0.0 : !(std::fabs(got - (double) (((long double) re - d) / d)) <= 2e-15 * (re / d + 1)))
                return c.fail("weight(%.17g, %.17g) is %.17g, expected %.17g", d, re, got, d >= re ? 0.0 : (double) (((long double) re - d) / d));
            count(d < re ? "weights inside the radius" : d == re ? "weights at the radius" : "weights outside the radius");
            c.mix(d); c.mix(re);
        }
        c.nontrivial = true;
        return;
    }
    int dim = r.i(2, 3);
    double top = dim == 2 ? (c.thorough ? 40 : 16) : (c.thorough ? 14 : 8);
    int kind = r.i(0, 5);
    double ratio = kind == 0 ? r.pick({2.1, 3.1, 1.5, 1.6, 2.5, 4.1, 2.4, 1.1}) : kind == 1 ? (double) r.i(2, (int) top) : kind == 2 ? std::sqrt((double) r.i(2, (int) (top * top))) : kind == 3 ? 1 + r.lu(1e-6, 0.5) : kind == 4 ? std::nextafter((double) r.i(2, (int) top), r.p(0.5) ? 0 : 1e9) : r.u(1.0001, top);
    double re = ratio * unit;
    if (!(re > unit)) return;
    c.mix(dim); c.mix(re); c.mix(unit);
    c.sample = fmt("%dD, spacing %.9g, radius/spacing %.9g", dim, unit, ratio);
    long double n = 0, l = 0, L = unit, R = re;
    int m = (int) (re / unit) + 2;
    for (int x = -m; x <= m; x++) for (int y = -m; y <= m; y++) for (int z = dim == 3 ? -m : 0; z <= (dim == 3 ? m : 0); z++) {
        if (!x && !y && !z) continue;
        long double d2 = L * L * ((long double) x * x + (long double) y * y + (long double) z * z), d = sqrtl(d2);
        if (d >= R) continue;
        n += R / d - 1; l += d2 * (R / d - 1);
    }
    l /= n;
    RefValues v(dim, unit, re);
    if (!(std::fabs(v.n0 - (double) n) <= 1e-12 * (double) (n + ratio * ratio))) return c.fail("n0 for %dD, spacing %.17g, radius %.17g (ratio %.9g) is %.17g, the lattice sum is %.17Lg", dim, unit, re, ratio, v.n0, n);
    // lambda is ill-conditioned when hardly any weight is inside the radius
    double lt = 1e-12 * (double) (l * (1 + ratio * ratio / n));
    if (lt > 1e-3 * (double) l) count("lambda ill-conditioned");
    else if (!(std::fabs(v.lambda - (double) l) <= lt)) return c.fail("lambda for %dD, spacing %.17g, radius %.17g (ratio %.9g) is %.17g, the lattice sum gives %.17Lg", dim, unit, re, ratio, v.lambda, l);
    count(ratio > 5 ? "reference values compared, ratio above 5" : "reference values compared, ratio up to 5");
    maxi("largest ratio compared", ratio);
    c.nontrivial = true;
}
int main(int argc, char** argv) { return harnessMain(argc, argv, run); }
