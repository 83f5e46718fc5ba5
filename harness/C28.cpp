#include "gen.hpp"
#include <libnurbs/Algorithm/MathUtils.hpp>
using namespace gen;
const char* mc::PROPERTY = "C28";

static void factorials(Ctx& c) { int n = c.choose(10, "n"); long w = 1; for (int i = 2; i <= n; ++i) w *= i; c.step(); c.state(n); MC_CHECK(c, libnurbs::Factorial(n) == w, "Factorial(%d) = %d", n, libnurbs::Factorial(n)); }
static void binomials(Ctx& c)
{
    static long T[64][64]; if (!T[0][0]) for (int n = 0; n < 64; ++n) { T[n][0] = 1; for (int k = 1; k <= n; ++k) T[n][k] = T[n - 1][k - 1] + (k <= n - 1 ? T[n - 1][k] : 0); }
    int n = c.choose(51, "n"), k = c.choose(56, "k"); c.step(); c.state(n * 100 + k); long w = k > n ? 0 : T[n][k];
    MC_CHECK(c, libnurbs::Binomial(n, k) == w, "Binomial(%d, %d) = %.17g, expected %ld", n, k, (double)libnurbs::Binomial(n, k), w);
}
static const Dv& values() { static const Dv v{0, -0.0, 1, -1, 1e-6, 0.9999999e-6, 1.0000001e-6, -1e-6, 1e-9, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, NAN, 0.5, 1e-3, 1 + 1e-6, 1 + 0.999e-6}; return v; }
static bool within(double a, double b, double e) { double d = a - b; if (d < 0) d = -d; return d < e; } // false for NaN
static void scalars(Ctx& c)
{
    double a = c.pick(values(), "a"), b = c.pick(values(), "b"); c.shard(); double e = c.pick(Dv{1e-6, 1e-9, 1e-3, 0.0, 1.0, INFINITY}, "epsilon"); c.step(); c.state(mc::mixd(mc::mixd(mc::mixd(1, a), b), e));
    MC_CHECK(c, libnurbs::Approx(a, b, e) == within(a, b, e), "Approx(%.17g, %.17g, %g) is %d", a, b, e, (int)libnurbs::Approx(a, b, e));
    if (e == 1e-6) MC_CHECK(c, libnurbs::Approx(a, b) == within(a, b, 1e-6), "Approx(%.17g, %.17g) is %d", a, b, (int)libnurbs::Approx(a, b));
}
static void vectors(Ctx& c)
{
    static const Dv D{0, 0.9e-6, 1.1e-6, -0.9e-6, -1.1e-6, 5.0, -5.0, NAN, INFINITY}; Vec4 a(1, -2, 0, 3), b = a; static const Dv E{1e-6, 1e-3, 1e-12, 10.0}; double e = c.pick(E, "epsilon"); bool four = c.flip("4 components"); bool all = true; int n = four ? 4 : 3;
    for (int i = 0; i < n; ++i) { double d = c.pick(D, "difference"); if (i == 0) c.shard(); b[i] = a[i] + d * (e / 1e-6); all = all && within(a[i], b[i], e); }
    Vec3 a3 = a.head<3>(), b3 = b.head<3>(); bool g = four ? libnurbs::Approx(b, a, e) : libnurbs::Approx(b3, a3, e), h = e != 1e-6 ? (four ? libnurbs::Approx(a, b, e) : libnurbs::Approx(a3, b3, e)) : four ? libnurbs::Approx(a, b) : libnurbs::Approx(a3, b3); c.step(2); c.state(mc::mix(hash(Dv{b[0], b[1], b[2], b[3], e}), n));
    MC_CHECK(c, g == all && h == all, "Approx of %s and %s is %d/%d, expected %d", gen::str(a).c_str(), gen::str(b).c_str(), g, h, all);
}
static void homogeneous(Ctx& c)
{
    static const Dv X{0, 1, -2.5, 1e-9, 1e9, 0.1, -1.0 / 3}, W{1, 2, 0.5, 1e-6, 1e6, 0.1, 3, -1, 1 + 1e-9, 1 - 1e-12, std::nextafter(1.0, 2.0), 1e-12, 1e12, 1.001};
    Vec4 p(c.pick(X), c.pick(X), c.pick(X), 1); c.shard(); p.w() = c.pick(W, "weight"); const Vec4 before = p;
    Vec4 h = libnurbs::ToHomo(p), b = libnurbs::FromHomo(h); c.step(2); c.state(hash(Dv{p[0], p[1], p[2], p[3]}));
    MC_CHECK(c, p == before && h.w() == p.w() && b.w() == p.w(), "weight of %s: %g after ToHomo, %g after FromHomo", gen::str(p).c_str(), h.w(), b.w());
    for (int d = 0; d < 3; ++d)
    {
        MC_CHECK(c, std::fabs(h[d] - p[d] * p.w()) <= 1e-15 * std::fabs(p[d] * p.w()), "ToHomo(%s) = %s", gen::str(p).c_str(), gen::str(h).c_str());
        MC_CHECK(c, std::fabs(b[d] - p[d]) <= 1e-15 * std::fabs(p[d]), "FromHomo(ToHomo(%s)) = %s", gen::str(p).c_str(), gen::str(b).c_str());
    }
}
std::vector<mc::Body> mc::bodies() { return {{"factorial", factorials}, {"binomial", binomials}, {"approx_scalar", scalars}, {"approx_vector", vectors}, {"homogeneous", homogeneous}}; }
