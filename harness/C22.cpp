#include "gen.hpp"
using namespace gen;
using libnurbs::Surface;
const char* mc::PROPERTY = "C22";

static Dv uniform(int p, int n) { Dv U(p + 1, 0.0); for (int i = 1; i < n - p; ++i) U.push_back((double)i / (n - p)); U.insert(U.end(), p + 1, 1.0); return U; }
static Surface patch(int p, int q, int nu, int nv, const Vec3& o, const Vec3& a, const Vec3& b, double bulge)
{
    Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU.Values() = uniform(p, nu); s.KnotsV.Values() = uniform(q, nv); s.ControlPoints = {nu, nv};
    Vec3 n = a.cross(b).normalized() * a.norm();
    for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i) { double x = (double)i / (nu - 1), y = (double)j / (nv - 1); Vec3 z = o + a * x + b * y + n * bulge * (4 * x * (1 - x) + 2 * y * (1 - y)); s.ControlPoints.Get(i, j) = Vec4{z.x(), z.y(), z.z(), 1}; }
    return s;
}
static Vec3 at(const ref::Surface& r, double u, double v) { auto x = ref::eval(r, u, v); return Vec3((double)x.v[0], (double)x.v[1], (double)x.v[2]); }
static double size_of(const Surface& s) { double m = 0; for (auto& p : s.ControlPoints.Values) m = std::max(m, (p - s.ControlPoints.Values[0]).head<3>().norm()); return m; }
static void on_surface(Ctx& c, const Surface& k)
{
    c.state(hash(k)); c.log("%s", str(k).c_str());
    const Surface before = k; ref::Surface r = lift(k); double size = size_of(k), far = scale(k);
    static const Dv T{0, 1e-3, 0.25, 0.5, 0.62, 1}, I{0, 0.2, 0.5, 0.75, 1}, G{0, 0.2, 0.5, 0.75, 1}, E{1e-4, 1e-6, 1e-8};
    for (double t : T) for (double s : T)
    {
        Vec3 q = at(r, t, s);
        auto off = [&](std::pair<double, double> x) { return (at(r, x.first, x.second) - q).norm(); };
        auto in = [&](std::pair<double, double> x) { return x.first >= 0 && x.first <= 1 && x.second >= 0 && x.second <= 1; };
        for (double eps : E)
        {
            double tol = eps * (1 + 1e-6) + 1e-13 * far;
            for (double i : G) for (double j : G)
            {
                if (!c.thorough && eps != 1e-8 && i != j) continue;
                auto x = k.SearchParameter(q, i, j, eps); c.step();
                MC_CHECK(c, in(x) && off(x) <= tol, "%s: search for the point at (%g, %g) from (%g, %g) with tolerance %g gives (%.17g, %.17g), %g away", str(k).c_str(), t, s, i, j, eps, x.first, x.second, off(x));
                if (i == j) { auto y = k.SearchParameter(q, i, j, eps, 5000); c.step(); MC_CHECK(c, x == y, "%s: search for the point at (%g, %g) depends on a limit it does not reach", str(k).c_str(), t, s); }
            }
            for (int d = 0; d < 2; ++d)
            {
                double fix = d ? s : t;
                for (double i : I)
                {
                    auto x = k.SearchParameterOn(q, d, fix, i, eps); c.step();
                    MC_CHECK(c, in(x) && off(x) <= tol, "%s: isoparametric search (direction %d) for the point at (%g, %g) from %g with tolerance %g gives (%.17g, %.17g), %g away", str(k).c_str(), d, t, s, i, eps, x.first, x.second, off(x));
                    MC_CHECK(c, (d ? x.second : x.first) == fix, "%s: isoparametric search changed the fixed coordinate %d from %.17g: (%.17g, %.17g)", str(k).c_str(), d, fix, x.first, x.second);
                    auto y = k.SearchParameterOn(q, d, fix, i, eps, 5000); c.step(); MC_CHECK(c, x == y, "%s: isoparametric search depends on a limit it does not reach", str(k).c_str());
                }
                auto x = k.BinarySearchParameterOn(q, d, fix, eps); c.step();
                MC_CHECK(c, in(x) && off(x) <= 4 * eps * size + 1e-13 * far, "%s: isoparametric bisection (direction %d) for the point at (%g, %g) with tolerance %g gives (%.17g, %.17g), %g away", str(k).c_str(), d, t, s, eps, x.first, x.second, off(x));
                MC_CHECK(c, (d ? x.second : x.first) == fix, "%s: isoparametric bisection changed the fixed coordinate %d from %.17g: (%.17g, %.17g)", str(k).c_str(), d, fix, x.first, x.second);
                auto y = k.BinarySearchParameterOn(q, d, fix, eps, 5000); c.step(); MC_CHECK(c, std::fabs(x.first - y.first) <= eps && std::fabs(x.second - y.second) <= eps, "%s: isoparametric bisection depends on a limit it does not reach", str(k).c_str());
            }
        }
        // defaults
        { auto x = k.SearchParameter(q); MC_CHECK(c, in(x) && off(x) <= 1e-8 * (1 + 1e-6) + 1e-13 * far, "%s: default search for the point at (%g, %g) is %g away", str(k).c_str(), t, s, off(x)); c.step(); }
        for (int d = 0; d < 2; ++d)
        {
            auto x = k.SearchParameterOn(q, d, d ? s : t); MC_CHECK(c, in(x) && off(x) <= 1e-8 * (1 + 1e-6) + 1e-13 * far, "%s: default isoparametric search (direction %d) for the point at (%g, %g) is %g away", str(k).c_str(), d, t, s, off(x));
            auto y = k.BinarySearchParameterOn(q, d, d ? s : t); MC_CHECK(c, in(y) && off(y) <= 4e-8 * size + 1e-13 * far, "%s: default isoparametric bisection (direction %d) for the point at (%g, %g) is %g away", str(k).c_str(), d, t, s, off(y)); c.step(2);
        }
    }
    MC_CHECK(c, same(k, before), "the surface was modified");
}
static void planes(Ctx& c)
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v"), eu = c.choose(2, "extra-u"), ev = c.choose(2, "extra-v") * 2; double size = c.pick(c.thorough ? Dv{1, 10, 100} : Dv{1, 100}, "size");
    struct F { Vec3 o, a, b; }; static const std::vector<F> fs{{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{1, 2, 3}, {1, 0.5, 0}, {0.3, 1, 0.4}}, {{0, -1, 0}, {0, 0, 3}, {1, 0, 0}}, {{0, 0, 0}, {-1, 0, 0}, {0, 0, 2}}};
    int fi = c.choose(4, "frame"); auto f = fs[fi]; c.shard();
    if (fi == 1) size = 1; // skewed: about unit size only
    on_surface(c, patch(p, q, p + 1 + eu, q + 1 + ev, f.o * size, f.a * size, f.b * size, 0));
}
static void bulges(Ctx& c)
{
    int p = c.range(2, 3, "degree-u"), q = c.range(2, 3, "degree-v"), e = c.choose(2, "extra"); double size = c.pick(Dv{1, 10, 100}, "size"), h = c.pick(Dv{0.05, 0.1, 0.2}, "height"); c.shard();
    on_surface(c, patch(p, q, p + 1 + e, q + 1 + 2 * e, {0, 0, 0}, Vec3(1, 0, 0) * size, Vec3(0, 1, 0) * size, h));
}
static void anywhere(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.4}, 1), V = knots(c, q, {0.7}, 1, 2); int s = c.choose(6, "points"); c.shard();
    Surface k = surface(p, q, U, V, s, s); c.state(hash(k)); c.log("%s", str(k).c_str());
    static const std::vector<Vec3> Q{{0, 0, 0}, {1.3, -0.4, 2}, {1e3, 1e3, -1e3}, {1e12, 0, 0}};
    auto in = [&](std::pair<double, double> x) { return x.first >= 0 && x.first <= 1 && x.second >= 0 && x.second <= 1; };
    for (auto& z : Q) for (int lim : {0, 1, 2, 7, 40, 512})
    {
        bool full = lim < 512 || c.thorough || &z == &Q[1];
        if (!full) continue;
        for (double i : {0.0, 0.3, 1.0})
        {
            if (lim == 512 && i != 0.3) continue;
            for (double j : {0.0, 0.6, 1.0})
            {
                if (lim >= 40 && j != 0.6) continue;
                auto x = k.SearchParameter(z, i, j, 1e-8, lim); c.step();
                MC_CHECK(c, in(x), "%s: search for %s from (%g, %g), limit %d gives (%.17g, %.17g)", str(k).c_str(), str(z).c_str(), i, j, lim, x.first, x.second);
                if (lim == 0) MC_CHECK(c, x.first == i && x.second == j, "%s: search with limit 0 from (%g, %g) gives (%.17g, %.17g)", str(k).c_str(), i, j, x.first, x.second);
                for (int d = 0; d < 2; ++d)
                {
                    auto y = k.SearchParameterOn(z, d, j, i, 1e-8, lim); c.step();
                    MC_CHECK(c, in(y) && (d ? y.second : y.first) == j, "%s: isoparametric search for %s, direction %d at %g, from %g, limit %d gives (%.17g, %.17g)", str(k).c_str(), str(z).c_str(), d, j, i, lim, y.first, y.second);
                    if (lim == 0) MC_CHECK(c, (d ? y.first : y.second) == i, "%s: isoparametric search with limit 0 from %g gives (%.17g, %.17g)", str(k).c_str(), i, y.first, y.second);
                    auto w = k.BinarySearchParameterOn(z, d, j, i == 0.3 ? 1e-3 : 1e-8, lim); c.step();
                    MC_CHECK(c, in(w) && (d ? w.second : w.first) == j, "%s: isoparametric bisection for %s, direction %d at %g, limit %d gives (%.17g, %.17g)", str(k).c_str(), str(z).c_str(), d, j, lim, w.first, w.second);
                }
            }
        }
    }
}
std::vector<mc::Body> mc::bodies() { return {{"planes", planes}, {"bulges", bulges}, {"anywhere", anywhere}}; }
