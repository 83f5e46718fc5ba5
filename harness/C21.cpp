#include "gen.hpp"
using namespace gen;
using libnurbs::Curve;
const char* mc::PROPERTY = "C21";

static Curve single(std::vector<Vec4> P, double size)
{
    Curve c; c.Degree = (int)P.size() - 1; Dv U(P.size(), 0.0); U.insert(U.end(), P.size(), 1.0); c.Knots.Values() = U;
    for (auto& p : P) p.head<3>() *= size;
    c.ControlPoints = P; return c;
}
static Curve straight(int p, int n, const Vec3& a, const Vec3& b)
{
    Curve c; c.Degree = p; Dv U(p + 1, 0.0); for (int i = 1; i < n - p; ++i) U.push_back((double)i / (n - p)); U.insert(U.end(), p + 1, 1.0); c.Knots.Values() = U;
    for (int i = 0; i < n; ++i) { Vec3 q = a + (b - a) * i / (n - 1); c.ControlPoints.push_back({q.x(), q.y(), q.z(), 1}); }
    return c;
}
static double length(const Curve& c) { double s = 0; for (size_t i = 1; i < c.ControlPoints.size(); ++i) s += (c.ControlPoints[i] - c.ControlPoints[i - 1]).head<3>().norm(); return s; }
static double dist(const ref::Curve& r, double u, const Vec3& q) { auto x = ref::eval(r, u); double s = 0; for (int d = 0; d < 3; ++d) { double e = (double)(x.v[d] - q[d]); s += e * e; } return std::sqrt(s); }
static Vec3 at(const ref::Curve& r, double u) { auto x = ref::eval(r, u); return Vec3((double)x.v[0], (double)x.v[1], (double)x.v[2]); }
static const Dv& targets() { static const Dv t{0, 1e-9, 1e-3, 0.1, 0.25, 0.3, 0.5, 0.62, 0.75, 0.99, 1 - 1e-9, 1}; return t; }
static const Dv& inits() { static const Dv t{0, 0.1, 0.25, 0.5, 0.62, 0.75, 0.9, 1}; return t; }
static const Dv& tols() { static const Dv t{1e-4, 1e-6, 1e-8}; return t; }

static void on_curve(Ctx& c, const Curve& k, bool gradient)
{
    c.state(hash(k)); c.log("%s", str(k).c_str());
    const Curve before = k; ref::Curve r = lift(k); double len = length(k);
    for (double t : targets())
    {
        Vec3 q = at(r, t);
        for (double eps : tols())
        {
            if (gradient) for (double i : inits())
            {
                double u = k.SearchParameter(q, i, eps); c.step();
                MC_CHECK(c, u >= 0 && u <= 1, "%s: search for the point at %g from %g gives %.17g", str(k).c_str(), t, i, u);
                MC_CHECK(c, dist(r, u, q) <= eps * (1 + 1e-6) + 1e-13 * len, "%s: search for the point at %.17g from %g with tolerance %g gives %.17g, %g away", str(k).c_str(), t, i, eps, u, dist(r, u, q));
                double u2 = k.SearchParameter(q, i, eps, 5000); c.step();
                MC_CHECK(c, u2 == u, "%s: search for the point at %g from %g, tolerance %g: %.17g with 512 iterations, %.17g with 5000", str(k).c_str(), t, i, eps, u, u2);
            }
            double u = k.BinarySearchParameter(q, eps); c.step();
            MC_CHECK(c, u >= 0 && u <= 1, "%s: bisection for the point at %g gives %.17g", str(k).c_str(), t, u);
            MC_CHECK(c, dist(r, u, q) <= 4 * eps * len + 1e-13 * len, "%s: bisection for the point at %.17g with tolerance %g gives %.17g, %g away", str(k).c_str(), t, eps, u, dist(r, u, q));
            double u2 = k.BinarySearchParameter(q, eps, 5000); c.step();
            MC_CHECK(c, std::fabs(u2 - u) <= eps, "%s: bisection for the point at %g, tolerance %g: %.17g with 512 iterations, %.17g with 5000", str(k).c_str(), t, eps, u, u2);
        }
        if (gradient)
        {
            MC_CHECK(c, dist(r, k.SearchParameter(q), q) <= 1e-8 * (1 + 1e-6) + 1e-13 * len, "%s: default search for the point at %g is %g away", str(k).c_str(), t, dist(r, k.SearchParameter(q), q));
        }
        MC_CHECK(c, dist(r, k.BinarySearchParameter(q), q) <= 4e-8 * len, "%s: default bisection for the point at %g is %g away", str(k).c_str(), t, dist(r, k.BinarySearchParameter(q), q));
        c.step(2);
    }
    MC_CHECK(c, same(k, before), "the curve was modified");
}
static void lines(Ctx& c)
{
    int p = c.range(1, c.thorough ? 6 : 5, "degree"), n = p + c.range(1, c.thorough ? 6 : 5, "spans"); double size = c.pick(Dv{1.0, 10.0, 100.0}, "size"); c.shard();
    static const std::vector<std::pair<Vec3, Vec3>> L{{{0, 0, 0}, {1, 0, 0}}, {{0, 0, 0}, {0, 0, 1}}, {{3, -2, 1}, {3.6, -1.52, 1.64}}, {{0, 1, 0}, {0, 0, 0}}, {{-1, -1, -1}, {-2, -0.5, -1.25}}};
    auto l = c.pick(L, "end points");
    on_curve(c, straight(p, n, l.first * size, l.second * size), true);
}
static void arches(Ctx& c)
{
    double size = c.pick(Dv{1.0, 10.0, 100.0}, "size"), h = c.pick(Dv{0.0, 0.05, 0.1, 0.25, 0.4, 0.5}, "height"), m = c.pick(Dv{0.4, 0.5, 0.6}, "apex"); int kind = c.choose(4, "kind"); c.shard();
    if (kind == 0) on_curve(c, single({{0, 0, 0, 1}, {m, h, 0.1, 1}, {1, 0, 0, 1}}, size), true);
    if (kind == 1) on_curve(c, single({{0, 0, 0, 1}, {0.33, h / 2, 0, 1}, {m + 0.16, h / 2, 0.1, 1}, {1, 0, 0, 1}}, size), true);
    if (kind == 2) on_curve(c, single({{1, 2, 3, 2}, {1 + h, 2.2, 3.5, 2}, {1, 2, 4, 2}}, size), true); // equal weights
    if (kind == 3) on_curve(c, single({{0, 0, 0, 1}, {0.33, h / 4, 0, 1}, {0.66, -h / 4, 0.05, 1}, {1, 0, 0, 1}}, size), true); // gentle S
}
// rational arcs and rational straight segments: bisection only
static void rational(Ctx& c)
{
    double size = c.pick(Dv{0.01, 1.0, 10.0, 1000.0}, "size"), w = c.pick(Dv{0.5, 0.70710678118654752, 1.0, 2.0, 3.0}, "weight"); bool arc = c.flip("arc"); c.shard();
    on_curve(c, arc ? single({{1, 0, 0, 1}, {1, 1, 0, w}, {0, 1, 0, 1}}, size) : single({{0, 0, 0, 1}, {1, 0.5, 0.25, w}}, size), false);
}
// anything at all: terminates, stays in [0,1]
static void anywhere(Ctx& c)
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.25, 0.6}, 2); int s = c.choose(6, "points"), w = c.pick(c.thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6} : std::vector<int>{0, 2, 5}, "weights"); c.shard();
    Curve k = curve(p, U, s, w); c.state(hash(k)); c.log("%s", str(k).c_str());
    static const std::vector<Vec3> Q{{0, 0, 0}, {1.3, -0.4, 2}, {1e3, 1e3, -1e3}, {0.5, 0.5, 0.5}, {1e12, 0, 0}};
    for (size_t n = 0; n < Q.size(); ++n)
    {
        auto& q = Q[n]; bool full = n == 1 || c.thorough;
        for (double i : {0.0, 0.3, 1.0}) for (int lim : {0, 1, 2, 7, 40, 512})
        {
            if (lim == 512 && (i != 0.3 || !full)) continue;
            double u = k.SearchParameter(q, i, 1e-8, lim); c.step();
            MC_CHECK(c, u >= 0 && u <= 1, "%s: search for %s from %g, limit %d gives %.17g", str(k).c_str(), str(q).c_str(), i, lim, u);
            if (lim == 0) MC_CHECK(c, u == i, "%s: search with limit 0 from %g gives %.17g", str(k).c_str(), i, u);
        }
        for (int lim : {0, 1, 2, 7, 512}) for (double eps : {1e-8, 1e-3, 0.5})
        {
            double u = k.BinarySearchParameter(q, eps, lim); c.step();
            MC_CHECK(c, u >= 0 && u <= 1, "%s: bisection for %s, tolerance %g, limit %d gives %.17g", str(k).c_str(), str(q).c_str(), eps, lim, u);
        }
    }
}
std::vector<mc::Body> mc::bodies() { return {{"lines", lines}, {"arches", arches}, {"rational", rational}, {"anywhere", anywhere}}; }
