#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C26";
using libnurbs::Mat3x3;

static const std::vector<Mat3x3>& matrices()
{
    static const std::vector<Mat3x3> v = [] {
        std::vector<Mat3x3> r; auto add = [&](double a, double b, double c, double d, double e, double f, double g, double h, double i) { Mat3x3 m; m << a, b, c, d, e, f, g, h, i; r.push_back(m); };
        add(1, 0, 0, 0, 1, 0, 0, 0, 1); add(0, -1, 0, 1, 0, 0, 0, 0, 1); add(0.6, 0, 0.8, 0, 1, 0, -0.8, 0, 0.6); add(1, 2, 3, 4, 5, 6, 7, 8, 10);
        add(-1, 0, 0, 0, 1, 0, 0, 0, 1); add(1, 2, 0, 0, 1, 0, 0, 0, 3); add(1, 0, 0, 0, 1, 0, 0, 0, 0); add(0, 0, 0, 0, 0, 0, 0, 0, 0); add(1, 2, 3, 2, 4, 6, -1, -2, -3);
        add(0, 1, 0, 0, 0, 1, 1, 0, 0); add(1e6, 0, 0, 0, 1e-6, 0, 0, 0, 1); add(0.1, -0.7, 0.2, 3.3, 0.5, -1.1, 0.9, 0.4, -2.2);
        for (double e : {1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12}) // nearly the identity: scaled, turned, sheared, mirrored
        {
            add(1 + e, 0, 0, 0, 1 + e, 0, 0, 0, 1 + e); add(std::cos(e), -std::sin(e), 0, std::sin(e), std::cos(e), 0, 0, 0, 1); add(1, 0, 0, 0, 1, e, 0, 0, 1); add(1, 0, 0, 0, 1, 0, e, 0, -1);
        }
        add(1e-20, 0, 0, 0, 1e-20, 0, 0, 0, 1e-20); add(1e20, 0, 0, 0, 1e20, 0, 0, 0, 1e20); add(-1, 0, 0, 0, -1, 0, 0, 0, -1);
        for (int i = 0; i < 9; ++i) { Mat3x3 m = Mat3x3::Zero(); m(i / 3, i % 3) = 2; r.push_back(m); }
        return r;
    }();
    return v;
}
static std::string str(const Mat3x3& m) { std::string s = "["; char b[40]; for (int i = 0; i < 9; ++i) { snprintf(b, 40, "%s%g", i ? " " : "", m(i / 3, i % 3)); s += b; } return s + "]"; }
static double mag(const Mat3x3& m) { return m.cwiseAbs().maxCoeff(); }
static ref::P4 map(const Mat3x3& m, const Vec4& p) { ref::P4 r; for (int i = 0; i < 3; ++i) { r[i] = 0; for (int j = 0; j < 3; ++j) r[i] += (ref::R)m(i, j) * p[j]; } r[3] = p.w(); return r; }
static void point_ok(Ctx& c, const Mat3x3& m, const Vec4& g, const Vec4& p, const char* what)
{
    auto w = map(m, p); double tol = 1e-14 * mag(m) * p.head<3>().cwiseAbs().maxCoeff() + 1e-300;
    for (int d = 0; d < 3; ++d) MC_CHECK(c, std::fabs((double)(g[d] - w[d])) <= tol, "%s: matrix %s takes control point %s to %s", what, str(m).c_str(), gen::str(p).c_str(), gen::str(g).c_str());
    MC_CHECK(c, g.w() == p.w(), "%s: weight changed from %.17g to %.17g", what, p.w(), g.w());
}
static void image_ok(Ctx& c, const Mat3x3& m, const ref::D3& x, const Vec3& g, double sc, const char* what)
{
    for (int d = 0; d < 3; ++d) { ref::R w = 0; for (int j = 0; j < 3; ++j) w += (ref::R)m(d, j) * x.v[j]; MC_CHECK(c, std::fabs((double)(g[d] - w)) <= 1e-12 * (mag(m) * sc) + 1e-300, "%s: matrix %s, point %s, image %s", what, str(m).c_str(), gen::str(x).c_str(), gen::str(g).c_str()); }
}
static void go(Ctx& c, const libnurbs::Curve& k, double loss)
{
    auto& M = matrices(); int i = c.choose((int)M.size(), "matrix");
    const auto before = k; auto g = k.Transform(M[i]); c.step(); c.state(mc::mix(hash(k), i)); c.log("%s %s", gen::str(k).c_str(), str(M[i]).c_str());
    MC_CHECK(c, same(k, before), "the curve was modified");
    MC_CHECK(c, g.Degree == k.Degree && g.Knots.Values() == k.Knots.Values() && g.ControlPoints.size() == k.ControlPoints.size(), "transforming changed degree, knots or count: %s", gen::str(g).c_str());
    for (size_t n = 0; n < k.ControlPoints.size(); ++n) point_ok(c, M[i], g.ControlPoints[n], k.ControlPoints[n], "curve");
    ref::Curve r = lift(k); for (double u : {0.0, 0.15, 0.3, 0.5, 0.7, 0.95, 1.0}) { image_ok(c, M[i], ref::eval(r, u), g.Evaluate(u), scale(k) * loss, "curve"); c.step(); }
    if (i == 0) MC_CHECK(c, same(g, k), "the identity changed %s", gen::str(k).c_str());
    for (int j = 1; j < (c.thorough ? (int)M.size() : 6); ++j)
    {
        auto a = g.Transform(M[j]), b = k.Transform(M[j] * M[i]); c.step(2);
        for (size_t n = 0; n < k.ControlPoints.size(); ++n) MC_CHECK(c, (a.ControlPoints[n] - b.ControlPoints[n]).cwiseAbs().maxCoeff() <= 1e-13 * (9 * mag(M[i]) * mag(M[j]) * scale(k)) + 1e-300, "transforms do not compose: %s then %s", str(M[i]).c_str(), str(M[j]).c_str());
    }
}
static void on_curve(Ctx& c)
{
    int p = c.range(1, 3, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); int w = c.choose(13, "weights"), s = c.choose(11, "points"); c.shard();
    go(c, curve(p, U, s, w), w == 11 ? 1e6 : w >= 4 ? 50 : 4);
}
static void curve_families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {10, 33, 100}) + fam_tight({1, 2, 3}, {1e-5}) + fam_high(5, 9); int f = c.choose((int)F.size(), "family member"), s = c.choose(3, "style"); c.shard();
    go(c, curve(F[f].p, F[f].U, s == 0 ? 0 : 5 + s, s == 0 ? 2 : 8 + s), 50);
}
static void go(Ctx& c, const libnurbs::Surface& k, double loss)
{
    auto& M = matrices(); int i = c.choose((int)M.size(), "matrix");
    const auto before = k; auto g = k.Transform(M[i]); c.step(); c.state(mc::mix(hash(k), i)); c.log("%s %s", gen::str(k).c_str(), str(M[i]).c_str());
    MC_CHECK(c, same(k, before), "the surface was modified");
    MC_CHECK(c, g.DegreeU == k.DegreeU && g.DegreeV == k.DegreeV && g.KnotsU.Values() == k.KnotsU.Values() && g.KnotsV.Values() == k.KnotsV.Values() && g.ControlPoints.UCount == k.ControlPoints.UCount && g.ControlPoints.VCount == k.ControlPoints.VCount && g.ControlPoints.Values.size() == k.ControlPoints.Values.size(), "transforming changed degrees, knots or counts: %s", gen::str(g).c_str());
    for (size_t n = 0; n < k.ControlPoints.Values.size(); ++n) point_ok(c, M[i], g.ControlPoints.Values[n], k.ControlPoints.Values[n], "surface");
    ref::Surface r = lift(k); for (double u : {0.0, 0.3, 0.55, 1.0}) for (double v : {0.0, 0.4, 0.7, 1.0}) { image_ok(c, M[i], ref::eval(r, u, v), g.Evaluate(u, v), scale(k) * loss, "surface"); c.step(); }
    if (i == 0) MC_CHECK(c, same(g, k), "the identity changed %s", gen::str(k).c_str());
    for (int j = 1; j < (c.thorough ? (int)M.size() : 6); ++j)
    {
        auto a = g.Transform(M[j]), b = k.Transform(M[j] * M[i]); c.step(2);
        for (size_t n = 0; n < k.ControlPoints.Values.size(); ++n) MC_CHECK(c, (a.ControlPoints.Values[n] - b.ControlPoints.Values[n]).cwiseAbs().maxCoeff() <= 1e-13 * (9 * mag(M[i]) * mag(M[j]) * scale(k)) + 1e-300, "transforms do not compose: %s then %s", str(M[i]).c_str(), str(M[j]).c_str());
    }
}
static void on_surface(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.7}, 1, 2); int s = c.choose(11, "points"); bool e = c.flip("other weights"); c.shard();
    int w = e ? (5 + s) % 13 : s == 0 ? 6 : s; go(c, surface(p, q, U, V, s, w), w == 11 ? 1e6 : 50);
}
static void surface_families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {10, 40}) + fam_high(5, 6), G = fam_large({1, 2}, {1, 3, 12}); int f = c.choose((int)F.size(), "family member"), g = c.choose((int)G.size(), "other direction"); bool swap = c.flip("swap"); int s = c.choose(3, "style"); c.shard();
    int ps = s == 0 ? 0 : 5 + s, w = s == 0 ? 2 : 8 + s; go(c, swap ? surface(G[g].p, F[f].p, G[g].U, F[f].U, ps, w) : surface(F[f].p, G[g].p, F[f].U, G[g].U, ps, w), 50);
}
static void special_nets(Ctx& c) { if (c.flip("surface")) { int p = c.range(1, 2, "degree-u"), kind = c.choose(SURFACE_KINDS, "net"); c.shard(); go(c, special(surface(p, 2, p == 1 ? Dv{0, 0, 0.3, 1, 1} : Dv{0, 0, 0, 1, 1, 1}, {0, 0, 0, 0.7, 1, 1, 1}, 5, 2), kind), 50); }
    else go(c, special_curve(c), 50); }
static void huge_nets(Ctx& c)
{
    if (c.flip("surface"))
    {
        auto [a, b] = c.pick(std::vector<std::pair<int, int>>{{257, 1}, {1, 257}, {20, 30}}, "spans"); c.shard(); Fam f = huge(1, a), g = huge(2, b);
        go(c, surface(f.p, g.p, f.U, g.U, 5, 2), 50);
    }
    else { Fam f = huge(2, c.pick(std::vector<int>{256, 300, 700}, "spans")); c.shard(); go(c, curve(f.p, f.U, 5, 2), 50); }
}
std::vector<mc::Body> mc::bodies() { return {{"curve", on_curve}, {"surface", on_surface}, {"curve_families", curve_families}, {"surface_families", surface_families}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
