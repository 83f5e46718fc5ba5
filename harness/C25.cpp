#include "gen.hpp"
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
using namespace gen;
const char* mc::PROPERTY = "C25";
using libnurbs::GeomRect; using libnurbs::GeomSegment;

static Dv uniform(int p, int n) { Dv U(p + 1, 0.0); for (int i = 1; i < n - p; ++i) U.push_back((double)((ref::R)i / (n - p))); U.insert(U.end(), p + 1, 1.0); return U; }
static void knots_ok(Ctx& c, const Dv& g, int p, int n, const char* what)
{
    Dv w = uniform(p, n); MC_CHECK(c, g.size() == w.size(), "%s: %zu knots for degree %d and %d points", what, g.size(), p, n);
    for (size_t i = 0; i < g.size(); ++i) MC_CHECK(c, std::fabs(g[i] - w[i]) <= 1e-13, "%s: knots %s, expected %s", what, str(g).c_str(), str(w).c_str());
}
static const std::vector<Vec3>& corners()
{
    static const std::vector<Vec3> v{{0, 0, 0}, {1, 0, 0}, {-2, 3, 0.5}, {1e5, -1e5, 7}, {1e-6, 2e-6, -1e-6}, {0.1, 0.2, 0.3}, {-7, 0, 4}, {1e12, 3e12, -2e12}, {-1e-12, 1e-12, 0}};
    return v;
}
static void segment_case(Ctx& c, int p, int n)
{
    auto& V = corners(); int a = c.choose((int)V.size(), "left"), b = c.choose((int)V.size(), "right");
    GeomSegment s = GeomSegment::Make(V[a], V[b]);
    MC_CHECK(c, s.Degree == 1 && s.ControlPointCount == 2 && s.LeftPoint == V[a] && s.RightPoint == V[b], "Make does not keep its arguments");
    s.Degree = p; s.ControlPointCount = n;
    auto k = s.GetCurve(); c.step(); c.state(hash(k)); c.log("degree %d points %d %s - %s", p, n, str(V[a]).c_str(), str(V[b]).c_str());
    MC_CHECK(c, k.Degree == p && (int)k.ControlPoints.size() == n, "segment of degree %d with %d points: degree %d, %zu points", p, n, k.Degree, k.ControlPoints.size());
    well_formed(c, k, "segment"); knots_ok(c, k.Knots.Values(), p, n, "segment");
    double sc = V[a].norm() + V[b].norm() + 1e-300;
    for (int i = 0; i < n; ++i)
    {
        MC_CHECK(c, k.ControlPoints[i].w() == 1.0, "segment: weight %g", k.ControlPoints[i].w());
        for (int d = 0; d < 3; ++d) { double w = (double)((ref::R)V[a][d] + ((ref::R)V[b][d] - V[a][d]) * i / (n - 1)); MC_CHECK(c, std::fabs(k.ControlPoints[i][d] - w) <= 1e-13 * sc, "segment %s-%s: point %d of %d is %s", str(V[a]).c_str(), str(V[b]).c_str(), i, n, str(k.ControlPoints[i]).c_str()); }
    }
    Vec3 dir = V[b] - V[a]; double L2 = dir.squaredNorm();
    for (double u : {0.0, 0.2, 0.5, 0.77, 1.0})
    {
        Vec3 q = k.Evaluate(u); c.step();
        double t = L2 > 0 ? (q - V[a]).dot(dir) / L2 : 0; Vec3 foot = V[a] + t * dir;
        MC_CHECK(c, (q - foot).norm() <= 1e-12 * sc && t >= -1e-12 && t <= 1 + 1e-12, "segment %s-%s leaves the line at %g: %s", str(V[a]).c_str(), str(V[b]).c_str(), u, str(q).c_str());
        if (u == 0) MC_CHECK(c, (q - V[a]).norm() <= 1e-13 * sc, "segment does not start at its left point: %s", str(q).c_str());
        if (u == 1) MC_CHECK(c, (q - V[b]).norm() <= 1e-13 * sc, "segment does not end at its right point: %s", str(q).c_str());
    }
}
static void segment(Ctx& c)
{
    int p = c.range(1, c.thorough ? 12 : 9, "degree"), n = c.range(p + 1, p + (c.thorough ? 30 : 14), "points"); c.shard(); segment_case(c, p, n);
}
static void segment_large(Ctx& c)
{
    static const std::vector<int> P{1, 2, 3, 5, 8, 12, 16}, N{15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 200, 257, 500}; int p = c.pick(P, "degree"), n = p + c.pick(N, "points"); c.shard(); segment_case(c, p, n);
}
static void rect_case(Ctx& c, int p, int q, int nu, int nv)
{
    struct F { Vec3 o, a, b; }; static const std::vector<F> fs{{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{1, 2, 3}, {1, 0.5, 0}, {0.3, 1, 0.4}}, {{0, -1, 0}, {0, 0, 3}, {-1, 0, 0}}, {{1e5, 0, -1e5}, {-20, 1, 0}, {0, 0, 2}}, {{0, 0, 0}, {1e-5, 0, 0}, {0, 3e-5, 1e-5}}, {{0, 0, 0}, {1e11, 0, 2e11}, {0, -3e11, 1e11}}, {{5, 5, 5}, {0, 0, 0}, {1, 1, 0}}, {{-1, 0, 0}, {1e-7, 1e-7, 0}, {10, -10, 1}}};
    auto f = c.pick(fs, "frame"); Vec3 lb = f.o, rb = f.o + f.a, lt = f.o + f.b, rt = rb + f.b;
    GeomRect r = GeomRect::Make(lb, rb, lt, rt);
    MC_CHECK(c, r.DegreeU == 1 && r.DegreeV == 1 && r.ControlPointCountU == 2 && r.ControlPointCountV == 2 && r.LeftBottomPoint == lb && r.RightBottomPoint == rb && r.LeftTopPoint == lt && r.RightTopPoint == rt, "Make does not keep its arguments");
    r.DegreeU = p; r.DegreeV = q; r.ControlPointCountU = nu; r.ControlPointCountV = nv;
    auto s = r.GetSurface(); c.step(); c.state(hash(s)); c.log("%s", str(s).c_str());
    MC_CHECK(c, s.DegreeU == p && s.DegreeV == q && s.ControlPoints.UCount == nu && s.ControlPoints.VCount == nv, "rectangle of degrees %d,%d and %dx%d points: %s", p, q, nu, nv, str(s).c_str());
    well_formed(c, s, "rectangle"); knots_ok(c, s.KnotsU.Values(), p, nu, "rectangle u"); knots_ok(c, s.KnotsV.Values(), q, nv, "rectangle v");
    double sc = lb.norm() + rt.norm() + rb.norm() + lt.norm();
    for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i)
    {
        Vec4 g = s.ControlPoints.Values[j * nu + i]; MC_CHECK(c, g.w() == 1.0, "rectangle: weight %g", g.w());
        for (int d = 0; d < 3; ++d) { double w = (double)((ref::R)lb[d] + ((ref::R)rb[d] - lb[d]) * i / (nu - 1) + ((ref::R)lt[d] - lb[d]) * j / (nv - 1)); MC_CHECK(c, std::fabs(g[d] - w) <= 1e-13 * sc, "rectangle: point (%d, %d) of %dx%d is %s", i, j, nu, nv, str(g).c_str()); }
    }
    const std::pair<std::pair<double, double>, Vec3> cs[] = {{{0, 0}, lb}, {{1, 0}, rb}, {{0, 1}, lt}, {{1, 1}, rt}};
    for (auto& x : cs) { Vec3 g = s.Evaluate(x.first.first, x.first.second); c.step(); MC_CHECK(c, (g - x.second).norm() <= 1e-13 * sc, "rectangle: corner (%g, %g) is %s instead of %s", x.first.first, x.first.second, str(g).c_str(), str(x.second).c_str()); }
}
static void rect(Ctx& c)
{
    int p = c.range(1, c.thorough ? 5 : 4, "degree-u"), q = c.range(1, c.thorough ? 5 : 4, "degree-v"), nu = p + c.range(1, 4, "points-u"), nv = q + c.range(1, 4, "points-v"); c.shard(); rect_case(c, p, q, nu, nv);
}
static void rect_large(Ctx& c)
{
    static const std::vector<int> P{1, 2, 3, 6, 9}, N{5, 7, 9, 13, 17, 33, 65}; int p = c.pick(P, "degree-u"), q = c.pick(P, "degree-v"), nu = p + c.pick(N, "points-u"), nv = q + c.pick(N, "points-v"); c.shard(); rect_case(c, p, q, nu, nv);
}
std::vector<mc::Body> mc::bodies() { return {{"segment", segment}, {"segment_large", segment_large}, {"rectangle", rect}, {"rectangle_large", rect_large}}; }
