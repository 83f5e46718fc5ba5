#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C19";

// true extrema of one coordinate, by dense reference sampling followed by golden section refinement
struct Ext { double lo[3], hi[3]; };
static Ext extent(const libnurbs::Curve& k)
{
    ref::Curve r = lift(k); Dv brk{0}; for (auto& x : interior(k.Knots.Values())) brk.push_back(x.first); brk.push_back(1);
    Ext e; for (int d = 0; d < 3; ++d) { e.lo[d] = INFINITY; e.hi[d] = -INFINITY; }
    const int N = 24 + 8 * k.Degree;
    for (size_t s = 0; s + 1 < brk.size(); ++s)
    {
        std::vector<ref::D3> v; Dv us;
        for (int i = 0; i <= N; ++i) { double u = brk[s] + (brk[s + 1] - brk[s]) * i / N; if (i == N) u = brk[s + 1]; us.push_back(u); v.push_back(ref::eval(r, u)); }
        for (int d = 0; d < 3; ++d) for (int sg = -1; sg <= 1; sg += 2)
        {
            int b = 0; for (int i = 1; i <= N; ++i) if (sg * v[i].v[d] > sg * v[b].v[d]) b = i;
            double best = (double)v[b].v[d];
            // refine every local maximum that could still win (all of them: cheap)
            for (int i = 0; i <= N; ++i)
            {
                bool loc = (i == 0 || sg * v[i].v[d] >= sg * v[i - 1].v[d]) && (i == N || sg * v[i].v[d] >= sg * v[i + 1].v[d]);
                if (!loc) continue;
                ref::R a = us[std::max(0, i - 1)], z = us[std::min(N, i + 1)];
                for (int it = 0; it < 70; ++it) { ref::R m1 = a + (z - a) * 0.38196601125L, m2 = a + (z - a) * 0.61803398875L; if (sg * ref::eval(r, m1).v[d] < sg * ref::eval(r, m2).v[d]) a = m1; else z = m2; }
                double x = (double)ref::eval(r, (a + z) / 2).v[d]; if (sg * x > sg * best) best = x;
            }
            if (sg < 0) e.lo[d] = std::min(e.lo[d], best); else e.hi[d] = std::max(e.hi[d], best);
        }
    }
    return e;
}
static void check(Ctx& c, const libnurbs::Curve& k)
{
    c.state(hash(k)); c.log("%s", str(k).c_str());
    const libnurbs::Curve before = k; Ext e = extent(k); double sc = scale(k);
    Vec3 lo = k.ControlPoints[0].head<3>(), hi = lo; for (auto& q : k.ControlPoints) { lo = lo.cwiseMin(q.head<3>()); hi = hi.cwiseMax(q.head<3>()); } double diag = (hi - lo).norm();
    for (double t : {1e-3, 1e-6, 1e-9, 0.1, 0.0, 1.01 * diag, 0.99 * diag, 0.7 * diag, 0.51 * diag, 0.2 * diag, 1e9})
    {
        auto box = k.GetBoundingBox(t); c.step(); double tol = std::max(t, 1e-6) * (1 + 1e-9) + 1e-12 * sc;
        for (int d = 0; d < 3; ++d)
        {
            MC_CHECK(c, box.Min[d] <= e.lo[d] + tol && box.Max[d] >= e.hi[d] - tol, "%s, tolerance %g: box %s-%s misses part of the curve, which reaches [%.17g, %.17g] in coordinate %d", str(k).c_str(), t, str(Vec3(box.Min)).c_str(), str(Vec3(box.Max)).c_str(), e.lo[d], e.hi[d], d);
            double out = 1e-9 * sc + 1e-12;
            MC_CHECK(c, box.Min[d] >= e.lo[d] - out && box.Max[d] <= e.hi[d] + out, "%s, tolerance %g: box %s-%s is too large, the curve reaches only [%.17g, %.17g] in coordinate %d", str(k).c_str(), t, str(Vec3(box.Min)).c_str(), str(Vec3(box.Max)).c_str(), e.lo[d], e.hi[d], d);
        }
    }
    { auto a = k.GetBoundingBox(), b = k.GetBoundingBox(); MC_CHECK(c, a.Min == b.Min && a.Max == b.Max, "%s: two calls disagree", str(k).c_str()); c.step(2); }
    MC_CHECK(c, same(k, before), "the curve was modified");
}
static void structure(Ctx& c)
{
    int p = c.range(1, c.thorough ? 6 : 5, "degree");
    Dv U = knots(c, p, p <= 4 || c.thorough ? grid_even() : Dv{0.25, 0.6}, 2);
    c.shard();
    static const std::vector<std::pair<int, int>> sty{{0, 0}, {5, 2}, {0, 4}, {1, 3}, {2, 6}, {4, 5}, {5, 1}, {0, 5}};
    auto s = c.pick(sty, "style");
    check(c, curve(p, U, s.first, s.second));
}
// every assignment of points from a small lattice: turning points, cusps, loops, coincident and collinear points
static void lattice(Ctx& c)
{
    int p = c.range(1, 3, "degree"); libnurbs::Curve k; k.Degree = p; k.Knots.Values() = Dv(p + 1, 0.0); k.Knots.Values().insert(k.Knots.Values().end(), p + 1, 1.0);
    static const std::vector<Vec3> pts{{0, 0, 0}, {1, 0, 2}, {-1, 2, 0.5}, {1, -1, -1}};
    int ws = c.choose(4, "weights"); static const double W[4][4] = {{1, 1, 1, 1}, {1, 3, 0.5, 2}, {1, 0.1, 10, 1}, {5, 1, 1, 0.2}};
    for (int i = 0; i <= p; ++i) { Vec3 q = c.pick(pts, "point"); k.ControlPoints.push_back({q.x(), q.y(), q.z(), W[ws][i]}); if (i == 1) c.shard(); }
    check(c, k);
}
// circles and arcs in every coordinate plane
static void circles(Ctx& c)
{
    int plane = c.choose(3, "plane"); double rad = c.pick(Dv{1.0, 0.01, 50.0}, "radius"); Vec3 ctr = c.pick(std::vector<Vec3>{{0, 0, 0}, {3, -2, 7}}, "centre"); int quads = c.range(1, 4, "quadrants"); c.shard();
    libnurbs::Curve k; k.Degree = 2; Dv U{0, 0, 0}; static const double X[] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, Y[] = {0, 1, 1, 1, 0, -1, -1, -1, 0};
    for (int q = 1; q < quads; ++q) { U.push_back((double)q / quads); U.push_back((double)q / quads); }
    U.insert(U.end(), 3, 1.0); k.Knots.Values() = U;
    for (int i = 0; i <= 2 * quads; ++i) { Vec3 q = ctr; q[plane] += rad * X[i]; q[(plane + 1) % 3] += rad * Y[i]; k.ControlPoints.push_back({q.x(), q.y(), q.z(), i % 2 ? std::sqrt(0.5) : 1.0}); }
    check(c, k);
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 33}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6}) + fam_high(6, c.thorough ? 16 : 12);
    static const std::vector<std::pair<int, int>> ST{{0, 0}, {5, 2}, {4, 3}, {7, 6}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    check(c, curve(f.p, f.U, s, w));
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points");
    check(c, curve(p, U, s, w));
}
static void special_nets(Ctx& c) { check(c, special_curve(c)); }
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"structure", structure}, {"lattice", lattice}, {"circles", circles}, {"special_nets", special_nets}}; }
