#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C04";

static void check(Ctx& c, const libnurbs::Curve& k, bool fine = false)
{
    const libnurbs::Curve before = k;
    ref::Curve r = lift(k); const double net = net_slack(k.ControlPoints);
    c.state(hash(k)); c.log("%s", str(k).c_str());
    for (double u : fine ? params_fine(k.Knots.Values(), 2, k.Knots.Count() > 80 ? 7 : 1) : params(k.Knots.Values(), 3))
    {
        Vec3 g = k.Evaluate(u); c.step(); auto w = ref::eval(r, u);
        MC_CHECK(c, near(g, w, 1e-12, net), "%s at %.17g: %s, expected %s", str(k).c_str(), u, str(g).c_str(), str(w).c_str());
    }
    Vec3 a = k.Evaluate(0), b = k.Evaluate(1); double s = scale(k);
    MC_CHECK(c, (a - k.ControlPoints.front().head<3>()).norm() <= 1e-13 * s + 1e-300, "%s does not start at its first control point", str(k).c_str());
    MC_CHECK(c, (b - k.ControlPoints.back().head<3>()).norm() <= 1e-13 * s + 1e-300, "%s does not end at its last control point", str(k).c_str());
    bool rat = false; for (auto& p : k.ControlPoints) rat |= p.w() != k.ControlPoints[0].w();
    MC_CHECK(c, k.IsRational() == rat, "%s reported %srational", str(k).c_str(), rat ? "not " : "");
    for (double f : {2.0, 3.7, 1e-9, 1e8})
    {
        libnurbs::Curve q = k; for (auto& p : q.ControlPoints) p.w() *= f;
        for (double u : {0.0, 0.3, 0.5, 0.77, 1.0}) { Vec3 x = q.Evaluate(u), y = k.Evaluate(u); c.step(2); MC_CHECK(c, (x - y).norm() <= 1e-12 * s + 1e-300, "%s: scaling all weights by %g moves the point at %g", str(k).c_str(), f, u); }
    }
    MC_CHECK(c, same(k, before), "evaluation modified the curve");
}
static void structure(Ctx& c)
{
    int p = c.range(1, c.thorough ? 6 : 5, "degree"); bool g = c.flip("grid");
    Dv U = knots(c, p, g ? grid_odd() : grid_even(), (p <= 3 || c.thorough) ? 3 : 2);
    c.shard();
    int w = c.choose(7, "weights"), s = c.choose(6, "points");
    check(c, curve(p, U, s, w));
}
// every assignment of weights from a small set on small curves
static void weights(Ctx& c)
{
    static const Dv ws{1.0, 0.5, 3.0, 20.0};
    int p = c.range(1, 3, "degree"); Dv U = knots(c, p, {0.4, 0.7}, 1, 2);
    libnurbs::Curve k = curve(p, U, 5, 0);
    int n = (int)k.ControlPoints.size();
    for (int i = 0; i < n; ++i) { k.ControlPoints[i].w() = c.pick(ws, "w"); if (i == 1) c.shard(); }
    check(c, k);
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 17, 33, 65, 130, 257}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 2e-7, 1e-8, 1e-10}) + fam_high(6, 18);
    static const std::vector<std::pair<int, int>> ST{{0, 0}, {5, 2}, {6, 3}, {7, 11}};
    int i = c.choose((int)F.size(), "member"); c.shard(); auto [s, w] = c.pick(ST, "style");
    check(c, curve(F[i].p, F[i].U, s, w), true);
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points");
    check(c, curve(p, U, s, w), true);
}
static void special_nets(Ctx& c) { check(c, special_curve(c), true); }
static void huge_nets(Ctx& c)
{
    int p = c.range(1, 2, "degree"); Fam f = huge(p, c.pick(huge_sizes(), "spans")); c.shard(); check(c, curve(f.p, f.U, 5, 2));
}
std::vector<mc::Body> mc::bodies() { return {{"structure", structure}, {"weights", weights}, {"families", families}, {"extreme", extreme}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
