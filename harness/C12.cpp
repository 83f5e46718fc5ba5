#include "gen.hpp"
using namespace gen;
using libnurbs::Curve;
const char* mc::PROPERTY = "C12";
static const std::vector<std::pair<int, int>> STYLES{{0, 0}, {0, 2}, {5, 3}, {3, 6}, {4, 4}, {1, 5}, {2, 1}};
static Dv raised(const Dv& U, int t)
{
    Dv r;
    for (size_t i = 0; i < U.size(); ++i) { r.push_back(U[i]); if (i + 1 == U.size() || U[i + 1] != U[i]) r.insert(r.end(), t, U[i]); }
    return r;
}
static void run(Ctx& c, const Curve& k, int t)
{
    Curve before = k; c.state(hash(k)); c.log("%s elevate by %d", str(k).c_str(), t);
    std::string what = "elevating by " + std::to_string(t) + " " + str(k);
    Curve g = k.ElevateDegree(t); c.step();
    MC_CHECK(c, g.Degree == k.Degree + t, "%s: degree became %d", what.c_str(), g.Degree);
    Dv want = raised(k.Knots.Values(), t);
    MC_CHECK(c, g.Knots.Values() == want, "%s: knots became %s", what.c_str(), str(g.Knots.Values()).c_str());
    well_formed(c, g, what.c_str());
    Dev d = deviation(lift(k), lift(g), params(k.Knots.Values(), 4, false));
    MC_CHECK(c, d.rel <= 1e-10, "%s: the curve moved by %g at %.17g; result %s", what.c_str(), d.abs, d.at, str(g).c_str());
    Vec3 a = g.Evaluate(0.45), b = k.Evaluate(0.45); c.step(2);
    MC_CHECK(c, (a - b).norm() <= 1e-10 * scale(k), "%s: evaluation at 0.45 differs", what.c_str());
    MC_CHECK(c, same(k, before), "%s modified its operand", what.c_str());
    if (t == 1) { Curve h = k.ElevateDegree(); MC_CHECK(c, same(h, g), "%s: the default differs from an explicit 1", what.c_str()); }
    c.state(hash(g)); c.outcome("from degree %d by %d", k.Degree, t);
}
static void body(Ctx& c)
{
    int p = c.range(1, c.thorough ? 6 : 5, "degree"); bool g = c.flip("grid");
    Dv U = knots(c, p, g ? grid_odd() : grid_even(), (p < 5 || c.thorough) ? 3 : 2);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    run(c, curve(p, U, s, w), c.range(1, c.thorough ? 5 : 4, "times"));
}
static void many(Ctx& c) // many spans, each knot simple or full
{
    int p = c.range(1, 3, "degree"), n = c.range(1, c.thorough ? 9 : 7, "interior knots");
    Dv U(p + 1, 0.0); for (int i = 1; i <= n; ++i) { int m = c.flip("full") ? p : 1; U.insert(U.end(), m, i / (n + 1.0)); if (p == 1) (void)0; }
    U.insert(U.end(), p + 1, 1.0);
    c.shard();
    int w = c.choose(2, "weights");
    run(c, curve(p, U, 5, w * 2), c.range(1, 3, "times"));
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 33, 65, 130}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6}) + fam_high(6, c.thorough ? 14 : 10);
    static const std::vector<std::pair<int, int>> ST{{0, 0}, {5, 2}, {6, 3}, {7, 6}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    run(c, curve(f.p, f.U, s, w), c.range(1, f.p > 8 ? 2 : 4, "times"));
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points");
    run(c, curve(p, U, s, w), c.range(1, 3, "times"));
}
static void far(Ctx& c) // elevation by many degrees at once
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.4}, 1); c.shard();
    static const std::vector<int> T{5, 6, 7, 8, 9, 10, 13, 16, 20, 25, 27, 28, 29, 30, 33, 36}; int t = c.pick(T, "times"); run(c, curve(p, U, 5, c.choose(3, "weights")), t);
}
static void special_nets(Ctx& c) { auto k = special_curve(c); run(c, k, c.range(1, 4, "times")); }
static void huge_nets(Ctx& c)
{
    int p = c.range(1, 2, "degree"); Fam f = huge(p, c.pick(std::vector<int>{256, 300, 1030}, "spans")); c.shard(); run(c, curve(f.p, f.U, 5, 2), c.range(1, 2, "times"));
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"far", far}, {"structure", body}, {"many_spans", many}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
