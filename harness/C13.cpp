#include "gen.hpp"
using namespace gen;
using libnurbs::Surface;
const char* mc::PROPERTY = "C13";
static const std::vector<std::pair<int, int>> STYLES{{0, 2}, {5, 3}, {3, 6}, {4, 0}, {1, 5}};
static Dv raised(const Dv& U, int t)
{
    Dv r;
    for (size_t i = 0; i < U.size(); ++i) { r.push_back(U[i]); if (i + 1 == U.size() || U[i + 1] != U[i]) r.insert(r.end(), t, U[i]); }
    return r;
}
static void run(Ctx& c, const Surface& k, int dir, int t)
{
    Surface before = k; c.state(hash(k)); c.log("%s elevate %c by %d", str(k).c_str(), "UV"[dir], t);
    std::string what = std::string("elevating ") + "UV"[dir] + " by " + std::to_string(t) + " " + str(k);
    Surface g = dir ? k.ElevateDegreeV(t) : k.ElevateDegreeU(t); c.step();
    MC_CHECK(c, g.DegreeU == k.DegreeU + (dir ? 0 : t) && g.DegreeV == k.DegreeV + (dir ? t : 0), "%s: degrees became %d, %d", what.c_str(), g.DegreeU, g.DegreeV);
    Dv wu = k.KnotsU.Values(), wv = k.KnotsV.Values(); (dir ? wv : wu) = raised(dir ? wv : wu, t);
    MC_CHECK(c, g.KnotsU.Values() == wu, "%s: u knots became %s", what.c_str(), str(g.KnotsU.Values()).c_str());
    MC_CHECK(c, g.KnotsV.Values() == wv, "%s: v knots became %s", what.c_str(), str(g.KnotsV.Values()).c_str());
    well_formed(c, g, what.c_str());
    Dev d = deviation(lift(k), lift(g), params(k.KnotsU.Values(), 2, false), params(k.KnotsV.Values(), 2, false));
    MC_CHECK(c, d.rel <= 1e-10, "%s: the surface moved by %g at (%.17g, %.17g); result %s", what.c_str(), d.abs, d.at, d.at2, str(g).c_str());
    Vec3 a = g.Evaluate(0.45, 0.55), b = k.Evaluate(0.45, 0.55); c.step(2);
    MC_CHECK(c, (a - b).norm() <= 1e-10 * scale(k), "%s: evaluation at (0.45, 0.55) differs", what.c_str());
    MC_CHECK(c, same(k, before), "%s modified its operand", what.c_str());
    if (t == 1) { Surface h = dir ? k.ElevateDegreeV() : k.ElevateDegreeU(); MC_CHECK(c, same(h, g), "%s: the default differs from an explicit 1", what.c_str()); }
    c.state(hash(g));
}
static void body(Ctx& c)
{
    int p = c.range(1, c.thorough ? 4 : 3, "degree-u"), q = c.range(1, c.thorough ? 4 : 3, "degree-v");
    Dv U = knots(c, p, {0.37, 0.625}, 2), V = knots(c, q, {0.5, 0.8}, 2);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    run(c, surface(p, q, U, V, s, w), c.choose(2, "direction"), c.range(1, 3, "times"));
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {9, 33, 65}) + fam_tight({1, 2, 3}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6}) + fam_high(4, c.thorough ? 12 : 8);
    static const std::vector<std::pair<int, int>> ST{{5, 2}, {6, 3}, {7, 6}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    int dir = c.choose(2, "direction"); bool across = c.flip("across"); Fam o{2, {0, 0, 0, 0.3, 1, 1, 1}};
    Surface k = (dir != 0) != across ? surface(o.p, f.p, o.U, f.U, s, w) : surface(f.p, o.p, f.U, o.U, s, w);
    run(c, k, dir, c.range(1, 3, "times"));
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.7}, 1); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points"), dir = c.choose(2, "direction");
    run(c, surface(p, q, U, V, s, w), dir, c.range(1, 3, "times"));
}
static void far(Ctx& c)
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.4}, 1), V = knots(c, q, {0.6}, 1, 1); c.shard();
    int dir = c.choose(2, "direction"); run(c, surface(p, q, U, V, 5, 2), dir, c.pick(std::vector<int>{4, 5, 6, 7, 8, 9, 16, 28, 30, 34}, "times"));
}
static void special_nets(Ctx& c) { auto k = special_surface(c); int dir = c.choose(2, "direction"); run(c, k, dir, c.range(1, 3, "times")); }
static void huge_nets(Ctx& c)
{
    auto [a, b] = c.pick(huge_grids(), "spans"); int p = c.range(1, 2, "degree-u"); c.shard(); Fam f = huge(p, a), g = huge(3 - p, b); if (a * b > 2000) { f = huge(1, 130); g = huge(1, 130); } int dir = c.choose(2, "direction"); run(c, surface(f.p, g.p, f.U, g.U, 5, 2), dir, 1);
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"far", far}, {"structure", body}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
