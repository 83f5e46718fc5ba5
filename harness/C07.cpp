#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C07";
static void check(Ctx& c, const libnurbs::Surface& k, const Dv& us, const Dv& vs, int mu, int mv)
{
    const libnurbs::Surface before = k;
    ref::Surface r = lift(k);
    c.state(hash(k)); c.log("%s", str(k).c_str());
    std::vector<ref::D3> w((mu + 1) * (mv + 1));
    for (double u : us) for (double v : vs)
    {
        ref::ders(r, u, v, mu, mv, w.data());
        for (int a = 0; a <= mu; ++a) for (int b = 0; b <= mv; ++b)
        {
            auto all = k.EvaluateAll(u, v, a, b); Vec3 one = k.EvaluateDerivative(u, v, a, b); c.step(2);
            MC_CHECK(c, all.UCount == a + 1 && all.VCount == b + 1, "table for orders (%d, %d) is %dx%d", a, b, all.UCount, all.VCount);
            for (int i = 0; i <= a; ++i) for (int j = 0; j <= b; ++j)
            {
                const Vec3& g = all.Get(i, j); auto& x = w[j * (mu + 1) + i];
                MC_CHECK(c, near(g, x, 1e-10), "%s: partial (%d, %d) in the table up to (%d, %d) at (%.17g, %.17g): %s, expected %s", str(k).c_str(), i, j, a, b, u, v, str(g).c_str(), str(x).c_str());
            }
            auto& x = w[b * (mu + 1) + a];
            MC_CHECK(c, near(one, x, 1e-10), "%s: partial (%d, %d) at (%.17g, %.17g): %s, expected %s", str(k).c_str(), a, b, u, v, str(one).c_str(), str(x).c_str());
        }
    }
    MC_CHECK(c, same(k, before), "evaluation modified the surface");
}
static void structure(Ctx& c)
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v");
    Dv U = knots(c, p, {0.37, 0.7}, c.thorough ? 2 : 1), V = knots(c, q, {0.5, 0.8}, c.thorough ? 2 : 1);
    c.shard();
    static const std::vector<std::pair<int, int>> st{{0, 0}, {0, 2}, {5, 3}, {3, 6}, {4, 4}, {1, 5}, {2, 1}};
    auto [s, w] = c.pick(st, "style");
    auto trim = [](Dv U) { Dv r = params(U, 1, false); r.push_back(std::nextafter(U[U.size() / 2], 0)); return r; };
    check(c, surface(p, q, U, V, s, w), trim(U), trim(V), p + 1, q + 1);
}
static void orders(Ctx& c) // high and unequal orders
{
    int p = c.range(1, c.thorough ? 5 : 4, "degree-u"), q = c.range(1, c.thorough ? 5 : 4, "degree-v"), w = c.choose(4, "weights");
    c.shard();
    Dv U(p + 1, 0.0), V(q + 1, 0.0); U.push_back(0.4); U.insert(U.end(), p + 1, 1.0); V.push_back(0.6); V.insert(V.end(), q + 1, 1.0);
    check(c, surface(p, q, U, V, 0, w), {0, 0.4, 0.7, 1}, {0, 0.3, 0.6, 1}, p + 2, q + 2);
}
static void weights(Ctx& c)
{
    static const Dv ws{1.0, 0.5, 3.0};
    int p = c.range(1, 2, "degree-u");
    Dv U(p + 1, 0.0), V{0, 0, 1, 1}; U.insert(U.end(), p + 1, 1.0);
    libnurbs::Surface k = surface(p, 1, U, V, 0, 0);
    for (size_t i = 0; i < k.ControlPoints.Values.size(); ++i) { k.ControlPoints.Values[i].w() = c.pick(ws, "w"); if (i == 2) c.shard(); }
    check(c, k, {0, 0.3, 1}, {0, 0.8, 1}, p + 1, 3);
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {9, 33, 65}) + fam_tight({1, 2, 3}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6}) + fam_high(4, c.thorough ? 14 : 10);
    static const std::vector<std::pair<int, int>> ST{{5, 2}, {6, 3}, {7, 11}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard();
    bool flip = c.flip("direction"); auto [s, w] = c.pick(ST, "style");
    Fam o{2, {0, 0, 0, 0.3, 1, 1, 1}};
    Dv all = params(f.U, 1, false), fine, few{0, 0.3, 0.8, 1};
    size_t stride = all.size() > 24 ? all.size() / 12 : 1; for (size_t i = 0; i < all.size(); i += stride) fine.push_back(all[i]);
    fine.push_back(1); fine.push_back(std::nextafter(1.0, 0)); fine.push_back(1 - 1e-7); fine.push_back(1e-7);
    if (flip) check(c, surface(o.p, f.p, o.U, f.U, s, w), few, fine, 2, 3); else check(c, surface(f.p, o.p, f.U, o.U, s, w), fine, few, 3, 2);
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 2, "degree-v"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.7}, 1); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points");
    check(c, surface(p, q, U, V, s, w), params(U, 1), params(V, 1, false), 2, 2); check(c, surface(p, q, U, V, s, w), params(U, 1, false), params(V, 1), 2, 2);
}
static void very_high(Ctx& c) // orders far above the degrees, in one direction
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v"), w = c.choose(3, "weights"); bool flip = c.flip("direction"); c.shard();
    Dv U(p + 1, 0.0), V(q + 1, 0.0); U.push_back(0.4); U.insert(U.end(), p + 1, 1.0); V.push_back(0.6); V.insert(V.end(), q + 1, 1.0);
    check(c, surface(p, q, U, V, 0, w), {0, 0.7, 1}, {0, 0.3, 1}, flip ? 1 : 12, flip ? 12 : 1);
}
static void highest(Ctx& c) // where binomial coefficients leave 16, 31 and 32 bits
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 2, "degree-v"), w = c.choose(2, "weights") + 2; c.shard();
    Dv U(p + 1, 0.0), V(q + 1, 0.0); U.push_back(0.4); U.insert(U.end(), p + 1, 1.0); V.push_back(0.6); V.insert(V.end(), q + 1, 1.0);
    auto k = surface(p, q, U, V, 0, w); c.state(hash(k)); c.log("%s", str(k).c_str());
    for (double u : {0.0, 0.7}) for (double v : {0.3, 1.0}) for (auto [a, b] : std::vector<std::pair<int, int>>{{35, 1}, {1, 35}, {18, 18}})
    {
        std::vector<ref::D3> x((a + 1) * (b + 1)); ref::ders(lift(k), u, v, a, b, x.data()); auto all = k.EvaluateAll(u, v, a, b); c.step();
        for (int i = 0; i <= a; ++i) for (int j = 0; j <= b; ++j) MC_CHECK(c, near(all.Get(i, j), x[j * (a + 1) + i], 1e-8), "%s: partial (%d, %d) at (%.17g, %.17g): %s, expected %s", str(k).c_str(), i, j, u, v, str(all.Get(i, j)).c_str(), str(x[j * (a + 1) + i]).c_str());
    }
}
static void special_nets(Ctx& c) { auto k = special_surface(c); check(c, k, {0, 0.3, 0.6, 1}, {0, 0.5, 0.7, 1}, k.DegreeU + 1, k.DegreeV + 1); }
static void huge_nets(Ctx& c)
{
    auto [a, b] = c.pick(huge_grids(), "spans"); int p = c.range(1, 2, "degree-u"); c.shard(); Fam f = huge(p, a), g = huge(3 - p, b); check(c, surface(f.p, g.p, f.U, g.U, 5, 2), thin(params(f.U, 1, false), 20), thin(params(g.U, 1, false), 20), 2, 2);
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"very_high", very_high}, {"structure", structure}, {"orders", orders}, {"weights", weights}, {"highest", highest}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
