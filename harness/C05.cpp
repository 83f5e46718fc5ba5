#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C05";
static void check(Ctx& c, const libnurbs::Curve& k, int maxo, const Dv* at = nullptr)
{
    const libnurbs::Curve before = k;
    ref::Curve r = lift(k);
    c.state(hash(k)); c.log("%s", str(k).c_str());
    ref::D3 w[ref::MAXD + 1];
    Dv us = at ? *at : params(k.Knots.Values(), 2);
    for (double u : us)
    {
        ref::ders(r, u, maxo, w);
        for (int o = 0; o <= maxo; ++o)
        {
            auto all = k.EvaluateAll(u, o); Vec3 one = k.EvaluateDerivative(u, o); c.step(2);
            MC_CHECK(c, (int)all.size() == o + 1, "%d derivatives returned for order %d", (int)all.size(), o);
            for (int q = 0; q <= o; ++q) MC_CHECK(c, near(all[q], w[q], 1e-10), "%s: derivative %d (of 0..%d) at %.17g: %s, expected %s", str(k).c_str(), q, o, u, str(all[q]).c_str(), str(w[q]).c_str());
            MC_CHECK(c, near(one, w[o], 1e-10), "%s: derivative %d at %.17g: %s, expected %s", str(k).c_str(), o, u, str(one).c_str(), str(w[o]).c_str());
        }
    }
    MC_CHECK(c, same(k, before), "evaluation modified the curve");
}
static void structure(Ctx& c)
{
    int p = c.range(1, c.thorough ? 6 : 4, "degree"); bool g = c.flip("grid");
    Dv U = knots(c, p, g ? grid_odd() : grid_even(), (c.thorough && p < 6) ? 3 : 2);
    c.shard();
    int w = c.choose(7, "weights"), s = c.choose(6, "points");
    check(c, curve(p, U, s, w), p + 2);
}
static void weights(Ctx& c)
{
    static const Dv ws{1.0, 0.5, 3.0};
    int p = c.range(1, 3, "degree"); Dv U = knots(c, p, {0.4}, 1, 2);
    libnurbs::Curve k = curve(p, U, 5, 0);
    for (size_t i = 0; i < k.ControlPoints.size(); ++i) { k.ControlPoints[i].w() = c.pick(ws, "w"); if (i == 1) c.shard(); }
    check(c, k, p + 2);
}
static void high(Ctx& c)
{
    int p = c.range(5, c.thorough ? 16 : 13, "degree"); int m = c.choose(3, "interior"), w = c.choose(4, "weights");
    c.shard();
    Dv U(p + 1, 0.0); for (int i = 0; i < m; ++i) U.push_back((i + 1.0) / (m + 1)); U.insert(U.end(), p + 1, 1.0);
    check(c, curve(p, U, 0, w), std::min(p + 2, 15));
}
static void very_high(Ctx& c) // orders at which binomial coefficients leave 32 bits
{
    int p = c.range(1, 4, "degree"), m = c.choose(2, "interior"), w = c.choose(4, "weights"); c.shard();
    Dv U(p + 1, 0.0); for (int i = 0; i < m; ++i) U.push_back((i + 1.0) / (m + 1)); U.insert(U.end(), p + 1, 1.0); Dv us{0, 0.2, 0.5, 0.8, 1};
    check(c, curve(p, U, 0, w), 36, &us);
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 17, 33, 65, 130, 257}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 2e-7, 1e-8});
    static const std::vector<std::pair<int, int>> ST{{0, 0}, {5, 2}, {7, 11}};
    int i = c.choose((int)F.size(), "member"); c.shard(); auto [s, w] = c.pick(ST, "style");
    Dv all = params_fine(F[i].U, 1, 7), us; size_t st = std::max<size_t>(1, all.size() / 120); for (size_t j = 0; j < all.size(); j += st) us.push_back(all[j]); us.push_back(1.0);
    check(c, curve(F[i].p, F[i].U, s, w), 3, &us);
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 1); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points"); Dv us = params_fine(U, 1);
    check(c, curve(p, U, s, w), p + 1, &us);
}
static void special_nets(Ctx& c) { auto k = special_curve(c); check(c, k, k.Degree + 2); }
static void huge_nets(Ctx& c)
{
    int p = c.range(1, 2, "degree"); Fam f = huge(p, c.pick(huge_sizes(), "spans")); c.shard(); Dv us = thin(params(f.U, 1), 200); check(c, curve(f.p, f.U, 5, 2), 3, &us);
}
std::vector<mc::Body> mc::bodies() { return {{"structure", structure}, {"weights", weights}, {"high_degree", high}, {"very_high", very_high}, {"families", families}, {"extreme", extreme}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
