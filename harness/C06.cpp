#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C06";

static void check(Ctx& c, const libnurbs::Surface& k, int inner, Dv us = {}, Dv vs = {})
{
    const libnurbs::Surface before = k;
    const double net = net_slack(k.ControlPoints.Values); ref::Surface r = lift(k);
    c.state(hash(k)); c.log("%s", str(k).c_str());
    if (us.empty()) us = params(k.KnotsU.Values(), inner, false);
    if (vs.empty()) vs = params(k.KnotsV.Values(), inner, false);
    for (double u : us) for (double v : vs)
    {
        Vec3 g = k.Evaluate(u, v); c.step(); auto w = ref::eval(r, u, v);
        MC_CHECK(c, near(g, w, 1e-12, net), "%s at (%.17g, %.17g): %s, expected %s", str(k).c_str(), u, v, str(g).c_str(), str(w).c_str());
    }
    double s = scale(k); const auto& P = k.ControlPoints; int nu = P.UCount, nv = P.VCount;
    for (int a : {0, 1}) for (int b : {0, 1})
    {
        Vec3 g = k.Evaluate(a, b); c.step();
        MC_CHECK(c, (g - P.Values[(b ? nv - 1 : 0) * nu + (a ? nu - 1 : 0)].head<3>()).norm() <= 1e-13 * s, "%s: corner (%d, %d) is %s", str(k).c_str(), a, b, str(g).c_str());
    }
    bool rat = false; for (auto& p : P.Values) rat |= p.w() != P.Values[0].w();
    MC_CHECK(c, k.IsRational() == rat, "%s reported %srational", str(k).c_str(), rat ? "not " : "");
    for (double f : {0.125, 3.7, 1e-9, 1e8})
    {
        libnurbs::Surface q = k; for (auto& p : q.ControlPoints.Values) p.w() *= f;
        for (double u : {0.0, 0.3, 1.0}) for (double v : {0.0, 0.6, 1.0}) { Vec3 x = q.Evaluate(u, v), y = k.Evaluate(u, v); c.step(2); MC_CHECK(c, (x - y).norm() <= 1e-12 * s, "%s: scaling all weights by %g moves the point at (%g, %g)", str(k).c_str(), f, u, v); }
    }
    MC_CHECK(c, same(k, before), "evaluation modified the surface");
}
static void structure(Ctx& c)
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v");
    Dv U = knots(c, p, grid_odd(), c.thorough ? 2 : 2), V = knots(c, q, c.thorough ? grid_even() : Dv{0.3, 0.5}, c.thorough ? 2 : 1);
    c.shard();
    static const std::vector<std::pair<int, int>> st{{0, 0}, {0, 2}, {5, 3}, {3, 6}, {4, 4}, {1, 5}, {2, 1}};
    auto [s, w] = c.pick(st, "style");
    check(c, surface(p, q, U, V, s, w), 1);
}
static void boundary(Ctx& c) // every neighbour of every knot
{
    int p = c.range(1, 4, "degree-u"), q = c.range(1, 4, "degree-v"), m = c.range(1, p, "mult-u"), n = c.range(1, q, "mult-v"), w = c.choose(3, "weights");
    c.shard();
    Dv U(p + 1, 0.0), V(q + 1, 0.0); U.insert(U.end(), m, 0.37); U.insert(U.end(), p + 1, 1.0); V.insert(V.end(), n, 0.5); V.insert(V.end(), q + 1, 1.0);
    libnurbs::Surface k = surface(p, q, U, V, 5, w);
    const double net = net_slack(k.ControlPoints.Values); ref::Surface r = lift(k); c.state(hash(k)); c.log("%s", str(k).c_str());
    for (double u : params(U, 2)) for (double v : params(V, 2))
    {
        Vec3 g = k.Evaluate(u, v); c.step(); auto x = ref::eval(r, u, v);
        MC_CHECK(c, near(g, x, 1e-12, net), "%s at (%.17g, %.17g): %s, expected %s", str(k).c_str(), u, v, str(g).c_str(), str(x).c_str());
    }
}
static void weights(Ctx& c)
{
    static const Dv ws{1.0, 0.5, 3.0};
    int p = c.range(1, 2, "degree-u"), q = 1;
    Dv U(p + 1, 0.0), V{0, 0, 1, 1}; U.insert(U.end(), p + 1, 1.0);
    if (c.flip("more-v")) V = {0, 0, 0.4, 1, 1};
    libnurbs::Surface k = surface(p, q, U, V, 0, 0);
    for (size_t i = 0; i < k.ControlPoints.Values.size(); ++i) { k.ControlPoints.Values[i].w() = c.pick(ws, "w"); if (i == 2) c.shard(); }
    check(c, k, 1);
}
// many spans, close knots, high degrees in one direction, a small knot vector in the other
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {9, 33, 65, 130}) + fam_tight({1, 2, 3}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 2e-7, 1e-8, 1e-10}) + fam_high(4, c.thorough ? 18 : 12);
    static const std::vector<std::pair<int, int>> ST{{5, 2}, {6, 3}, {7, 11}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard();
    bool flip = c.flip("direction"); auto [s, w] = c.pick(ST, "style");
    Fam o{2, {0, 0, 0, 0.3, 1, 1, 1}};
    Dv fine = params_fine(f.U, 1, f.U.size() > 40 ? 9 : 1), few{0, 0.15, 0.3, 0.8, 1};
    if (flip) check(c, surface(o.p, f.p, o.U, f.U, s, w), 1, few, fine); else check(c, surface(f.p, o.p, f.U, o.U, s, w), 1, fine, few);
}
static void big_grid(Ctx& c)
{
    int a = c.choose(5, "u"), b = c.choose(5, "v"); c.shard(); int w = c.choose(2, "weights");
    static const auto F = fam_large({1, 2, 3}, {12, 40});
    const Fam &f = F[(a * 4 + 1) % F.size()], &g = F[(b * 4 + 2) % F.size()];
    check(c, surface(f.p, g.p, f.U, g.U, 5, w * 2), 1, params(f.U, 1, false), params(g.U, 1, false));
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.7}, 1); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points");
    check(c, surface(p, q, U, V, s, w), 1, params_fine(U, 1), params(V, 1)); check(c, surface(p, q, U, V, s, w), 1, params(U, 1), params_fine(V, 1));
}
static void special_nets(Ctx& c) { check(c, special_surface(c), 2); }
static void huge_nets(Ctx& c)
{
    auto [a, b] = c.pick(huge_grids(), "spans"); int p = c.range(1, 2, "degree-u"); c.shard(); Fam f = huge(p, a), g = huge(3 - p, b); check(c, surface(f.p, g.p, f.U, g.U, 5, 2), 1, thin(params(f.U, 1, false), 70), thin(params(g.U, 1, false), 70));
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"big_grid", big_grid}, {"extreme", extreme}, {"structure", structure}, {"boundary", boundary}, {"weights", weights}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
