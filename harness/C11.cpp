#include "gen.hpp"
using namespace gen;
using libnurbs::Surface;
const char* mc::PROPERTY = "C11";
static const std::vector<std::pair<int, int>> STYLES{{0, 2}, {5, 3}, {3, 6}, {4, 0}, {1, 5}};
static int mult(const Dv& U, double v) { return (int)std::count(U.begin(), U.end(), v); }

static int verify(Ctx& c, const Surface& k, int dir, double v, double arg, int times, double tol, bool use_default, double bound_rel, Surface* out = nullptr)
{
    char b[160]; snprintf(b, sizeof b, "removing %c knot %.17g x%d with tolerance %g from ", "UV"[dir], arg, times, tol);
    std::string what = b + str(k);
    c.log("%s", what.c_str());
    const Surface before = k;
    std::tuple<Surface, int> res = dir ? (use_default ? k.RemoveKnotV(arg, times) : k.RemoveKnotV(arg, times, tol))
                                       : (use_default ? k.RemoveKnotU(arg, times) : k.RemoveKnotU(arg, times, tol));
    c.step();
    MC_CHECK(c, same(k, before), "%s modified its operand", what.c_str());
    const Surface& g = std::get<0>(res); int t = std::get<1>(res);
    Dv wu = k.KnotsU.Values(), wv = k.KnotsV.Values(); Dv& K = dir ? wv : wu;
    int m = mult(K, v);
    MC_CHECK(c, t >= 0 && t <= times && t <= m, "%s: %d removals reported, %d copies present", what.c_str(), t, m);
    auto it = std::lower_bound(K.begin(), K.end(), v); K.erase(it, it + t);
    MC_CHECK(c, g.DegreeU == k.DegreeU && g.DegreeV == k.DegreeV, "%s: degrees became %d, %d", what.c_str(), g.DegreeU, g.DegreeV);
    MC_CHECK(c, g.KnotsU.Values() == wu, "%s: %d removals reported, u knots became %s", what.c_str(), t, str(g.KnotsU.Values()).c_str());
    MC_CHECK(c, g.KnotsV.Values() == wv, "%s: %d removals reported, v knots became %s", what.c_str(), t, str(g.KnotsV.Values()).c_str());
    int nu = k.ControlPoints.UCount - (dir ? 0 : t), nv = k.ControlPoints.VCount - (dir ? t : 0);
    MC_CHECK(c, g.ControlPoints.UCount == nu && g.ControlPoints.VCount == nv && (int)g.ControlPoints.Values.size() == nu * nv, "%s: %d removals reported, grid became %dx%d holding %zu", what.c_str(), t, g.ControlPoints.UCount, g.ControlPoints.VCount, g.ControlPoints.Values.size());
    for (auto& p : g.ControlPoints.Values) MC_CHECK(c, p.allFinite(), "%s: control point %s", what.c_str(), str(p).c_str());
    if (t == 0)
    {
        for (size_t i = 0; i < g.ControlPoints.Values.size(); ++i)
            MC_CHECK(c, (g.ControlPoints.Values[i] - k.ControlPoints.Values[i]).norm() <= 1e-13 * k.ControlPoints.Values[i].norm() + 1e-300, "%s: nothing removed, but control point %zu became %s", what.c_str(), i, str(g.ControlPoints.Values[i]).c_str());
    }
    else
    {
        Dv us = params(k.KnotsU.Values(), dir ? 1 : 3, false), vs = params(k.KnotsV.Values(), dir ? 3 : 1, false);
        Dev d = deviation(lift(k), lift(g), us, vs);
        double allow = std::min(1.0 * t * tol, bound_rel) + 1e-9 * (scale(k) + 1e-3);
        MC_CHECK(c, d.abs <= allow, "%s: %d removals moved the surface by %g (allowed %g); result %s", what.c_str(), t, d.abs, allow, str(g).c_str());
        Vec3 x = g.Evaluate(0.45, 0.55), y = k.Evaluate(0.45, 0.55); c.step(2);
        MC_CHECK(c, (x - y).norm() <= 2 * allow, "%s: evaluation at (0.45, 0.55) differs", what.c_str());
    }
    c.state(hash(g)); c.outcome("%d of %d", t, std::min(times, m));
    if (out) *out = g;
    return t;
}
static ref::Surface insert(const ref::Surface& s, int dir, double v) { return dir ? ref::insert_v(s, v) : ref::insert_u(s, v); }

static void restore(Ctx& c)
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v");
    Dv U = knots(c, p, {0.3, 0.5}, c.thorough ? 2 : 1), V = knots(c, q, {0.5, 0.75}, c.thorough ? 2 : 1);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    Surface base = surface(p, q, U, V, s, w); c.state(hash(base));
    int dir = c.choose(2, "direction"); int deg = dir ? q : p; const Dv& K = dir ? V : U;
    static const Dv vals{0.5, 0.62, 0.3};
    double v = c.pick(vals, "value"); int room = deg - mult(K, v);
    if (room <= 0) { c.outcome("no room"); return; }
    int n = c.range(1, room, "inserted"), times = c.range(1, n + 1, "times");
    ref::Surface r = lift(base); for (int i = 0; i < n; ++i) r = insert(r, dir, v);
    Surface k = lower(r); c.state(hash(k));
    double wl = 1e300, wh = 0; for (auto& x : k.ControlPoints.Values) wl = std::min(wl, x.w()), wh = std::max(wh, x.w());
    double P = scale(k), tol = 1e-9 * (1 + P) * std::max(P, 1.0) * wh / wl;
    Surface g;
    int t = verify(c, k, dir, v, v, times, tol, false, n >= times ? 1e-7 * std::max(P, 1e-3) * wh / wl : 1e300, &g);
    if (times <= n) MC_CHECK(c, t == times, "%g was inserted %d times into %s, but only %d of %d removals succeeded", v, n, str(base).c_str(), t, times);
    if (t == n)
    {
        Dev d = deviation(lift(base), lift(g), params(U, 2, false), params(V, 2, false));
        MC_CHECK(c, d.abs <= 1e-7 * std::max(P, 1e-3) * wh / wl, "inserting %g x%d into %s and removing it again moved the surface by %g", v, n, str(base).c_str(), d.abs);
    }
}
static void honest(Ctx& c)
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v");
    Dv U = knots(c, p, {0.37, 0.625}, c.thorough ? 2 : 1), V = knots(c, q, {0.5, 0.8}, c.thorough ? 2 : 1);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    Surface k = surface(p, q, U, V, s, w); c.state(hash(k));
    int dir = c.choose(2, "direction");
    auto in = interior(dir ? V : U);
    int which = c.choose((int)in.size() + 1, "knot");
    if (which == (int)in.size())
    {
        int t = verify(c, k, dir, 0.44, 0.44, c.range(1, 2, "times"), 1e-6, c.flip("default tolerance"), 1e300);
        MC_CHECK(c, t == 0, "removed 0.44, which is not a knot"); return;
    }
    auto [v, m] = in[which];
    static const Dv tols{1e-12, 1e-3, 0.3};
    int times = c.range(1, m + 2, "times"); double tol = c.pick(tols, "tolerance");
    verify(c, k, dir, v, v, times, tol, tol == 1e-12, 1e300);
}
// a removable knot, except that one control point is disturbed: only one row prevents removal
static void borderline(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 2, "degree-v"); int dir = c.choose(2, "direction");
    if (c.thorough) { p = c.range(p, 3, "degree-u+"); }
    Dv U = knots(c, p, {0.3}, 1, 1), V = knots(c, q, {0.7}, 1, 1);
    auto [s, w] = c.pick(STYLES, "style");
    c.shard();
    int n = c.range(1, dir ? q : p, "inserted");
    ref::Surface r = lift(surface(p, q, U, V, s == 3 ? 0 : s, w)); for (int i = 0; i < n; ++i) r = insert(r, dir, 0.5);
    Surface k = lower(r);
    static const Dv del{1e-6, 1e-3, 0.1}, tols{1e-8, 1e-5, 1e-2, 0.2};
    double delta = c.pick(del, "disturbance"); int at = c.choose((int)k.ControlPoints.Values.size(), "point");
    k.ControlPoints.Values[at][2] += delta; c.state(hash(k));
    verify(c, k, dir, 0.5, 0.5, c.range(1, n, "times"), c.pick(tols, "tolerance"), false, 1e300);
}
static void weights(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v"); int dir = c.choose(2, "direction");
    static const std::vector<int> ps{0, 3, 9, 10, 4}, ws{0, 2, 3, 5, 11};
    int s = c.pick(ps, "points"), w = c.pick(ws, "weights"); c.shard();
    int n = c.range(1, dir ? q : p, "inserted");
    Dv U(p + 1, 0.0), V(q + 1, 0.0); U.push_back(0.3); U.insert(U.end(), p + 1, 1.0); V.insert(V.end(), q + 1, 1.0);
    ref::Surface r = lift(surface(p, q, U, V, s, w)); for (int i = 0; i < n; ++i) r = insert(r, dir, 0.5);
    Surface k = lower(r); double wl = 1e300; for (auto& x : k.ControlPoints.Values) wl = std::min(wl, x.w());
    static const Dv del{1e-8, 1e-3}, mul{0.5, 2, 10, 100, 1000};
    double d = c.pick(del, "disturbance"); int at = c.choose((int)k.ControlPoints.Values.size(), "point");
    Vec4& x = k.ControlPoints.Values[at];
    if (c.flip("coordinate")) x[1] += d; else { double w1 = x.w() + d * wl; x.head<3>() *= x.w() / w1; x.w() = w1; }
    for (double m : mul) for (int times = 1; times <= n; ++times) verify(c, k, dir, 0.5, 0.5, times, d * m, false, 1e300);
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {9, 33}) + fam_tight({1, 2, 3}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6}) + fam_high(4, c.thorough ? 10 : 7);
    static const std::vector<std::pair<int, int>> ST{{0, 0}, {5, 2}, {3, 3}, {4, 11}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    int dir = c.choose(2, "direction"); bool across = c.flip("across"); // across: remove in the small direction
    Fam o{2, {0, 0, 0, 0.3, 1, 1, 1}};
    Surface base = (dir != 0) != across ? surface(o.p, f.p, o.U, f.U, s, w) : surface(f.p, o.p, f.U, o.U, s, w);
    const Fam& h = across ? o : f; auto in = interior(h.U);
    Dv g{0}; for (auto& [v, m] : in) g.push_back(v); g.push_back(1);
    size_t stride = g.size() > 12 ? g.size() / 4 : 1;
    for (size_t i = 0; i + 1 < g.size(); i += stride)
    {
        if (g[i + 1] - g[i] < 0.005) continue;
        double v = (g[i] + g[i + 1]) / 2;
        for (int n : {1, h.p})
        {
            ref::Surface r = lift(base); for (int j = 0; j < n; ++j) r = insert(r, dir, v);
            Surface k = lower(r);
            double wl = 1e300, wh = 0; for (auto& q : k.ControlPoints.Values) wl = std::min(wl, q.w()), wh = std::max(wh, q.w());
            double P = scale(k), tol = 1e-6 * (1 + P) * std::max(P, 1.0) * wh / wl;
            int t = verify(c, k, dir, v, v, n, tol, false, 1e-6 * std::max(P, 1e-3) * wh / wl);
            MC_CHECK(c, t == n, "%g was inserted %d times into %s, but only %d removals succeeded", v, n, str(base).c_str(), t);
            if (h.p == 1) break;
        }
    }
    static const Dv tols{1e-12, 1e-3, 0.3};
    stride = in.size() > 12 ? in.size() / 4 : 1;
    for (size_t i = 0; i < in.size(); i += stride) for (double tol : tols) for (int times : {1, in[i].second + 1})
        verify(c, base, dir, in[i].first, in[i].first, times, tol, false, 1e300);
}
static void special_nets(Ctx& c)
{
    Surface base = special_surface(c); int dir = c.choose(2, "direction"); const int p = dir ? base.DegreeV : base.DegreeU; const Dv K = dir ? base.KnotsV.Values() : base.KnotsU.Values(); c.state(hash(base));
    static const Dv tols{1e-12, 1e-3, 0.3};
    for (auto& [v, m] : interior(K)) for (double tol : tols) for (int times : {1, m + 1}) verify(c, base, dir, v, v, times, tol, false, 1e300);
    for (double v : {0.5, 0.3})
    {
        int room = p - mult(K, v); if (room <= 0) continue;
        for (int n : {1, room})
        {
            ref::Surface r = lift(base); for (int j = 0; j < n; ++j) r = insert(r, dir, v);
            Surface k = lower(r); double wl = 1e300, wh = 0; for (auto& q : k.ControlPoints.Values) wl = std::min(wl, q.w()), wh = std::max(wh, q.w());
            double P = scale(k), tol = 1e-8 * (1 + P) * std::max(P, 1.0) * wh / wl;
            int t = verify(c, k, dir, v, v, n, tol, false, 1e-7 * std::max(P, 1e-3) * wh / wl);
            MC_CHECK(c, t == n, "%g was inserted %d times into %s, but only %d removals succeeded", v, n, str(base).c_str(), t);
            if (room == 1) break;
        }
    }
}
static void huge_nets(Ctx& c)
{
    auto [a, b] = c.pick(huge_grids(), "spans"); int p = c.range(1, 2, "degree-u"); c.shard(); Fam f = huge(p, a), g = huge(3 - p, b); if (a * b > 2000) { p = 1; f = huge(1, 70); g = huge(1, 70); } Surface base = surface(f.p, g.p, f.U, g.U, 0, 2); int dir = c.choose(2, "direction"); const Fam& h = dir ? g : f; auto in = interior(h.U);
    if (!in.empty()) for (double tol : {1e-12, 0.3}) verify(c, base, dir, in.back().first, in.back().first, in.back().second + 1, tol, false, 1e300);
    Dv s{0}; for (auto& x : in) s.push_back(x.first); s.push_back(1); double v = (s[s.size() / 2 - 1] + s[s.size() / 2]) / 2;
    ref::Surface r = lift(base); for (int j = 0; j < h.p; ++j) r = insert(r, dir, v);
    Surface k = lower(r); double P = scale(k); int t = verify(c, k, dir, v, v, h.p, 1e-6 * (1 + P) * 12, false, 1e-6 * P * 12);
    MC_CHECK(c, t == h.p, "%g was inserted %d times, but only %d removals succeeded", v, h.p, t);
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"restore", restore}, {"honest", honest}, {"borderline", borderline}, {"weights", weights}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
