#include "gen.hpp"
using namespace gen;
using libnurbs::Curve;
const char* mc::PROPERTY = "C10";
static const std::vector<std::pair<int, int>> STYLES{{0, 0}, {0, 2}, {5, 3}, {3, 6}, {4, 4}, {1, 5}, {2, 1}};
static int mult(const Dv& U, double v) { return (int)std::count(U.begin(), U.end(), v); }
static double pmax(const Curve& k) { return scale(k); }

// what every removal must satisfy; returns the number of removals
static int verify(Ctx& c, const Curve& k, double v, double arg, int times, double tol, bool use_default, double bound_rel)
{
    char b[160]; snprintf(b, sizeof b, "removing %.17g x%d with tolerance %g from ", arg, times, tol);
    std::string what = b + str(k);
    c.log("%s", what.c_str());
    const Curve before = k;
    std::tuple<Curve, int> res = use_default ? k.RemoveKnot(arg, times) : k.RemoveKnot(arg, times, tol); c.step();
    MC_CHECK(c, same(k, before), "%s modified its operand", what.c_str());
    const Curve& g = std::get<0>(res); int t = std::get<1>(res);
    int m = mult(k.Knots.Values(), v);
    MC_CHECK(c, t >= 0 && t <= times && t <= m, "%s: %d removals reported, %d copies present", what.c_str(), t, m);
    Dv want = k.Knots.Values(); auto it = std::lower_bound(want.begin(), want.end(), v); want.erase(it, it + t);
    MC_CHECK(c, g.Degree == k.Degree, "%s: degree became %d", what.c_str(), g.Degree);
    MC_CHECK(c, g.Knots.Values() == want, "%s: %d removals reported, knots became %s", what.c_str(), t, str(g.Knots.Values()).c_str());
    MC_CHECK(c, g.ControlPoints.size() + t == k.ControlPoints.size(), "%s: %d removals reported, %zu of %zu points left", what.c_str(), t, g.ControlPoints.size(), k.ControlPoints.size());
    for (auto& p : g.ControlPoints) MC_CHECK(c, p.allFinite(), "%s: control point %s", what.c_str(), str(p).c_str());
    if (t == 0)
    {
        for (size_t i = 0; i < g.ControlPoints.size(); ++i)
            MC_CHECK(c, (g.ControlPoints[i] - k.ControlPoints[i]).norm() <= 1e-13 * k.ControlPoints[i].norm() + 1e-300, "%s: nothing removed, but control point %zu became %s", what.c_str(), i, str(g.ControlPoints[i]).c_str());
    }
    else
    {
        Dev d = deviation(lift(k), lift(g), params(k.Knots.Values(), 5, false));
        double allow = std::min(1.0 * t * tol, bound_rel) + 1e-9 * (pmax(k) + 1e-3);
        MC_CHECK(c, d.abs <= allow, "%s: %d removals moved the curve by %g (allowed %g); result %s", what.c_str(), t, d.abs, allow, str(g).c_str());
        Vec3 x = g.Evaluate(0.45), y = k.Evaluate(0.45); c.step(2);
        MC_CHECK(c, (x - y).norm() <= 2 * allow, "%s: evaluation at 0.45 differs", what.c_str());
    }
    c.state(hash(g)); c.outcome("%d of %d", t, std::min(times, m));
    return t;
}
// knots inserted by the reference come out again
static void restore(Ctx& c)
{
    int p = c.range(1, c.thorough ? 5 : 4, "degree");
    Dv U = knots(c, p, {0.3, 0.5, 0.75}, (c.thorough || p < 4) ? 2 : 1);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    Curve base = curve(p, U, s, w); c.state(hash(base));
    static const Dv vals{0.5, 0.3, 0.62, 0.11};
    double v = c.pick(vals, "value"); int room = p - mult(U, v);
    if (room <= 0) { c.outcome("no room"); return; }
    int n = c.range(1, room, "inserted"), times = c.range(1, n + 2, "times");
    ref::Curve r = lift(base); for (int i = 0; i < n; ++i) r = ref::insert(r, v);
    Curve k = lower(r); c.state(hash(k));
    double wl = 1e300, wh = 0; for (auto& q : k.ControlPoints) wl = std::min(wl, q.w()), wh = std::max(wh, q.w());
    double P = pmax(k), tol = 1e-9 * (1 + P) * std::max(P, 1.0) * wh / wl;
    int t = verify(c, k, v, v, times, tol, false, n >= times ? 1e-7 * std::max(P, 1e-3) * wh / wl : 1e300);
    MC_CHECK(c, t >= std::min(times, n), "%g was inserted %d times into %s, but only %d of %d removals succeeded", v, n, str(base).c_str(), t, times);
    if (t == n)
    {
        Curve g = std::get<0>(k.RemoveKnot(v, n, tol)); c.step();
        Dev d = deviation(lift(base), lift(g), params(U, 3, false));
        MC_CHECK(c, d.abs <= 1e-7 * std::max(P, 1e-3) * wh / wl, "inserting %g x%d into %s and removing it again moved the curve by %g", v, n, str(base).c_str(), d.abs);
    }
}
// knots that are (mostly) not removable, at every tolerance; requests beyond the multiplicity; values that are no knots
static void honest(Ctx& c)
{
    int p = c.range(1, c.thorough ? 5 : 4, "degree"); bool gr = c.flip("grid");
    Dv U = knots(c, p, gr ? grid_odd() : grid_even(), (c.thorough || p < 4) ? 3 : 2);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    Curve k = curve(p, U, s, w); c.state(hash(k));
    auto in = interior(U);
    int which = c.choose((int)in.size() + 2, "knot");
    if (which >= (int)in.size())
    {
        double v = which == (int)in.size() ? 0.44 : 0.013;
        int t = verify(c, k, v, v, c.range(1, 2, "times"), 1e-6, c.flip("default tolerance"), 1e300);
        MC_CHECK(c, t == 0, "removed %g, which is not a knot", v);
        return;
    }
    auto [v, m] = in[which];
    static const Dv tols{1e-12, 1e-6, 1e-2, 0.3};
    int times = c.range(1, m + 2, "times"); double tol = c.pick(tols, "tolerance");
    static const Dv near{0, 1e-12, -1e-12};
    double d = times == 1 ? c.pick(near, "argument offset") : 0;
    verify(c, k, v, v + d, times, tol, tol == 1e-12, 1e300);
}
// nearly removable: an inserted knot, then one control point disturbed by a known amount
static void borderline(Ctx& c)
{
    int p = c.range(1, c.thorough ? 4 : 3, "degree");
    Dv U = knots(c, p, {0.3, 0.7}, 1);
    static const std::vector<std::pair<int, int>> st{{0, 0}, {0, 2}, {5, 3}, {5, 6}, {4, 4}, {1, 5}};
    auto [s, w] = c.pick(st, "style");
    c.shard();
    double v = 0.5; int n = c.range(1, p, "inserted");
    ref::Curve r = lift(curve(p, U, s, w)); for (int i = 0; i < n; ++i) r = ref::insert(r, v);
    Curve k = lower(r);
    static const Dv del{1e-9, 1e-6, 1e-4, 1e-2, 0.1};
    static const Dv tols{1e-10, 1e-7, 1e-5, 1e-3, 3e-2, 0.2};
    double delta = c.pick(del, "disturbance"); int at = c.choose((int)k.ControlPoints.size(), "point"); int axis = c.choose(2, "axis");
    k.ControlPoints[at][axis * 2] += delta;
    c.state(hash(k));
    verify(c, k, v, v, c.range(1, n, "times"), c.pick(tols, "tolerance"), false, 1e300);
}
// nearly removable: the weight component of one homogeneous control point disturbed, with tolerances around the size of the disturbance
static void weights(Ctx& c)
{
    int p = c.range(1, 3, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 1);
    static const std::vector<int> ps{0, 3, 9, 10, 4}, ws{0, 2, 3, 5, 11};
    int s = c.pick(ps, "points"), w = c.pick(ws, "weights"); c.shard();
    int n = c.range(1, p, "inserted");
    ref::Curve r = lift(curve(p, U, s, w)); for (int i = 0; i < n; ++i) r = ref::insert(r, 0.5);
    Curve k = lower(r); double wl = 1e300; for (auto& q : k.ControlPoints) wl = std::min(wl, q.w());
    static const Dv del{1e-8, 1e-5, 1e-3}, mul{0.5, 2, 10, 100, 1000};
    double d = c.pick(del, "disturbance"); int at = c.choose((int)k.ControlPoints.size(), "point");
    Vec4& q = k.ControlPoints[at]; double w1 = q.w() + d * wl; q.head<3>() *= q.w() / w1; q.w() = w1;
    for (double m : mul) for (int times = 1; times <= n; ++times) verify(c, k, 0.5, 0.5, times, d * m, false, 1e300);
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 33, 65}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6}) + fam_high(5, c.thorough ? 12 : 9);
    static const std::vector<std::pair<int, int>> ST{{0, 0}, {5, 2}, {3, 3}, {4, 11}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    Curve base = curve(f.p, f.U, s, w);
    auto in = interior(f.U);
    if (c.flip("inserted")) // halfway into spans that are not too narrow: what was inserted comes out again
    {
        Dv g{0}; for (auto& [v, m] : in) g.push_back(v); g.push_back(1);
        size_t stride = g.size() > 16 ? g.size() / 6 : 1;
        for (size_t i = 0; i + 1 < g.size(); i += stride)
        {
            if (g[i + 1] - g[i] < 0.005) continue;
            double v = (g[i] + g[i + 1]) / 2;
            for (int n : {1, f.p})
            {
                ref::Curve r = lift(base); for (int j = 0; j < n; ++j) r = ref::insert(r, v);
                Curve k = lower(r);
                double wl = 1e300, wh = 0; for (auto& q : k.ControlPoints) wl = std::min(wl, q.w()), wh = std::max(wh, q.w());
                double P = pmax(k), tol = 1e-6 * (1 + P) * std::max(P, 1.0) * wh / wl;
                int t = verify(c, k, v, v, n, tol, false, 1e-6 * std::max(P, 1e-3) * wh / wl);
                MC_CHECK(c, t == n, "%g was inserted %d times into %s, but only %d removals succeeded", v, n, str(base).c_str(), t);
                if (f.p == 1) break;
            }
        }
        return;
    }
    static const Dv tols{1e-12, 1e-6, 1e-3, 0.3};
    size_t stride = in.size() > 16 ? in.size() / 6 : 1;
    for (size_t i = 0; i < in.size(); i += stride) for (double tol : tols) for (int times : {1, in[i].second + 1})
        verify(c, base, in[i].first, in[i].first, times, tol, false, 1e300);
}
// every pair of weights and points
static void extreme(Ctx& c)
{
    int p = c.range(1, 3, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points"); Curve k = curve(p, U, s, w); c.state(hash(k));
    static const Dv tols{1e-12, 1e-6, 1e-3, 0.3};
    for (auto& [v, m] : interior(U)) for (double tol : tols) for (int times : {1, m + 1}) verify(c, k, v, v, times, tol, false, 1e300);
    int t = verify(c, k, 0.5, 0.5, 1, 1e-3, false, 1e300); MC_CHECK(c, t == 0, "removed 0.5, which is not a knot");
}
static void special_nets(Ctx& c)
{
    Curve base = special_curve(c); const int p = base.Degree; const Dv U = base.Knots.Values(); c.state(hash(base));
    static const Dv tols{1e-12, 1e-6, 1e-3, 0.3};
    for (auto& [v, m] : interior(U)) for (double tol : tols) for (int times : {1, m + 1}) verify(c, base, v, v, times, tol, false, 1e300);
    for (double v : {0.5, 0.3, 0.11})
    {
        int room = p - mult(U, v); if (room <= 0) continue;
        for (int n = 1; n <= room; ++n) for (int times = 1; times <= n; ++times)
        {
            ref::Curve r = lift(base); for (int j = 0; j < n; ++j) r = ref::insert(r, v);
            Curve k = lower(r); double wl = 1e300, wh = 0; for (auto& q : k.ControlPoints) wl = std::min(wl, q.w()), wh = std::max(wh, q.w());
            double P = pmax(k), tol = 1e-8 * (1 + P) * std::max(P, 1.0) * wh / wl;
            int t = verify(c, k, v, v, times, tol, false, 1e-7 * std::max(P, 1e-3) * wh / wl);
            MC_CHECK(c, t == times, "%g was inserted %d times into %s, but only %d of %d removals succeeded", v, n, str(base).c_str(), t, times);
        }
    }
}
static void huge_nets(Ctx& c)
{
    int p = c.range(1, 2, "degree"); Fam f = huge(p, c.pick(huge_sizes(), "spans")); c.shard(); Curve base = curve(f.p, f.U, 0, 2); auto in = interior(f.U);
    for (size_t i : {size_t(0), in.size() / 2, in.size() - 1}) for (double tol : {1e-12, 0.3}) verify(c, base, in[i].first, in[i].first, in[i].second + 1, tol, false, 1e300);
    Dv g{0}; for (auto& x : in) g.push_back(x.first); g.push_back(1);
    for (size_t i : {size_t(0), g.size() / 3, g.size() - 2}) for (int n : {1, f.p})
    {
        double v = (g[i] + g[i + 1]) / 2; if (g[i + 1] - g[i] < 1e-4) continue;
        ref::Curve r = lift(base); for (int j = 0; j < n; ++j) r = ref::insert(r, v);
        Curve k = lower(r); double P = pmax(k); int t = verify(c, k, v, v, n, 1e-6 * (1 + P) * 12, false, 1e-6 * P * 12);
        MC_CHECK(c, t == n, "%g was inserted %d times, but only %d removals succeeded", v, n, t); if (f.p == 1) break;
    }
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"restore", restore}, {"honest", honest}, {"borderline", borderline}, {"weights", weights}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
