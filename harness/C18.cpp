#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C18";

static void check(Ctx& c, const libnurbs::Curve& k)
{
    c.state(hash(k)); c.log("%s", str(k).c_str());
    const libnurbs::Curve before = k;
    auto segs = k.ExtractBezier(); c.step();
    MC_CHECK(c, same(k, before), "extraction modified the curve %s", str(before).c_str());
    Dv brk{0}; for (auto& x : interior(k.Knots.Values())) brk.push_back(x.first); brk.push_back(1);
    MC_CHECK(c, segs.size() == brk.size() - 1, "%s: %zu segments for %zu spans", str(k).c_str(), segs.size(), brk.size() - 1);
    ref::Curve r = lift(k);
    for (size_t i = 0; i < segs.size(); ++i)
    {
        auto& s = segs[i];
        MC_CHECK(c, s.Degree == k.Degree && (int)s.ControlPoints.size() == k.Degree + 1, "%s: segment %zu has degree %d, %zu points", str(k).c_str(), i, s.Degree, s.ControlPoints.size());
        Dv U(k.Degree + 1, 0.0); U.insert(U.end(), k.Degree + 1, 1.0);
        MC_CHECK(c, s.Knots.Values() == U, "%s: segment %zu has knots %s", str(k).c_str(), i, str(s.Knots.Values()).c_str());
        well_formed(c, s, "segment");
        ref::Curve b = lift(s);
        for (double t : {0.0, 1e-9, 0.1, 0.25, 0.5, 0.7, 0.9, 1.0})
        {
            if (t == 1e-9 && brk[i + 1] - brk[i] < 1e-3) continue; // not representable
            ref::R u = (ref::R)brk[i] + ((ref::R)brk[i + 1] - brk[i]) * t;
            if (t == 1.0) u = brk[i + 1];
            auto x = ref::eval(b, t), y = ref::eval(r, u);
            for (int d = 0; d < 3; ++d) MC_CHECK(c, std::fabs(x.v[d] - y.v[d]) <= 1e-10L * std::max(x.mag, y.mag) + 1e-300L, "%s: segment %zu at %g is %s, curve at %.17Lg is %s", str(k).c_str(), i, t, str(x).c_str(), u, str(y).c_str());
            Vec3 g = s.Evaluate(t); c.step();
            MC_CHECK(c, near(g, y, 1e-10), "%s: segment %zu evaluates at %g to %s, expected %s", str(k).c_str(), i, t, str(g).c_str(), str(y).c_str());
        }
    }
}
static void structure(Ctx& c)
{
    int p = c.range(1, c.thorough ? 6 : 5, "degree"); bool g = c.flip("grid");
    Dv U = knots(c, p, g ? grid_odd() : grid_even(), (p <= 4 || c.thorough) ? 3 : 2);
    c.shard();
    static const std::vector<std::pair<int, int>> sty{{0, 0}, {5, 2}, {0, 4}, {1, 3}, {2, 6}, {3, 2}, {4, 5}, {5, 1}};
    auto s = c.pick(sty, "style");
    check(c, curve(p, U, s.first, s.second));
}
static void many(Ctx& c) // many spans, unevenly spaced, every simple/full multiplicity pattern
{
    int p = c.range(1, 4, "degree"), n = c.range(1, c.thorough ? 11 : 8, "interior knots"); bool uneven = c.flip("uneven"); c.shard();
    Dv U(p + 1, 0.0);
    for (int i = 1; i <= n; ++i) { double v = (double)i / (n + 1); if (uneven) v = v * v; int m = c.flip("full") ? p : 1; for (int k = 0; k < m; ++k) U.push_back(v); }
    U.insert(U.end(), p + 1, 1.0);
    check(c, curve(p, U, 5, 2));
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 33, 65, 130}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 1e-8, 1e-10}) + fam_high(6, c.thorough ? 18 : 13);
    static const std::vector<std::pair<int, int>> ST{{0, 0}, {5, 2}, {6, 3}, {7, 6}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    check(c, curve(f.p, f.U, s, w));
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points");
    check(c, curve(p, U, s, w));
}
static void special_nets(Ctx& c) { check(c, special_curve(c)); }
static void huge_nets(Ctx& c)
{
    int p = c.range(1, 2, "degree"); Fam f = huge(p, c.pick(std::vector<int>{250, 256, 300, 1030}, "spans")); c.shard(); check(c, curve(f.p, f.U, 5, 2));
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"structure", structure}, {"many_spans", many}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
