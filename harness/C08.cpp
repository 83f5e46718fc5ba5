#include "gen.hpp"
using namespace gen;
using libnurbs::Curve;
const char* mc::PROPERTY = "C08";
static const std::vector<std::pair<int, int>> STYLES{{0, 0}, {0, 2}, {5, 3}, {3, 6}, {4, 4}, {1, 5}, {2, 1}};

static void verify(Ctx& c, const Curve& k, const Dv& ins, const Curve& g, const char* form)
{
    std::string what = std::string(form) + " " + str(ins) + " into " + str(k);
    MC_CHECK(c, g.Degree == k.Degree, "%s: degree became %d", what.c_str(), g.Degree);
    Dv want = k.Knots.Values(); want.insert(want.end(), ins.begin(), ins.end()); std::sort(want.begin(), want.end());
    MC_CHECK(c, g.Knots.Values() == want, "%s: knots became %s", what.c_str(), str(g.Knots.Values()).c_str());
    well_formed(c, g, what.c_str());
    Dev d = deviation(lift(k), lift(g), params(want, 2, false));
    MC_CHECK(c, d.rel <= 1e-11 * slack(k), "%s: the curve moved by %g at %.17g; result %s", what.c_str(), d.abs, d.at, str(g).c_str());
    Vec3 a = g.Evaluate(0.45), b = k.Evaluate(0.45); c.step(2);
    MC_CHECK(c, (a - b).norm() <= 1e-11 * slack(k) * scale(k), "%s: evaluation at 0.45 differs", what.c_str());
}
static Dv candidates(Ctx& c, const Dv& U, const Dv& extra)
{
    Dv r; for (auto& [v, m] : interior(U)) r.push_back(v);
    for (double e : extra) if (std::find(r.begin(), r.end(), e) == r.end()) r.push_back(e);
    return r;
}
static int mult(const Dv& U, double v) { return (int)std::count(U.begin(), U.end(), v); }

static void repeated(Ctx& c)
{
    int p = c.range(1, c.thorough ? 6 : 5, "degree"); bool g = c.flip("grid");
    Dv U = knots(c, p, g ? grid_odd() : grid_even(), (p < 4 || c.thorough) ? 3 : 2);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    const Curve k = curve(p, U, s, w); Curve before = k; c.state(hash(k));
    Dv cand = candidates(c, U, {0.5, 0.05, 0.33, 0.98});
    double v = c.pick(cand, "value"); int room = p - mult(U, v);
    if (room <= 0) { c.outcome("knot already at full multiplicity"); return; }
    int t = c.range(0, room, "times");
    Dv ins(t, v); c.log("%s insert %s", str(k).c_str(), str(ins).c_str());
    Curve b = k.InsertKnot(v, t), l = k.InsertKnot(std::span<double>(ins)); c.step(2);
    verify(c, k, ins, b, "inserting (value, times)"); verify(c, k, ins, l, "inserting (list)");
    if (t == 1) { Curve a = k.InsertKnot(v); c.step(); verify(c, k, ins, a, "inserting (value)"); }
    Curve q = k; for (int i = 0; i < t; ++i) q = q.InsertKnot(v);
    verify(c, k, ins, q, "inserting one by one");
    c.state(hash(b));
    MC_CHECK(c, same(k, before), "insertion modified its operand");
    c.outcome("times %d", t);
}
static void lists(Ctx& c)
{
    int p = c.range(1, c.thorough ? 4 : 3, "degree");
    Dv U = knots(c, p, {0.3, 0.5}, 2);
    auto [s, w] = c.pick(STYLES, "style");
    c.shard();
    const Curve k = curve(p, U, s, w); Curve before = k; c.state(hash(k));
    Dv cand{0.5, 0.3, 0.1, 0.8, 0.95};
    int n = c.range(0, c.thorough ? 5 : 4, "list length");
    Dv ins;
    for (int i = 0; i < n; ++i)
    {
        Dv ok; for (double v : cand) if (mult(U, v) + mult(ins, v) < p) ok.push_back(v);
        if (ok.empty()) break;
        ins.push_back(c.pick(ok, "value"));
    }
    c.log("%s insert %s", str(k).c_str(), str(ins).c_str());
    Dv arg = ins;
    Curve l = k.InsertKnot(std::span<double>(arg)); c.step();
    MC_CHECK(c, arg == ins, "insertion modified its argument list");
    verify(c, k, ins, l, "inserting (list)");
    Curve q = k; for (double v : ins) { q = q.InsertKnot(v); c.step(); }
    verify(c, k, ins, q, "inserting one by one");
    c.state(hash(l));
    MC_CHECK(c, same(k, before), "insertion modified its operand");
}
// every longer list over two values: all orders in which repeated values can come
static void patterns(Ctx& c)
{
    int p = c.range(3, 4, "degree"), n = c.range(5, 2 * p, "list length"); bool knot = c.flip("0.3 is a knot already");
    Dv ins; for (int i = 0; i < n; ++i) { ins.push_back(c.flip("value") ? 0.3 : 0.8); if (i == 1) c.shard(); } if (mult(ins, 0.3) + knot > p || mult(ins, 0.8) > p) return;
    Dv K(p + 1, 0.0); if (knot) K.push_back(0.3); K.insert(K.end(), p + 1, 1.0); const Curve k = curve(p, K, 5, 2); c.state(hash(k)); c.log("%s", str(ins).c_str());
    Dv arg = ins; Curve l = k.InsertKnot(std::span<double>(arg)); c.step(); MC_CHECK(c, arg == ins, "insertion modified its argument list"); verify(c, k, ins, l, "inserting (list)");
    Curve o = k; for (double v : ins) { o = o.InsertKnot(v); c.step(); } verify(c, k, ins, o, "inserting one by one");
}
// many spans, close knots, high degrees: every value in a fixed multi-scale set, once and up to full multiplicity, and as one list
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 33, 65, 130}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 1e-8, 1e-10, 1e-13}) + fam_high(6, c.thorough ? 18 : 13);
    static const std::vector<std::pair<int, int>> ST{{5, 2}, {6, 3}, {7, 11}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    const Curve k = curve(f.p, f.U, s, w); Curve before = k; c.state(hash(k));
    Dv cand = candidates(c, f.U, {0.5, 0.05, 0.98, 1e-3, 1e-6, 1 - 1e-3, 1 - 1e-6, 0.5 + 1e-4, 0.5 - 1e-5, 0.3 + 5e-6});
    size_t stride = cand.size() > 24 ? cand.size() / 12 : 1; Dv all;
    for (size_t i = 0; i < cand.size(); i += (i < 10 || i + 10 > cand.size()) ? 1 : stride)
    {
        double v = cand[i]; int room = f.p - mult(f.U, v); if (room <= 0) continue;
        all.push_back(v); if (room > 1) all.insert(all.begin(), v);
        for (int t : {1, room})
        {
            Dv ins(t, v);
            Curve b = k.InsertKnot(v, t); c.step(); verify(c, k, ins, b, "inserting (value, times)");
            if (t == 1) { Curve a = k.InsertKnot(v); c.step(); verify(c, k, ins, a, "inserting (value)"); if (room == 1) break; }
        }
    }
    Dv arg = all; Curve l = k.InsertKnot(std::span<double>(arg)); c.step(); verify(c, k, all, l, "inserting (list)");
    std::sort(arg.begin(), arg.end()); Curve m = k.InsertKnot(std::span<double>(arg)); c.step(); verify(c, k, all, m, "inserting (sorted list)");
    std::reverse(arg.begin(), arg.end()); m = k.InsertKnot(std::span<double>(arg)); c.step(); verify(c, k, all, m, "inserting (reversed list)");
    MC_CHECK(c, same(k, before), "insertion modified its operand");
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 4, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points"); const Curve k = curve(p, U, s, w); c.state(hash(k));
    for (double v : {0.3, 0.5, 1e-3, 1 - 1e-6, std::nextafter(0.7, 1.0), std::nextafter(0.3, 0.0), 0.3 - 1e-12, 0.7 + 1e-10, 0.3 + 1e-9, 0.7 - 1e-9, 0.3 - 1e-8, 0.7 + 3e-7, 1e-9, 1 - 1e-9})
    {
        int room = p - mult(U, v); if (room <= 0) continue;
        Curve a = k.InsertKnot(v), b = k.InsertKnot(v, room); c.step(2);
        verify(c, k, {v}, a, "inserting (value)"); verify(c, k, Dv(room, v), b, "inserting (value, times)");
    }
}
static void special_nets(Ctx& c)
{
    const Curve k = special_curve(c); const int p = k.Degree; const Dv U = k.Knots.Values(); Dv all; c.state(hash(k));
    for (double v : {0.3, 0.5, 0.7, 0.05, 0.98})
    {
        int room = p - mult(U, v); if (room <= 0) continue;
        all.insert(all.begin(), room, v);
        Curve a = k.InsertKnot(v), b = k.InsertKnot(v, room); c.step(2);
        verify(c, k, {v}, a, "inserting (value)"); verify(c, k, Dv(room, v), b, "inserting (value, times)");
    }
    Dv arg = all; Curve l = k.InsertKnot(std::span<double>(arg)); c.step(); verify(c, k, all, l, "inserting (list)");
}
static void huge_nets(Ctx& c)
{
    int p = c.range(1, 2, "degree"); Fam f = huge(p, c.pick(huge_sizes(), "spans")); c.shard(); const Curve k = curve(f.p, f.U, 5, 2); c.state(hash(k)); auto in = interior(f.U);
    for (double v : {0.5, 0.98, 1e-6, in[in.size() / 2].first, in.back().first})
    {
        int room = f.p - mult(f.U, v); if (room <= 0) continue;
        Curve a = k.InsertKnot(v), b = k.InsertKnot(v, room); c.step(2); verify(c, k, {v}, a, "inserting (value)"); verify(c, k, Dv(room, v), b, "inserting (value, times)");
    }
    Dv l{0.9999995, 0.123, 1e-7, 0.77, 0.5}, arg = l; Curve g = k.InsertKnot(std::span<double>(arg)); c.step(); verify(c, k, l, g, "inserting (list)");
    if (f.U.size() < 400) { Dv m; for (int i = 0; i < 300; ++i) m.push_back((i * 7 % 300 + 0.5) / 300 + 1e-5); arg = m; g = k.InsertKnot(std::span<double>(arg)); c.step(); verify(c, k, m, g, "inserting (long list)"); }
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"repeated", repeated}, {"lists", lists}, {"patterns", patterns}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
