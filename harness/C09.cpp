#include "gen.hpp"
using namespace gen;
using libnurbs::Surface;
const char* mc::PROPERTY = "C09";
static const std::vector<std::pair<int, int>> STYLES{{0, 2}, {5, 3}, {3, 6}, {4, 0}, {1, 5}};
static int mult(const Dv& U, double v) { return (int)std::count(U.begin(), U.end(), v); }

static void verify(Ctx& c, const Surface& k, int dir, const Dv& ins, const Surface& g, const char* form)
{
    std::string what = std::string(form) + (dir ? " V " : " U ") + str(ins) + " into " + str(k);
    MC_CHECK(c, g.DegreeU == k.DegreeU && g.DegreeV == k.DegreeV, "%s: degrees became %d, %d", what.c_str(), g.DegreeU, g.DegreeV);
    Dv wu = k.KnotsU.Values(), wv = k.KnotsV.Values(); Dv& w = dir ? wv : wu;
    w.insert(w.end(), ins.begin(), ins.end()); std::sort(w.begin(), w.end());
    MC_CHECK(c, g.KnotsU.Values() == wu, "%s: u knots became %s", what.c_str(), str(g.KnotsU.Values()).c_str());
    MC_CHECK(c, g.KnotsV.Values() == wv, "%s: v knots became %s", what.c_str(), str(g.KnotsV.Values()).c_str());
    well_formed(c, g, what.c_str());
    Dev d = deviation(lift(k), lift(g), params(wu, 1, false), params(wv, 1, false));
    MC_CHECK(c, d.rel <= 1e-11 * slack(k), "%s: the surface moved by %g at (%.17g, %.17g); result %s", what.c_str(), d.abs, d.at, d.at2, str(g).c_str());
    Vec3 a = g.Evaluate(0.45, 0.55), b = k.Evaluate(0.45, 0.55); c.step(2);
    MC_CHECK(c, (a - b).norm() <= 1e-11 * slack(k) * scale(k), "%s: evaluation at (0.45, 0.55) differs", what.c_str());
}
static Surface ins1(const Surface& k, int d, double v) { return d ? k.InsertKnotV(v) : k.InsertKnotU(v); }
static Surface insn(const Surface& k, int d, double v, int t) { return d ? k.InsertKnotV(v, t) : k.InsertKnotU(v, t); }
static Surface insl(const Surface& k, int d, Dv& l) { return d ? k.InsertKnotV(std::span<double>(l)) : k.InsertKnotU(std::span<double>(l)); }

static void repeated(Ctx& c)
{
    int p = c.range(1, c.thorough ? 4 : 3, "degree-u"), q = c.range(1, c.thorough ? 4 : 3, "degree-v");
    Dv U = knots(c, p, {0.37, 0.625}, 2), V = knots(c, q, {0.5}, 1);
    c.shard();
    auto [s, w] = c.pick(STYLES, "style");
    const Surface k = surface(p, q, U, V, s, w); Surface before = k; c.state(hash(k));
    int dir = c.choose(2, "direction"); int deg = dir ? q : p; const Dv& K = dir ? V : U;
    Dv cand{0.5, 0.05, 0.37, 0.625, 0.98};
    double v = c.pick(cand, "value"); int room = deg - mult(K, v);
    if (room <= 0) { c.outcome("knot already at full multiplicity"); return; }
    int t = c.range(0, room, "times");
    Dv ins(t, v); c.log("%s insert dir %d %s", str(k).c_str(), dir, str(ins).c_str());
    Surface b = insn(k, dir, v, t), l = insl(k, dir, ins); c.step(2);
    verify(c, k, dir, ins, b, "inserting (value, times)"); verify(c, k, dir, ins, l, "inserting (list)");
    if (t == 1) { Surface a = ins1(k, dir, v); c.step(); verify(c, k, dir, ins, a, "inserting (value)"); }
    c.state(hash(b));
    MC_CHECK(c, same(k, before), "insertion modified its operand");
    c.outcome("times %d", t);
}
static void lists(Ctx& c)
{
    int p = c.range(1, c.thorough ? 3 : 2, "degree-u"), q = c.range(1, c.thorough ? 3 : 2, "degree-v");
    Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.5}, 1);
    auto [s, w] = c.pick(STYLES, "style");
    c.shard();
    const Surface k = surface(p, q, U, V, s, w); Surface before = k; c.state(hash(k));
    int dir = c.choose(2, "direction"); int deg = dir ? q : p; const Dv& K = dir ? V : U;
    Dv cand{0.5, 0.3, 0.1, 0.8}, ins;
    int n = c.range(0, c.thorough ? 4 : 3, "list length");
    for (int i = 0; i < n; ++i)
    {
        Dv ok; for (double v : cand) if (mult(K, v) + mult(ins, v) < deg) ok.push_back(v);
        if (ok.empty()) break;
        ins.push_back(c.pick(ok, "value"));
    }
    c.log("%s insert dir %d %s", str(k).c_str(), dir, str(ins).c_str());
    Dv arg = ins;
    Surface l = insl(k, dir, arg); c.step();
    MC_CHECK(c, arg == ins, "insertion modified its argument list");
    verify(c, k, dir, ins, l, "inserting (list)");
    Surface o = k; for (double v : ins) { o = ins1(o, dir, v); c.step(); }
    verify(c, k, dir, ins, o, "inserting one by one");
    c.state(hash(l));
    MC_CHECK(c, same(k, before), "insertion modified its operand");
}
// every longer list over two values: all orders in which repeated values can come
static void patterns(Ctx& c)
{
    int dir = c.choose(2, "direction"), p = c.range(2, 4, "degree"), n = c.range(4, std::min(2 * p, c.thorough ? 8 : 6), "list length"); bool knot = c.flip("0.3 is a knot already"); if (knot && n > 2 * p - 1) return;
    Dv ins; for (int i = 0; i < n; ++i) { ins.push_back(c.flip("value") ? 0.3 : 0.8); if (i == 1) c.shard(); } if (mult(ins, 0.3) + knot > p || mult(ins, 0.8) > p) return;
    Dv K(p + 1, 0.0); if (knot) K.push_back(0.3); K.insert(K.end(), p + 1, 1.0); const Dv O{0, 0, 0.6, 1, 1}; const Surface k = dir ? surface(1, p, O, K, 5, 2) : surface(p, 1, K, O, 5, 2); c.state(hash(k)); c.log("dir %d %s", dir, str(ins).c_str());
    Dv arg = ins; Surface l = insl(k, dir, arg); c.step(); MC_CHECK(c, arg == ins, "insertion modified its argument list"); verify(c, k, dir, ins, l, "inserting (list)");
    Surface o = k; for (double v : ins) { o = ins1(o, dir, v); c.step(); } verify(c, k, dir, ins, o, "inserting one by one");
}
static void forms(Ctx& c, const Surface& k, int dir, const Dv& values)
{
    Surface before = k; c.state(hash(k));
    const Dv K = dir ? k.KnotsV.Values() : k.KnotsU.Values(); int deg = dir ? k.DegreeV : k.DegreeU; Dv all;
    for (double v : values)
    {
        int room = deg - mult(K, v); if (room <= 0) continue;
        all.push_back(v); if (room > 1) all.insert(all.begin(), v);
        Surface a = ins1(k, dir, v), b = insn(k, dir, v, room); c.step(2);
        verify(c, k, dir, {v}, a, "inserting (value)"); verify(c, k, dir, Dv(room, v), b, "inserting (value, times)");
    }
    Dv arg = all; Surface l = insl(k, dir, arg); c.step(); verify(c, k, dir, all, l, "inserting (list)");
    std::sort(arg.begin(), arg.end()); l = insl(k, dir, arg); c.step(); verify(c, k, dir, all, l, "inserting (sorted list)");
    std::reverse(arg.begin(), arg.end()); l = insl(k, dir, arg); c.step(); verify(c, k, dir, all, l, "inserting (reversed list)");
    MC_CHECK(c, same(k, before), "insertion modified its operand");
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {9, 40}) + fam_tight({1, 2, 3}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 1e-9, 1e-13}) + fam_high(4, c.thorough ? 14 : 9);
    static const std::vector<std::pair<int, int>> ST{{5, 2}, {6, 3}, {7, 11}};
    const Fam& f = F[c.choose((int)F.size(), "member")]; c.shard(); auto [s, w] = c.pick(ST, "style");
    Fam o{2, {0, 0, 0, 0.3, 1, 1, 1}}; int flip = c.choose(2, "family direction"), dir = c.choose(2, "direction");
    Surface k = flip ? surface(o.p, f.p, o.U, f.U, s, w) : surface(f.p, o.p, f.U, o.U, s, w);
    Dv v{0.5, 0.98, 1e-3, 1 - 1e-6, 0.3 + 5e-6, 0.3};
    if (flip == dir) { auto in = interior(f.U); size_t st = in.size() > 12 ? in.size() / 4 : 1; for (size_t i = 0; i < in.size(); i += st) if (std::find(v.begin(), v.end(), in[i].first) == v.end()) v.push_back(in[i].first); }
    if (f.U.size() > 30) v.erase(v.begin() + 2, v.begin() + 4);
    forms(c, k, dir, v);
}
static void extreme(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.7}, 1); c.shard();
    int w = c.choose(13, "weights"), s = c.choose(8, "points"), dir = c.choose(2, "direction");
    forms(c, surface(p, q, U, V, s, w), dir, {0.3, 0.5, 1e-3, 1 - 1e-6, std::nextafter(0.7, 1.0), std::nextafter(0.3, 0.0), 0.3 - 1e-12, 0.7 + 1e-10, 0.3 + 1e-9, 0.7 - 1e-9, 0.3 - 1e-8, 0.7 + 3e-7, 1e-9, 1 - 1e-9, 0.7});
}
static void special_nets(Ctx& c) { auto k = special_surface(c); forms(c, k, c.choose(2, "direction"), {0.3, 0.5, 0.7, 0.05}); }
static void huge_nets(Ctx& c)
{
    auto [a, b] = c.pick(huge_grids(), "spans"); int p = c.range(1, 2, "degree-u"); c.shard(); Fam f = huge(p, a), g = huge(3 - p, b); Surface k = surface(f.p, g.p, f.U, g.U, 5, 2); int dir = c.choose(2, "direction");
    forms(c, k, dir, {0.98, interior((dir ? g : f).U).empty() ? 0.3 : interior((dir ? g : f).U).back().first});
}
std::vector<mc::Body> mc::bodies() { return {{"families", families}, {"extreme", extreme}, {"repeated", repeated}, {"lists", lists}, {"patterns", patterns}, {"special_nets", special_nets}, {"huge_nets", huge_nets}}; }
