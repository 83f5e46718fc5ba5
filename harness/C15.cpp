#include "io.hpp"
using namespace io;
const char* mc::PROPERTY = "C15";

template <class T> std::vector<T> receivers();
template <> std::vector<Curve> receivers<Curve>()
{
    Curve big = curve(3, {0, 0, 0, 0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 1, 1, 1, 1}, 0, 2), small = curve(1, {0, 0, 1, 1}, 5, 0), odd; odd.Degree = 77; odd.ControlPoints.resize(3, Vec4(9, 9, 9, 9));
    return {Curve{}, big, small, odd};
}
template <> std::vector<Surface> receivers<Surface>()
{
    Surface big = surface(2, 3, {0, 0, 0, 0.2, 0.4, 0.6, 1, 1, 1}, {0, 0, 0, 0, 0.5, 1, 1, 1, 1}, 0, 2), small = surface(1, 1, {0, 0, 1, 1}, {0, 0, 1, 1}, 5, 0), odd; odd.KnotsU.Values() = {5, 6}; odd.ControlPoints = {7, 1};
    return {Surface{}, big, small, odd};
}
template <class T> void trip(Ctx& c, const T& k)
{
    c.state(hash(k));
    const T before = k;
    bool bin = c.flip("binary"), file = c.flip("file");
    static const std::vector<T> R = receivers<T>();
    int r = c.choose((int)R.size() + 1, "receiver(4: after a failed load)");
    T g;
    if (r < (int)R.size()) g = R[r];
    else { std::stringstream bad(bin ? encode(R[1]).substr(0, 100) : "LIBNURBS TXT " + std::string(std::is_same_v<T, Curve> ? "CURVE\n*Degree: 3\n*Knots: 0, 1, x\n" : "SURFACE\n*DegreeU: 3\n*KnotsU: 0, 1, x\n")); try { g.LoadFromFile(bad); } catch (std::exception&) {} }
    c.log("%s binary=%d file=%d receiver=%d", str(k).c_str(), bin, file, r);
    std::string path = scratch() + "/o";
    if (file)
    {
        { std::ofstream junk(path, std::ios::binary); junk << std::string(20000, 'z'); } // a longer file is replaced
        k.SaveToFile(path, bin);
        T& ret = g.LoadFromFile(path); MC_CHECK(c, &ret == &g, "loading returned another object");
    }
    else
    {
        std::stringstream ss; k.SaveToFile(ss, bin);
        T& ret = g.LoadFromFile(ss); MC_CHECK(c, &ret == &g, "loading returned another object");
    }
    c.step(2);
    MC_CHECK(c, bits(k, before), "saving modified the object");
    MC_CHECK(c, bits(g, k), "%s form through a %s, receiver %d: saved %s, loaded %s", bin ? "binary" : "text", file ? "file" : "stream", r, str(k).c_str(), str(g).c_str());
}
static void curve_shapes(Ctx& c)
{
    int p = c.range(1, c.thorough ? 5 : 3, "degree"); Dv U = knots(c, p, {0.1, 1.0 / 3, 0.625}, 2);
    int s = c.choose(6, "points"), w = c.choose(7, "weights"); c.shard();
    trip(c, curve(p, U, s, w));
}
static void surface_shapes(Ctx& c)
{
    int p = c.range(1, c.thorough ? 3 : 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.1, 1.0 / 3}, 2), V = knots(c, q, {0.6}, 1, 2);
    int s = c.choose(6, "points"); c.shard();
    trip(c, surface(p, q, U, V, s, s));
}
static void curve_values(Ctx& c)
{
    Curve k = curve(2, {0, 0, 0, 1.0 / 3, 1, 1, 1}, 0, 2);
    int i = c.choose((int)k.ControlPoints.size(), "point"), d = c.choose(4, "coordinate"); double v = c.pick(nasty(), "value"); int j = c.choose(5, "also"); c.shard();
    k.ControlPoints[i][d] = v; if (j < 4) k.ControlPoints[0][j] = c.pick(nasty(), "second value");
    trip(c, k);
}
static void knot_values(Ctx& c)
{
    static const Dv v{1.0 / 3, 0.1, 2.2250738585072014e-308, 1e-300, 1e-17, std::nextafter(1.0, 0.0), 0.7 - 1e-16, 3.3e-8};
    double a = c.pick(v), b = c.pick(v); c.shard(); if (a > b) std::swap(a, b);
    if (c.flip("surface")) { if (c.flip("in-v")) trip(c, surface(1, 2, {0, 0, 0.5, 1, 1}, {0, 0, 0, a, b, 1, 1, 1}, 5, 2)); else trip(c, surface(2, 1, {0, 0, 0, a, b, 1, 1, 1}, {0, 0, 0.25, 1, 1}, 5, 2)); }
    else trip(c, curve(2, {0, 0, 0, a, b, 1, 1, 1}, 5, 2));
}
static void surface_values(Ctx& c)
{
    Surface k = surface(1, 2, {0, 0, 1, 1}, {0, 0, 0, 0.3, 1, 1, 1}, 0, 2);
    int i = c.choose((int)k.ControlPoints.Values.size(), "point"), d = c.choose(4, "coordinate"); double v = c.pick(nasty(), "value"); c.shard();
    k.ControlPoints.Values[i][d] = v;
    trip(c, k);
}
// many points, many knots, high degrees, extreme magnitudes
static const std::vector<Fam>& fams() { static const auto v = fam_large({1, 2, 3, 5}, {10, 33, 100, 257}) + fam_tight({1, 2, 3}, {1e-7, 1e-12, 1e-15}) + fam_high(6, 12); return v; }
static void curve_families(Ctx& c)
{
    auto& F = fams(); int f = c.choose((int)F.size(), "family member"); static const std::pair<int, int> sty[] = {{0, 2}, {6, 10}, {7, 9}, {3, 8}, {4, 11}}; auto [s, w] = sty[c.choose(5, "style")]; c.shard();
    trip(c, curve(F[f].p, F[f].U, s, w));
}
static void surface_families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {10, 40}) + fam_tight({2}, {1e-9}) + fam_high(7, 8), G = fam_large({1, 2}, {1, 3, 12}) + fam_high(5, 5);
    int f = c.choose((int)F.size(), "family member"), g = c.choose((int)G.size(), "other direction"); bool swap = c.flip("swap"); static const std::pair<int, int> sty[] = {{0, 2}, {6, 10}, {7, 9}}; auto [s, w] = sty[c.choose(3, "style")]; c.shard();
    trip(c, swap ? surface(G[g].p, F[f].p, G[g].U, F[f].U, s, w) : surface(F[f].p, G[g].p, F[f].U, G[g].U, s, w));
}
// formatting state the stream may already carry
static void stream_state(Ctx& c)
{
    bool surf = c.flip("surface"); int st = c.choose(6, "stream state"); int prior = c.choose(3, "objects saved before on the same stream object"); int s = c.choose(8, "points"), w = c.choose(13, "weights"); c.shard();
    auto setup = [&](std::ostream& o) { if (st == 1) o.precision(2); if (st == 2) { o.precision(1); o << std::fixed; } if (st == 3) o << std::hexfloat; if (st == 4) o << std::uppercase << std::showpos << std::showpoint; if (st == 5) { o.precision(30); o << std::defaultfloat; } };
    auto run = [&](auto k) {
        using T = decltype(k); c.state(mc::mix(hash(k), st * 10 + prior)); c.log("%s stream state %d", str(k).c_str(), st);
        std::stringstream ss; setup(ss);
        for (int i = 0; i < prior; ++i) { k.SaveToFile(ss, i == 1); ss.str(""); ss.clear(); }
        for (int bin = 0; bin < 2; ++bin) { ss.str(""); ss.clear(); k.SaveToFile(ss, bin); T g; g.LoadFromFile(ss); c.step(2); MC_CHECK(c, bits(g, k), "%s form through a stream in formatting state %d: saved %s, loaded %s", bin ? "binary" : "text", st, str(k).c_str(), str(g).c_str()); }
    };
    if (surf) run(surface(2, 1, {0, 0, 0, 0.3, 1, 1, 1}, {0, 0, 0.6, 1, 1}, s, w)); else run(curve(2, {0, 0, 0, 0.3, 1, 1, 1}, s, w));
}
// load, load, load: only the last file counts
static void histories(Ctx& c)
{
    std::vector<Curve> cs{curve(1, {0, 0, 1, 1}, 0, 2), curve(2, {0, 0, 0, 0.3, 1, 1, 1}, 5, 3), curve(3, {0, 0, 0, 0, 0.5, 0.5, 1, 1, 1, 1}, 1, 0)};
    std::vector<Surface> ss{surface(1, 2, {0, 0, 1, 1}, {0, 0, 0, 0.3, 1, 1, 1}, 0, 2), surface(2, 1, {0, 0, 0, 0.3, 1, 1, 1}, {0, 0, 1, 1}, 5, 3), surface(1, 1, {0, 0, 0.4, 1, 1}, {0, 0, 0.6, 1, 1}, 5, 0)};
    bool surf = c.flip("surface"); int n = c.range(1, c.thorough ? 5 : 4, "loads"); Curve k; Surface s;
    for (int i = 0; i < n; ++i)
    {
        int which = c.choose(3, "object"); bool bin = c.flip("binary"), reload = i > 0 && c.flip("save what was loaded"); if (i == 0) c.shard();
        std::stringstream st;
        if (surf) { (reload ? s : ss[which]).SaveToFile(st, bin); Surface want = reload ? s : ss[which]; s.LoadFromFile(st); MC_CHECK(c, bits(s, want), "load %d: expected %s, got %s", i, str(want).c_str(), str(s).c_str()); c.state(hash(s, i)); }
        else { (reload ? k : cs[which]).SaveToFile(st, bin); Curve want = reload ? k : cs[which]; k.LoadFromFile(st); MC_CHECK(c, bits(k, want), "load %d: expected %s, got %s", i, str(want).c_str(), str(k).c_str()); c.state(hash(k, i)); }
        c.step(2);
    }
}
// a file in which a section is missing: whatever comes of it, it does not depend on the receiver
static void missing(Ctx& c)
{
    bool surf = c.flip("surface"); int drop = c.choose(surf ? 31 : 7, "missing sections") + 1; c.shard();
    auto run = [&](auto k, auto used) {
        using T = decltype(k); std::stringstream ss; k.SaveToFile(ss, false); std::string line, doc; int sec = -1; std::getline(ss, line); doc = line + "\n";
        while (std::getline(ss, line)) { if (line[0] == '*') ++sec; if (!((drop >> sec) & 1)) doc += line + "\n"; }
        c.state(std::hash<std::string>()(doc)); c.log("%s", doc.c_str());
        T a, b = used; bool ta = false, tb = false; { std::istringstream is(doc); try { a.LoadFromFile(is); } catch (std::exception&) { ta = true; } } { std::istringstream is(doc); try { b.LoadFromFile(is); } catch (std::exception&) { tb = true; } } c.step(2);
        MC_CHECK(c, ta == tb && (ta || bits(a, b)), "%s\nloads as %s into a new object, as %s into a used one", doc.c_str(), ta ? "refusal" : str(a).c_str(), tb ? "refusal" : str(b).c_str());
    };
    if (surf) run(surface(1, 2, {0, 0, 1, 1}, {0, 0, 0, 0.3, 1, 1, 1}, 0, 2), surface(2, 3, {0, 0, 0, 0.3, 1, 1, 1}, {0, 0, 0, 0, 1, 1, 1, 1}, 5, 3)); else run(curve(1, {0, 0, 1, 1}, 0, 2), curve(2, {0, 0, 0, 0.3, 1, 1, 1}, 5, 3));
}
// curves that are not finished yet: no degree, knots or control points
static void unfinished(Ctx& c)
{
    int parts = c.choose(8, "parts"), which = c.choose(2, "curve"); c.shard(); Curve k, full = which ? curve(3, {0, 0, 0, 0, 0.5, 1, 1, 1, 1}, 0, 2) : curve(1, {0, 0, 1, 1}, 5, 3);
    if (parts & 1) k.Degree = full.Degree; if (parts & 2) k.Knots = full.Knots; if (parts & 4) k.ControlPoints = full.ControlPoints; trip(c, k);
}
// degrees of any size: the file holds them as they are
static void degrees(Ctx& c)
{
    static const std::vector<int> N{1, 9, 10, 26, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65536, 1000000, 2147483647}; int d = c.pick(N, "degree"); bool su = c.flip("surface"); int e = su ? c.pick(N, "other degree") : 0; c.shard();
    if (su) { Surface s = surface(1, 2, {0, 0, 0.5, 1, 1}, {0, 0, 0, 1, 1, 1}, 5, 2); s.DegreeU = d; s.DegreeV = e; trip(c, s); }
    else { Curve k = curve(1, {0, 0, 0.5, 1, 1}, 5, 2); k.Degree = d; trip(c, k); }
}
static void huge_nets(Ctx& c)
{
    if (c.flip("surface")) { auto [a, b] = c.pick(huge_grids(), "spans"); c.shard(); Fam f = huge(2, a), g = huge(1, b); trip(c, surface(f.p, g.p, f.U, g.U, 5, 2)); }
    else { Fam f = huge(2, c.pick(huge_sizes(), "spans")); c.shard(); trip(c, curve(f.p, f.U, 5, 2)); }
}
std::vector<mc::Body> mc::bodies() { return {{"curve_shapes", curve_shapes}, {"surface_shapes", surface_shapes}, {"curve_values", curve_values}, {"knot_values", knot_values}, {"surface_values", surface_values}, {"histories", histories}, {"curve_families", curve_families}, {"surface_families", surface_families}, {"stream_state", stream_state}, {"missing", missing}, {"unfinished", unfinished}, {"degrees", degrees}, {"huge_nets", huge_nets}}; }
