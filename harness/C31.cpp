// Every call runs under ASan, UBSan, hardened containers and live assertions; each is repeated with fresh heap and
// stack memory holding different garbage, and must give bit-identical, finite results.
#include "io.hpp"
#include <alloca.h>
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
#include <new>
using namespace io;
const char* mc::PROPERTY = "C31";
using libnurbs::BSplineBasis; using libnurbs::KnotVector;

// ---- garbage in fresh memory ------------------------------------------------------------------------
static int g_fill = -1;
extern "C" void* __real_malloc(size_t);
extern "C" void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p && g_fill >= 0) memset(p, g_fill, n); return p; }
static void* make(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void* make(size_t n, size_t a) { void* p = nullptr; if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) throw std::bad_alloc(); if (g_fill >= 0) memset(p, g_fill, n); return p; }
void* operator new(size_t n) { return make(n); }
void* operator new[](size_t n) { return make(n); }
void* operator new(size_t n, std::align_val_t a) { return make(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return make(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
__attribute__((noinline, no_sanitize("address"))) static void dirty_stack(int b) { volatile char* a = (volatile char*)alloca(60000); for (int i = 0; i < 60000; ++i) a[i] = (char)b; }

// ---- results -----------------------------------------------------------------------------------------
static void put(Dv& r, const Vec3& v) { for (int i = 0; i < 3; ++i) r.push_back(v[i]); }
static void put(Dv& r, const Dv& v) { r.push_back(v.size()); r.insert(r.end(), v.begin(), v.end()); }
static void put(Dv& r, const Curve& c) { r.push_back(c.Degree); put(r, c.Knots.Values()); for (auto& p : c.ControlPoints) for (int i = 0; i < 4; ++i) r.push_back(p[i]); }
static void put(Dv& r, const Surface& c) { r.push_back(c.DegreeU); r.push_back(c.DegreeV); put(r, c.KnotsU.Values()); put(r, c.KnotsV.Values()); r.push_back(c.ControlPoints.UCount); r.push_back(c.ControlPoints.VCount); for (auto& p : c.ControlPoints.Values) for (int i = 0; i < 4; ++i) r.push_back(p[i]); }
static void put(Dv& r, const std::string& s) { r.push_back(s.size()); for (unsigned char ch : s) r.push_back(ch); }
static libnurbs::Mat3x3 mat() { libnurbs::Mat3x3 m; m << 0.1, -0.7, 0.2, 3.3, 0.5, -1.1, 0.9, 0.4, -2.2; return m; }

// every call is made three times; `f` fills the vector
template <class F> void check(Ctx& c, const std::string& what, F f)
{
    static const int fills[] = {0x00, 0xff, 0x7f, 0xa5};
    Dv first; first.reserve(4096);
    for (int i = 0; i < 4; ++i)
    {
        Dv r; dirty_stack(fills[i]); g_fill = fills[i];
        try { f(r); } catch (mc::Violation&) { g_fill = -1; throw; } catch (std::exception& e) { g_fill = -1; c.fail("%s throws: %s", what.c_str(), e.what()); }
        g_fill = -1; c.step();
        if (i == 0) { for (double x : r) MC_CHECK(c, std::isfinite(x), "%s gives a value that is not finite", what.c_str()); first = r; }
        else MC_CHECK(c, bits(r, first), "%s depends on memory that was never written (garbage %#x)", what.c_str(), fills[i]);
    }
}
static void knot_ops(Ctx& c, const std::string& what, const KnotVector& K, int p)
{
    check(c, what + " knot queries", [&](Dv& r) {
        const KnotVector& k = K;
        r.push_back(k.Count()); r.push_back(k.IsValid()); r.push_back(k.IsClamped()); r.push_back(k.IsUniform()); r.push_back(k.DetectDegree());
        for (double u : params(k.Values(), 1)) { r.push_back(k.FindSpanIndex(p, u)); r.push_back(k.GetMultiplicity(u)); auto s = k.FindSpan(u); r.push_back(s.Index); r.push_back(s.Left.Value); r.push_back(s.Right.Value); r.push_back(s.Left.Index); r.push_back(s.Right.Multiplicity); }
        for (auto& x : k.GetKnotPairs()) { r.push_back(x.Index); r.push_back(x.Value); r.push_back(x.Multiplicity); }
        KnotVector m = k; m.Reverse(); put(r, m.Values()); r.push_back(m.InsertKnot(0.41, 2)); put(r, m.Values()); put(r, KnotVector(k.Values()).Values()); put(r, KnotVector(k.GetKnotPairs()).Values());
    });
    check(c, what + " basis functions", [&](Dv& r) {
        for (double u : params(K.Values(), 1)) for (int o = 0; o <= p + 2; ++o)
        {
            auto a = BSplineBasis::Evaluate(p, K, u); for (int i = 0; i < a.size(); ++i) r.push_back(a[i]);
            auto b = BSplineBasis::EvaluateDerivative(p, K, u, o); for (int i = 0; i < b.size(); ++i) r.push_back(b[i]);
            auto m = BSplineBasis::EvaluateAll(p, K, u, o); for (int i = 0; i < m.size(); ++i) r.push_back(m.data()[i]);
            if (r.size() > 20000) return;
        }
    });
}
static int mult(const Dv& U, double v) { return (int)std::count(U.begin(), U.end(), v); }
static Dv some_knots(const Dv& K) { auto in = interior(K); Dv r; for (size_t i = 0; i < in.size(); ++i) if (in.size() <= 6 || i < 2 || i + 2 >= in.size() || i == in.size() / 2) r.push_back(in[i].first); return r; }
static void curve_ops(Ctx& c, const Curve& src)
{
    const Curve k = src; c.state(hash(k)); c.log("%s", str(k).c_str()); const int p = k.Degree; const Dv& K = k.Knots.Values(); std::string W = str(k).substr(0, 400);
    Vec3 on = k.Evaluate(0.37), off = on + Vec3(1, 2, 3) * (1 + scale(k));
    switch (c.choose(12, "operation"))
    {
    case 0: check(c, W + " Evaluate", [&](Dv& r) { for (double u : params(K, 2)) put(r, k.Evaluate(u)); put(r, k.Evaluate(-0.0)); r.push_back(k.IsRational()); }); break;
    case 1: check(c, W + " derivatives", [&](Dv& r) { for (double u : params(K, 1)) { for (int o = 0; o <= p + 2; ++o) put(r, k.EvaluateDerivative(u, o)); for (auto& v : k.EvaluateAll(u, p + 3)) put(r, v); if (r.size() > 20000) return; } }); break;
    case 2: check(c, W + " SearchParameter", [&](Dv& r) { for (auto& q : {on, off}) for (double init : {0.0, 0.5, 1.0}) for (int it : {0, 1, 7}) for (double e : {1e-8, 10.0}) r.push_back(k.SearchParameter(q, init, e, it)); }); break;
    case 3: check(c, W + " BinarySearchParameter", [&](Dv& r) { for (auto& q : {on, off}) for (int it : {0, 1, 50}) for (double e : {1e-8, 0.3, 10.0}) r.push_back(k.BinarySearchParameter(q, e, it)); }); break;
    case 4: { Dv vs = some_knots(K); for (double v : {0.41, 1e-9, 1 - 1e-9}) vs.push_back(v); double v = c.pick(vs, "value"); int room = p - mult(K, v);
              for (int t = 0; t <= room; ++t) check(c, W + " InsertKnot", [&](Dv& r) { put(r, k.InsertKnot(v, t)); if (t == 1) put(r, k.InsertKnot(v)); Dv l(t, v); put(r, k.InsertKnot(std::span<double>(l))); }); break; }
    case 5: check(c, W + " InsertKnot list", [&](Dv& r) { Dv l; put(r, k.InsertKnot(std::span<double>(l))); for (double v : {0.91, 0.13, 0.57}) if (mult(K, v) < p) l.push_back(v); put(r, k.InsertKnot(std::span<double>(l))); }); break;
    case 6: { Dv vs = some_knots(K); for (double v : {0.41, 1e-5, 1 - 1e-5}) vs.push_back(v); double v = c.pick(vs, "value"); static const std::vector<int> T{1, 2, 1000}; int t = c.pick(T, "times"); check(c, W + " RemoveKnot", [&](Dv& r) { for (double e : {0.0, 1e-9, 1e-2}) { auto [g, n] = k.RemoveKnot(v, t, e); put(r, g); r.push_back(n); } }); break; }
    case 7: { int t = c.range(1, 6, "by"); check(c, W + " ElevateDegree", [&](Dv& r) { put(r, k.ElevateDegree(t)); }); break; }
    case 8: check(c, W + " Transform", [&](Dv& r) { put(r, k.Transform(mat())); }); check(c, W + " ExtractBezier", [&](Dv& r) { for (auto& s : k.ExtractBezier()) put(r, s); }); break;
    case 9: check(c, W + " GetBoundingBox", [&](Dv& r) { for (double e : {1e-3, 1e-2, 10.0}) { auto b = k.GetBoundingBox(e * (1e-9 + scale(k))); put(r, Vec3(b.Min)); put(r, Vec3(b.Max)); } }); break;
    case 10: check(c, W + " save and load", [&](Dv& r) { for (int bin = 0; bin < 2; ++bin) { std::stringstream s; k.SaveToFile(s, bin); put(r, s.str()); Curve g; g.LoadFromFile(s); put(r, g); } }); break;
    default: knot_ops(c, W, k.Knots, p);
    }
    MC_CHECK(c, same(k, src), "%s was modified", W.c_str());
}
static void surface_ops(Ctx& c, const Surface& src)
{
    const Surface k = src; c.state(hash(k)); c.log("%s", str(k).c_str()); std::string W = str(k).substr(0, 400);
    Vec3 on = k.Evaluate(0.37, 0.61), off = on + Vec3(1, 2, 3) * (1 + scale(k)); int op = c.choose(12, "operation"), d = op >= 4 && op <= 7 ? c.choose(2, "direction") : 0;
    const Dv &U = k.KnotsU.Values(), &V = k.KnotsV.Values(), &K = d ? V : U; const int p = d ? k.DegreeV : k.DegreeU;
    switch (op)
    {
    case 0: check(c, W + " Evaluate", [&](Dv& r) { Dv vs = params(V, 1); for (double u : params(U, 1)) { for (double v : vs) put(r, k.Evaluate(u, v)); if (r.size() > 20000) break; } r.push_back(k.IsRational()); }); break;
    case 1: check(c, W + " derivatives", [&](Dv& r) { Dv vs = params(V, 1, false); for (double u : params(U, 1, false)) { for (double v : vs) { put(r, k.EvaluateDerivative(u, v, 1, 2)); put(r, k.EvaluateDerivative(u, v, k.DegreeU + 1, 0)); auto g = k.EvaluateAll(u, v, k.DegreeU + 2, k.DegreeV + 1); r.push_back(g.UCount); for (auto& x : g.Values) put(r, x); auto h = k.EvaluateAll(u, v, 0, k.DegreeV + 2); for (auto& x : h.Values) put(r, x); } if (r.size() > 20000) break; } }); break;
    case 2: check(c, W + " SearchParameter", [&](Dv& r) { for (auto& q : {on, off}) for (double init : {0.0, 0.5, 1.0}) for (int it : {0, 1, 5}) for (double e : {1e-8, 10.0}) { auto x = k.SearchParameter(q, init, 1 - init, e, it); r.push_back(x.first); r.push_back(x.second); } }); break;
    case 3: check(c, W + " isoparametric searches", [&](Dv& r) { for (auto& q : {on, off}) for (int dir = 0; dir < 2; ++dir) for (double cst : {0.0, 0.61, 1.0}) for (int it : {0, 1, 20}) { auto x = k.SearchParameterOn(q, dir, cst, 0.5, 1e-8, it); r.push_back(x.first); r.push_back(x.second); auto y = k.BinarySearchParameterOn(q, dir, cst, 1e-8, it); r.push_back(y.first); r.push_back(y.second); } }); break;
    case 4: { Dv vs = some_knots(K); for (double v : {0.41, 1e-9, 1 - 1e-9}) vs.push_back(v); double v = c.pick(vs, "value"); int room = p - mult(K, v);
              for (int t = 0; t <= room; ++t) check(c, W + " InsertKnotU/V", [&](Dv& r) { put(r, d ? k.InsertKnotV(v, t) : k.InsertKnotU(v, t)); if (t == 1) put(r, d ? k.InsertKnotV(v) : k.InsertKnotU(v)); Dv l(t, v); put(r, d ? k.InsertKnotV(std::span<double>(l)) : k.InsertKnotU(std::span<double>(l))); }); break; }
    case 5: check(c, W + " InsertKnotU/V list", [&](Dv& r) { Dv l; put(r, d ? k.InsertKnotV(std::span<double>(l)) : k.InsertKnotU(std::span<double>(l))); for (double v : {0.91, 0.13, 0.57}) if (mult(K, v) < p) l.push_back(v); put(r, d ? k.InsertKnotV(std::span<double>(l)) : k.InsertKnotU(std::span<double>(l))); }); break;
    case 6: { Dv vs = some_knots(K); for (double v : {0.41, 1e-5, 1 - 1e-5}) vs.push_back(v); double v = c.pick(vs, "value"); static const std::vector<int> T{1, 2, 1000}; int t = c.pick(T, "times"); check(c, W + " RemoveKnotU/V", [&](Dv& r) { for (double e : {0.0, 1e-9, 1e-2}) { auto [g, n] = d ? k.RemoveKnotV(v, t, e) : k.RemoveKnotU(v, t, e); put(r, g); r.push_back(n); } }); break; }
    case 7: { int t = c.range(1, 4, "by"); check(c, W + " ElevateDegreeU/V", [&](Dv& r) { put(r, d ? k.ElevateDegreeV(t) : k.ElevateDegreeU(t)); }); break; }
    case 8: check(c, W + " Transform", [&](Dv& r) { put(r, k.Transform(mat())); }); break;
    case 9: check(c, W + " AlignParameterDomain", [&](Dv& r) { for (int a = 0; a < 9; ++a) { Surface m = k; put(r, m.AlignParameterDomain((Surface::AlignAxis)(a / 3), (Surface::AlignAxis)(a % 3))); } }); break;
    case 10: check(c, W + " save and load", [&](Dv& r) { for (int bin = 0; bin < 2; ++bin) { std::stringstream s; k.SaveToFile(s, bin); put(r, s.str()); Surface g; g.LoadFromFile(s); put(r, g); } }); break;
    default: knot_ops(c, W, k.KnotsU, k.DegreeU); knot_ops(c, W, k.KnotsV, k.DegreeV);
    }
    MC_CHECK(c, same(k, src), "%s was modified", W.c_str());
}
static void curves(Ctx& c)
{
    int p = c.range(1, c.thorough ? 5 : 4, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 2); int s = c.choose(3, "style"); c.shard();
    curve_ops(c, curve(p, U, s == 0 ? 0 : s == 1 ? 5 : 2, s == 0 ? 2 : s == 1 ? 0 : 6));
}
static void curve_families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {6, 20, 64}) + fam_tight({1, 2, 3}, {1e-4}) + fam_high(6, 12); int f = c.choose((int)F.size(), "family member"); c.shard();
    curve_ops(c, curve(F[f].p, F[f].U, 0, 2));
}
static void surfaces(Ctx& c)
{
    int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.3, 0.8}, c.thorough ? 2 : 1); int s = c.choose(2, "style"); c.shard();
    surface_ops(c, surface(p, q, U, V, s ? 5 : 0, s ? 0 : 2));
}
static void surface_families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {6, 20}) + fam_high(5, 6), G = fam_large({1, 2}, {1, 4}); int f = c.choose((int)F.size(), "family member"), g = c.choose((int)G.size(), "other direction"); bool swap = c.flip("swap"); c.shard();
    surface_ops(c, swap ? surface(G[g].p, F[f].p, G[g].U, F[f].U, 0, 2) : surface(F[f].p, G[g].p, F[f].U, G[g].U, 0, 2));
}
// coincident points: the smallest legal objects and collapsed ones
static void degenerate(Ctx& c)
{
    bool surf = c.flip("surface"); int p = c.range(1, 3, "degree"), q = surf ? c.range(1, 2, "degree-v") : 1, kind = c.choose(3, "collapse"); c.shard();
    Dv U(p + 1, 0.0), V(q + 1, 0.0); if (kind == 2) U.push_back(0.5); U.insert(U.end(), p + 1, 1.0); V.insert(V.end(), q + 1, 1.0);
    if (surf) { Surface s = surface(p, q, U, V, 0, 2); if (kind) for (auto& x : s.ControlPoints.Values) x.head<3>() = kind == 1 ? Vec3(0, 0, 0) : Vec3(1, 2, 3); surface_ops(c, s); }
    else { Curve s = curve(p, U, 0, 2); if (kind) for (auto& x : s.ControlPoints) x.head<3>() = kind == 1 ? Vec3(0, 0, 0) : Vec3(1, 2, 3); curve_ops(c, s); }
}
static void builders(Ctx& c)
{
    int p = c.range(1, 6, "degree"), n = c.range(1, 6, "extra points"); bool rect = c.flip("rectangle"); c.shard(); c.state(p * 100 + n * 2 + rect);
    if (rect) { libnurbs::GeomRect g = libnurbs::GeomRect::Make({0, 0, 0}, {2, 0, 1}, {0, 3, 0}, {2, 3, 1}); g.DegreeU = p; g.ControlPointCountU = p + n; g.DegreeV = 7 - p; g.ControlPointCountV = 8 - p; check(c, "GetSurface", [&](Dv& r) { put(r, g.GetSurface()); }); }
    else { libnurbs::GeomSegment g = libnurbs::GeomSegment::Make({0, 0, 0}, {2, 0, 1}); g.Degree = p; g.ControlPointCount = p + n; check(c, "GetCurve", [&](Dv& r) { put(r, g.GetCurve()); }); }
    check(c, "Uniform", [&](Dv& r) { put(r, KnotVector::Uniform(p, 2 * p + 1 + n).Values()); });
}
std::vector<mc::Body> mc::bodies() { return {{"curves", curves}, {"curve_families", curve_families}, {"surfaces", surfaces}, {"surface_families", surface_families}, {"degenerate", degenerate}, {"builders", builders}}; }
