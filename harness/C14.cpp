// Edit histories: depth-first search over operation sequences on the real objects. The state is the object
// together with the accumulated transform; equal states are expanded once per remaining depth.
#include "gen.hpp"
using namespace gen;
using libnurbs::Curve; using libnurbs::Surface; using libnurbs::Mat3x3;
const char* mc::PROPERTY = "C14";
static int mult(const Dv& U, double v) { return (int)std::count(U.begin(), U.end(), v); }
static Mat3x3 matrix(int i)
{
    Mat3x3 m;
    if (i == 0) m << 0, -1, 0, 1, 0, 0, 0, 0, 1;
    else m << 2, 0.5, 0, 0, 1, -0.25, 0.5, 0, -1;
    return m;
}
static void apply(ref::P4& q, const Mat3x3& m)
{
    ref::P4 o = q;
    for (int a = 0; a < 3; ++a) { o[a] = 0; for (int b = 0; b < 3; ++b) o[a] += (ref::R)m(a, b) * q[b]; }
    q = o;
}
static const Dv INS{0.5, 0.3};

static void curve_history(Ctx& c)
{
    static const std::vector<std::pair<int, int>> st{{0, 2}, {5, 0}, {5, 3}};
    int p = c.range(1, 3, "degree"); Dv U = knots(c, p, {0.5, 0.7}, 2, 2);
    auto [s, w] = c.pick(st, "style");
    c.clear_expanded(); c.shard();
    Curve k = curve(p, U, s, w); ref::Curve model = lift(k);
    const int depth = c.thorough ? 5 : 4;
    int tf = 0; // transforms applied so far; the order matters, so it is part of the state through the points
    c.log("start %s", str(k).c_str());
    for (int d = 0; d < depth; ++d)
    {
        c.prune_if_seen(mc::mix(hash(k), tf), depth - d); c.state(hash(k));
        const Curve before = k; Curve next; const char* name = "";
        int op = c.choose(7, "op(stop,insert,insert-list,remove,elevate,transform,reload)");
        if (op == 0) break;
        const Dv& K = k.Knots.Values();
        switch (op)
        {
        case 1: { double v = c.pick(INS, "value"); if (mult(K, v) >= k.Degree) return; next = k.InsertKnot(v); name = "insert"; break; }
        case 2: { double v = 0.8; int room = k.Degree - mult(K, v); if (room <= 0) return; Dv l(room, v); if (mult(K, 0.1) < k.Degree) l.insert(l.begin(), 0.1); next = k.InsertKnot(std::span<double>(l)); name = "insert list"; break; }
        case 3: { auto in = interior(K); if (in.empty()) return; auto [v, m] = in[c.choose((int)in.size(), "knot")]; int t = c.range(1, std::min(m, 2), "times");
                  auto [g, n] = k.RemoveKnot(v, t, 1e-9); next = g; name = "remove"; c.outcome("remove %d of %d", n, t);
                  MC_CHECK(c, (int)g.Knots.Values().size() == (int)K.size() - n, "removal reported %d, knots went from %zu to %zu", n, K.size(), g.Knots.Values().size()); break; }
        case 4: { int t = c.range(1, 2, "by"); if (k.Degree + t > 7) return; next = k.ElevateDegree(t); name = "elevate"; break; }
        case 5: { if (tf >= 2) return; Mat3x3 m = matrix(c.choose(2, "matrix")); next = k.Transform(m); for (auto& q : model.P) apply(q, m); ++tf; name = "transform"; break; }
        case 6: { bool bin = c.flip("binary"); std::stringstream ss; k.SaveToFile(ss, bin); next = before; next.LoadFromFile(ss); name = "reload"; MC_CHECK(c, same(next, k), "reload changed %s to %s", str(k).c_str(), str(next).c_str()); break; }
        }
        c.step(); c.log("%s -> %s", name, str(next).c_str());
        MC_CHECK(c, same(k, before), "%s modified its operand %s", name, str(before).c_str());
        k = next;
        if (!c.fresh()) continue;
        well_formed(c, k, name);
        Dev e = deviation(model, lift(k), params(k.Knots.Values(), 2, false));
        MC_CHECK(c, e.rel <= 1e-7, "after %s the shape is off by %g at %.17g: %s", name, e.abs, e.at, str(k).c_str());
        Vec3 x = k.Evaluate(0.45); auto y = ref::eval(model, 0.45);
        MC_CHECK(c, near(x, y, 1e-7), "after %s evaluation at 0.45 gives %s, expected %s", name, str(x).c_str(), str(y).c_str());
    }
}
static void surface_history(Ctx& c)
{
    static const std::vector<std::pair<int, int>> st{{0, 2}, {5, 0}};
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v");
    Dv U = knots(c, p, {0.5}, 1, 2), V = knots(c, q, {0.3}, 1, 1);
    auto [s, w] = c.pick(st, "style");
    c.clear_expanded(); c.shard();
    Surface k = surface(p, q, U, V, s, w); ref::Surface model = lift(k);
    const int depth = c.thorough ? 4 : 3;
    int tf = 0;
    c.log("start %s", str(k).c_str());
    for (int d = 0; d < depth; ++d)
    {
        c.prune_if_seen(mc::mix(hash(k), tf), depth - d); c.state(hash(k));
        const Surface before = k; Surface next; const char* name = "";
        int op = c.choose(7, "op(stop,insert,insert-list,remove,elevate,transform,reload)");
        if (op == 0) break;
        int dir = op <= 4 ? c.choose(2, "direction") : 0;
        const Dv& K = dir ? k.KnotsV.Values() : k.KnotsU.Values(); int deg = dir ? k.DegreeV : k.DegreeU;
        switch (op)
        {
        case 1: { double v = c.pick(INS, "value"); if (mult(K, v) >= deg) return; next = dir ? k.InsertKnotV(v) : k.InsertKnotU(v); name = "insert"; break; }
        case 2: { double v = 0.8; int room = deg - mult(K, v); if (room <= 0) return; Dv l(room, v); if (mult(K, 0.1) < deg) l.insert(l.begin(), 0.1); next = dir ? k.InsertKnotV(std::span<double>(l)) : k.InsertKnotU(std::span<double>(l)); name = "insert list"; break; }
        case 3: { auto in = interior(K); if (in.empty()) return; auto [v, m] = in[c.choose((int)in.size(), "knot")]; int t = c.range(1, std::min(m, 2), "times");
                  auto [g, n] = dir ? k.RemoveKnotV(v, t, 1e-9) : k.RemoveKnotU(v, t, 1e-9); next = g; name = "remove"; c.outcome("remove %d of %d", n, t);
                  const Dv& L = dir ? g.KnotsV.Values() : g.KnotsU.Values();
                  MC_CHECK(c, (int)L.size() == (int)K.size() - n, "removal reported %d, knots went from %zu to %zu", n, K.size(), L.size()); break; }
        case 4: { int t = c.range(1, 2, "by"); if (deg + t > 6) return; next = dir ? k.ElevateDegreeV(t) : k.ElevateDegreeU(t); name = "elevate"; break; }
        case 5: { if (tf >= 2) return; Mat3x3 m = matrix(c.choose(2, "matrix")); next = k.Transform(m); for (auto& x : model.P) apply(x, m); ++tf; name = "transform"; break; }
        case 6: { bool bin = c.flip("binary"); std::stringstream ss; k.SaveToFile(ss, bin); next = before; next.LoadFromFile(ss); name = "reload"; MC_CHECK(c, same(next, k), "reload changed %s to %s", str(k).c_str(), str(next).c_str()); break; }
        }
        c.step(); c.log("%s -> %s", name, str(next).c_str());
        MC_CHECK(c, same(k, before), "%s modified its operand %s", name, str(before).c_str());
        k = next;
        if (!c.fresh()) continue;
        well_formed(c, k, name);
        Dev e = deviation(model, lift(k), params(k.KnotsU.Values(), 1, false), params(k.KnotsV.Values(), 1, false));
        MC_CHECK(c, e.rel <= 1e-7, "after %s the shape is off by %g at (%.17g, %.17g): %s", name, e.abs, e.at, e.at2, str(k).c_str());
        Vec3 x = k.Evaluate(0.45, 0.55); auto y = ref::eval(model, 0.45, 0.55);
        MC_CHECK(c, near(x, y, 1e-7), "after %s evaluation at (0.45, 0.55) gives %s, expected %s", name, str(x).c_str(), str(y).c_str());
    }
}
std::vector<mc::Body> mc::bodies() { return {{"curve", curve_history}, {"surface", surface_history}}; }
