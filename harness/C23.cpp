#include "gen.hpp"
using namespace gen;
using libnurbs::Surface;
const char* mc::PROPERTY = "C23";
using Axis = Surface::AlignAxis;

static Dv rev(const Dv& U) { Dv r; for (size_t i = U.size(); i-- > 0;) r.push_back(1.0 - U[i]); return r; }
static Surface reparam(const Surface& s, bool swap, bool fu, bool fv) // swap first, then flip
{
    Surface t; t.DegreeU = swap ? s.DegreeV : s.DegreeU; t.DegreeV = swap ? s.DegreeU : s.DegreeV;
    Dv U = (swap ? s.KnotsV : s.KnotsU).Values(), V = (swap ? s.KnotsU : s.KnotsV).Values();
    t.KnotsU.Values() = fu ? rev(U) : U; t.KnotsV.Values() = fv ? rev(V) : V;
    int nu = swap ? s.ControlPoints.VCount : s.ControlPoints.UCount, nv = swap ? s.ControlPoints.UCount : s.ControlPoints.VCount;
    t.ControlPoints.UCount = nu; t.ControlPoints.VCount = nv; t.ControlPoints.Values.resize(nu * nv);
    for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i)
    {
        int a = fu ? nu - 1 - i : i, b = fv ? nv - 1 - j : j;
        t.ControlPoints.Values[j * nu + i] = swap ? s.ControlPoints.Values[a * s.ControlPoints.UCount + b] : s.ControlPoints.Values[b * s.ControlPoints.UCount + a];
    }
    return t;
}
static bool close(const Dv& a, const Dv& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-15)) return false; return true; }
static bool equal(const Surface& a, const Surface& b)
{
    return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && close(a.KnotsU.Values(), b.KnotsU.Values()) && close(a.KnotsV.Values(), b.KnotsV.Values()) &&
        a.ControlPoints.UCount == b.ControlPoints.UCount && a.ControlPoints.VCount == b.ControlPoints.VCount && a.ControlPoints.Values == b.ControlPoints.Values;
}
// checks that the result is a reparametrisation; returns it
static Surface run(Ctx& c, const Surface& s, int ua, int va, int* which = nullptr)
{
    Surface k = s; Surface g = k.AlignParameterDomain((Axis)ua, (Axis)va); c.step();
    MC_CHECK(c, same(k, s), "%s: aligning modified the original", str(s).c_str());
    well_formed(c, g, "aligned surface");
    for (int m = 0; m < 8; ++m) if (equal(g, reparam(s, m & 1, m & 2, m & 4)))
    {
        if (which) *which = m;
        c.outcome("swap=%d flip-u=%d flip-v=%d", m & 1, (m >> 1) & 1, (m >> 2) & 1);
        // behavioural confirmation by evaluation of the real code
        for (double u : {0.0, 0.3, 0.5, 0.81, 1.0}) for (double v : {0.0, 0.2, 0.5, 1.0})
        {
            double a = m & 2 ? 1 - u : u, b = m & 4 ? 1 - v : v; Vec3 x = g.Evaluate(u, v), y = m & 1 ? s.Evaluate(b, a) : s.Evaluate(a, b); c.step(2);
            MC_CHECK(c, (x - y).norm() <= 1e-9 * scale(s), "%s aligned with axes %d,%d: point at (%g, %g) moved", str(s).c_str(), ua, va, u, v);
        }
        return g;
    }
    c.fail("%s aligned with axes %d,%d is not a reparametrisation by swapping and flipping: %s", str(s).c_str(), ua, va, str(g).c_str());
}
static Surface framed(int p, int q, const Dv& U, const Dv& V, const Vec3& o, const Vec3& a, const Vec3& b, int ws, double wob)
{
    Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU.Values() = U; s.KnotsV.Values() = V; int nu = (int)U.size() - p - 1, nv = (int)V.size() - q - 1; s.ControlPoints = {nu, nv};
    Vec3 n = a.cross(b); n /= n.norm();
    for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i)
    {
        double x = (double)i / (nu - 1), y = (double)j / (nv - 1); bool inner = i > 0 && j > 0 && i < nu - 1 && j < nv - 1;
        Vec3 z = o + a * x + b * y + (inner ? 1.0 : 0.0) * wob * n * (1 + i + 0.5 * j);
        s.ControlPoints.Get(i, j) = Vec4{z.x(), z.y(), z.z(), weight(ws, i, j)};
    }
    return s;
}
static void aligned_case(Ctx& c, int p, int q, const Dv& U, const Dv& V, int ax, bool na, bool nb, double tilt, double la, const Vec3& o, int sty, double size)
{
    static const int A[6] = {0, 0, 1, 1, 2, 2}, B[6] = {1, 2, 0, 2, 0, 1};
    Vec3 a = Vec3::Zero(), b = Vec3::Zero(); int C = 3 - A[ax] - B[ax];
    a[A[ax]] = na ? -la : la; a[B[ax]] = tilt * la; a[C] = 0.2 * tilt * la; b[B[ax]] = nb ? -2.0 : 2.0; b[A[ax]] = -tilt; b[C] = 0.1 * tilt; a *= size; b *= size;
    Surface s = framed(p, q, U, V, o, a, b, sty == 0 ? 0 : sty == 1 ? 2 : 4, sty ? 0.05 * size : 0.0);
    c.state(hash(s)); c.log("%s", str(s).c_str());
    for (int ua = 0; ua < 3; ++ua) for (int va = 0; va < 3; ++va)
    {
        Surface g = run(c, s, ua, va);
        if (ua == va || !((A[ax] == ua && B[ax] == va) || (A[ax] == va && B[ax] == ua))) continue;
        int nu = g.ControlPoints.UCount, nv = g.ControlPoints.VCount; Vec3 s00 = g.ControlPoints.Values[0].head<3>(), s10 = g.ControlPoints.Values[nu - 1].head<3>(), s01 = g.ControlPoints.Values[(nv - 1) * nu].head<3>();
        Vec3 du = s10 - s00, dv = s01 - s00; int iu, iv; du.cwiseAbs().maxCoeff(&iu); dv.cwiseAbs().maxCoeff(&iv);
        MC_CHECK(c, iu == ua && du[ua] > 0, "%s aligned with axes %d,%d: u runs along %s", str(s).c_str(), ua, va, str(du).c_str());
        MC_CHECK(c, iv == va && dv[va] > 0, "%s aligned with axes %d,%d: v runs along %s", str(s).c_str(), ua, va, str(dv).c_str());
        Surface again = run(c, g, ua, va); MC_CHECK(c, equal(again, g), "%s: aligning an aligned surface changes it", str(s).c_str());
    }
}
static void aligned(Ctx& c)
{
    int p = c.range(1, c.thorough ? 3 : 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.2, 0.5}, c.thorough ? 2 : 1), V = knots(c, q, {0.35, 0.8}, c.thorough ? 2 : 1, 2);
    int ax = c.choose(6, "directions");
    bool na = c.flip("u backwards"), nb = c.flip("v backwards"); c.shard();
    double tilt = c.pick(Dv{0, 0.3, -0.45}, "tilt"), la = c.pick(Dv{1.0, 5.0}, "length"); Vec3 o = c.pick(std::vector<Vec3>{{0, 0, 0}, {10, -20, 30}}, "origin");
    int sty = c.choose(3, "weights");
    aligned_case(c, p, q, U, V, ax, na, nb, tilt, la, o, sty, 1.0);
}
static void aligned_steep(Ctx& c) // just closer to the requested axis than to the others
{
    int ax = c.choose(6, "directions"), dirs = c.choose(4, "orientation"); bool s = c.flip("spline"); double tilt = c.pick(Dv{0.6, 0.8, 0.9, 0.97, 0.999, -0.6, -0.8, -0.9, -0.97, -0.999}, "tilt"), la = c.pick(Dv{0.5, 1, 5}, "length"); int o = c.choose(2, "origin"); c.shard();
    aligned_case(c, 1 + s, 1, s ? Dv{0, 0, 0, 0.2, 1, 1, 1} : Dv{0, 0, 1, 1}, s ? Dv{0, 0, 0.6, 1, 1} : Dv{0, 0, 1, 1}, ax, dirs & 1, dirs & 2, tilt, la, o ? Vec3(10, -20, 5) : Vec3(0, 0, 0), 1, 1.0);
}
static void aligned_large(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3}, {9, 20}) + fam_high(5, 7), G = fam_large({1, 2}, {1, 4}); int f = c.choose((int)F.size(), "family member"), g = c.choose((int)G.size(), "other direction"); bool swap = c.flip("swap");
    int ax = c.choose(6, "directions"); int dirs = c.choose(4, "orientation"); c.shard(); auto &X = swap ? G[g] : F[f], &Y = swap ? F[f] : G[g];
    aligned_case(c, X.p, Y.p, X.U, Y.U, ax, dirs & 1, dirs & 2, 0.3, 3.0, Vec3(1, -2, 3), 1, 1.0);
}
static void aligned_sizes(Ctx& c)
{
    double size = c.pick(Dv{2e-5, 1e-3, 1.0, 1e4, 1e9}, "size"), la = c.pick(Dv{0.2, 2, 1e4}, "proportion"); int ax = c.choose(6, "directions"); int dirs = c.choose(4, "orientation"); int o = c.choose(2, "origin"); int p = c.range(1, 2, "degree-u"), q = c.range(1, 2, "degree-v"); c.shard();
    aligned_case(c, p, q, p == 1 ? Dv{0, 0, 0.2, 1, 1} : Dv{0, 0, 0, 1, 1, 1}, q == 1 ? Dv{0, 0, 1, 1} : Dv{0, 0, 0, 0.6, 1, 1, 1}, ax, dirs & 1, dirs & 2, 0.2, la, o ? Vec3(10 * size, -20 * size, 5 * size) : Vec3(0, 0, 0), 1, size);
}
// arbitrary surfaces, incl. triangles (a collapsed edge), points on a line and fully collapsed ones: still only a reparametrisation
static void arbitrary(Ctx& c)
{
    int p = c.range(1, 2, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.8}, 1, 2); int sty = c.choose(6, "points"), kind = c.choose(6, "collapse"); c.shard();
    Surface s = surface(p, q, U, V, sty, sty);
    int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    auto put = [&](int i, int j, int a, int b) { Vec4 w = s.ControlPoints.Get(a, b); w.w() = s.ControlPoints.Get(i, j).w(); s.ControlPoints.Get(i, j) = w; };
    if (kind == 1) for (int i = 0; i < nu; ++i) put(i, 0, 0, 0);
    if (kind == 2) for (int i = 0; i < nu; ++i) put(i, nv - 1, nu - 1, nv - 1);
    if (kind == 3) for (int j = 0; j < nv; ++j) put(0, j, 0, 0);
    if (kind == 4) for (int j = 0; j < nv; ++j) put(nu - 1, j, nu - 1, 0);
    if (kind == 5) for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i) put(i, j, 0, 0);
    c.state(hash(s)); c.log("%s", str(s).c_str());
    for (int ua = 0; ua < 3; ++ua) for (int va = 0; va < 3; ++va) run(c, s, ua, va);
}
// evenly spaced and nearly symmetric knots with every pattern of multiplicities
static void aligned_patterns(Ctx& c)
{
    int p = c.range(1, 3, "degree"), n = c.range(1, 3, "interior values"), grid = c.choose(3, "spacing"), vdir = c.choose(2, "direction"), ax = c.choose(2, "directions"), dirs = c.choose(4, "orientation"); c.shard();
    Dv U(p + 1, 0.0); for (int i = 1; i <= n; ++i) { int m = c.range(1, p, "multiplicity"); double x = (double)i / (n + 1); if (grid == 1 && i == 1) x += 3e-7; if (grid == 2 && i == n) x -= 1e-12; U.insert(U.end(), m, x); } U.insert(U.end(), p + 1, 1.0);
    Dv V{0, 0, 1.0 / 3, 1, 1}; int q = 1; if (vdir == 1) { std::swap(U, V); std::swap(p, q); }
    aligned_case(c, p, q, U, V, ax * 5, dirs & 1, dirs & 2, 0.3, 3.0, Vec3(1, -2, 3), 1, 1.0);
}
std::vector<mc::Body> mc::bodies() { return {{"aligned", aligned}, {"aligned_steep", aligned_steep}, {"aligned_large", aligned_large}, {"aligned_sizes", aligned_sizes}, {"aligned_patterns", aligned_patterns}, {"arbitrary", arbitrary}}; }
