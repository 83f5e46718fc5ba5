#include "gen.hpp"
#include <stdexcept>
using namespace gen;
using libnurbs::KnotVector;
const char* mc::PROPERTY = "C01";

static void pairs_ok(Ctx& c, const KnotVector& k)
{
    const Dv& U = k.Values();
    auto pr = k.GetKnotPairs(); c.step();
    size_t pos = 0;
    for (auto& q : pr)
    {
        MC_CHECK(c, pos < U.size(), "knot pairs of %s: too many entries", str(U).c_str());
        size_t e = pos; while (e < U.size() && U[e] == U[pos]) ++e;
        MC_CHECK(c, q.Value == U[pos] && q.Multiplicity == (int)(e - pos), "knot pairs of %s: entry (%g x%d), expected (%g x%d)", str(U).c_str(), q.Value, q.Multiplicity, U[pos], (int)(e - pos));
        MC_CHECK(c, q.Index == (int)pos, "knot pairs of %s: value %g first occurs at %zu, reported index %d", str(U).c_str(), q.Value, pos, q.Index);
        pos = e;
    }
    MC_CHECK(c, pos == U.size(), "knot pairs of %s: entries missing", str(U).c_str());
}
static void mult_ok(Ctx& c, const KnotVector& k)
{
    const Dv& U = k.Values();
    Dv q{0.0, 1.0, 0.3, 0.123, 0.777, -0.5, 1.5};
    for (double x : U) for (double d : {0.0, 1e-12, -1e-12, 3e-7, -3e-7, 9.5e-7, -9.5e-7, 1.05e-6, -1.05e-6, 4e-6, -4e-6, 1e-4, -1e-4}) q.push_back(x + d);
    for (double x : q)
    {
        int want = 0; for (double y : U) want += std::fabs(x - y) < 1e-6;
        int got = k.GetMultiplicity(x); c.step();
        MC_CHECK(c, got == want, "multiplicity of %.17g in %s is %d, reported %d", x, str(U).c_str(), want, got);
    }
}
static void shape_ok(Ctx& c, const KnotVector& k)
{
    const Dv& U = k.Values();
    int a = 0, b = 0;
    while (a < (int)U.size() && U[a] == 0) ++a;
    while (b < (int)U.size() && U[U.size() - 1 - b] == 1) ++b;
    c.step(3);
    if (a != b || (a >= 2 && U.front() == 0 && U.back() == 1))
        MC_CHECK(c, k.IsClamped() == (a == b), "%s: %d leading 0 and %d trailing 1, reported %sclamped", str(U).c_str(), a, b, k.IsClamped() ? "" : "not ");
    bool uni = true; double gap = 0;
    for (size_t i = 1; i < U.size(); ++i) { double g = U[i] - U[i - 1]; if (g == 0) continue; if (gap == 0) gap = g; else if (std::fabs(g - gap) > 1e-6) uni = false; }
    MC_CHECK(c, k.IsUniform() == uni, "%s: reported %suniform", str(U).c_str(), uni ? "not " : "");
    if (a >= 1 && a < (int)U.size()) MC_CHECK(c, k.DetectDegree() == a - 1, "%s: %d leading zeros, detected degree %d", str(U).c_str(), a, k.DetectDegree());
}

static void check_clamped(Ctx& c, int p, const KnotVector& k, bool fine);
static void clamped(Ctx& c)
{
    static const std::vector<Dv> grids{{0.25, 0.5, 0.75}, {0.1, 0.37, 0.625, 0.9}, {0.2, 0.4, 0.6, 0.8}, {1e-4, 0.4999, 0.5, 0.5001, 0.9999}, {1e-300, 1e-15, 0.5, std::nextafter(0.5, 1.0), 1 - 4e-16, std::nextafter(1.0, 0.0)}};
    int p = c.range(1, c.thorough ? 6 : 5, "degree");
    const Dv& g = c.pick(grids, "grid");
    c.shard();
    KnotVector k; k.Values() = knots(c, p, g, c.thorough ? 4 : 3);
    check_clamped(c, p, k, false);
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5, 8}, {9, 16, 17, 32, 33, 64, 65, 128, 130, 257}) + fam_tight({1, 2, 3, 4}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 2e-7, 1e-8, 3e-10, 1e-12, 1e-15}) + fam_high(6, 20);
    int i = c.choose((int)F.size(), "member"); c.shard();
    KnotVector k; k.Values() = F[i].U;
    check_clamped(c, F[i].p, k, F[i].U.size() < 60 || i % 3 == 0);
}
static void check_clamped(Ctx& c, int p, const KnotVector& k, bool fine)
{
    const Dv& U = k.Values();
    c.state(hash(U, p));
    c.log("degree %d knots %s", p, str(U).c_str());
    int m = (int)U.size() - 1, n = m - p - 1;
    auto pr = interior(U); pr.insert(pr.begin(), {0.0, p + 1}); pr.push_back({1.0, p + 1});
    for (double u : fine ? params_fine(U, 3) : params(U, 3))
    {
        int i = k.FindSpanIndex(p, u); c.step();
        MC_CHECK(c, i >= p && i <= n, "span index of %.17g in %s (degree %d) is %d", u, str(U).c_str(), p, i);
        bool in = u == 1.0 ? (i == n) : (U[i] <= u && u < U[i + 1]);
        MC_CHECK(c, in, "span index of %.17g in %s (degree %d) is %d: [%.17g, %.17g)", u, str(U).c_str(), p, i, U[i], U[i + 1]);
        auto s = k.FindSpan(u); c.step();
        int j = (int)pr.size() - 2; while (pr[j].first > u) --j;
        MC_CHECK(c, s.Index == j && s.Left.Value == pr[j].first && s.Right.Value == pr[j + 1].first && s.Left.Multiplicity == pr[j].second && s.Right.Multiplicity == pr[j + 1].second,
                 "span of %.17g in %s: reported #%d [%g x%d, %g x%d], expected #%d [%g x%d, %g x%d]", u, str(U).c_str(), s.Index, s.Left.Value, s.Left.Multiplicity, s.Right.Value, s.Right.Multiplicity, j, pr[j].first, pr[j].second, pr[j + 1].first, pr[j + 1].second);
    }
    MC_CHECK(c, k.IsValid(), "%s reported invalid", str(U).c_str());
    MC_CHECK(c, k.Count() == (int)U.size(), "%s: Count() %d", str(U).c_str(), k.Count());
    MC_CHECK(c, k.IsClamped(), "%s reported not clamped", str(U).c_str());
    shape_ok(c, k); pairs_ok(c, k); mult_ok(c, k);
}

static void monotone(Ctx& c)
{
    static const Dv val{0, 0.25, 0.5, 0.8, 1};
    int len = c.range(1, c.thorough ? 12 : 10, "length");
    Dv U; int lo = 0;
    for (int i = 0; i < len; ++i) { lo = c.range(lo, 4); U.push_back(val[lo]); if (i == 1) c.shard(); }
    KnotVector k; k.Values() = U;
    c.state(hash(U)); c.log("%s", str(U).c_str());
    pairs_ok(c, k); mult_ok(c, k); shape_ok(c, k);
    bool all0 = true; for (double x : U) all0 &= x == 0;
    if (all0) { bool th = false; try { (void)k.DetectDegree(); } catch (std::exception&) { th = true; } MC_CHECK(c, th, "degree of %s detected instead of refused", str(U).c_str()); }
}
// values that differ from 0, 1 and one another by little
static void close(Ctx& c)
{
    static const Dv val{0, 1e-15, 1e-7, 0.5, std::nextafter(0.5, 1.0), 0.5 + 1e-9, 1 - 1e-7, std::nextafter(1.0, 0.0), 1};
    int len = c.range(1, c.thorough ? 8 : 7, "length");
    Dv U; int lo = 0;
    for (int i = 0; i < len; ++i) { lo = c.range(lo, (int)val.size() - 1); U.push_back(val[lo]); if (i == 1) c.shard(); }
    KnotVector k; k.Values() = U;
    c.state(hash(U)); c.log("%s", str(U).c_str());
    pairs_ok(c, k); shape_ok(c, k); c.step();
    MC_CHECK(c, k.IsValid() == (len >= 4 && U.front() == 0 && U.back() == 1), "%s reported %svalid", str(U).c_str(), k.IsValid() ? "" : "in");
}
// gaps that grow or shrink little by little
static void gradual(Ctx& c)
{
    static const Dv D{0, 1e-12, 4.3e-7, 9e-7, 3e-6, 1e-4, 1e-3}; int n = c.range(2, 40, "spans"), p = c.choose(4, "degree"), mult = c.range(1, 2, "multiplicity"); double d = c.pick(D, "growth"); if (c.flip("shrinking")) d = -d; c.shard();
    double g = (1 - d * n * (n - 1) / 2) / n; if (g <= 0 || g + d * (n - 1) <= 1e-6) return; if (std::fabs(std::fabs(d) - 1e-6 / std::max(1, n - 1)) < 1e-9) return;
    Dv U(p + 1, 0.0); double t = 0; for (int i = 0; i + 1 < n; ++i) { t += g + d * i; U.insert(U.end(), mult, t); } U.insert(U.end(), p + 1, 1.0);
    KnotVector k; k.Values() = U; c.state(hash(U)); c.log("%s", str(U).c_str()); shape_ok(c, k); pairs_ok(c, k); c.step();
}
static void arbitrary(Ctx& c)
{
    static const Dv val{0, 0.5, 1, -0.25, 1.5, NAN};
    int len = c.range(0, c.thorough ? 7 : 6, "length");
    Dv U; for (int i = 0; i < len; ++i) { U.push_back(c.pick(val)); if (i == 1) c.shard(); }
    KnotVector k; k.Values() = U; c.state(hash(U)); c.log("%s", str(U).c_str());
    bool ok = len >= 4 && U.front() == 0 && U.back() == 1;
    for (size_t i = 1; i < U.size(); ++i) ok &= U[i] >= U[i - 1];
    c.step();
    MC_CHECK(c, k.IsValid() == ok, "%s reported %svalid", str(U).c_str(), ok ? "in" : "");
    size_t a = 0, b = 0; while (a < U.size() && U[a] == 0) ++a; while (b < U.size() && U[U.size() - 1 - b] == 1) ++b;
    bool cl = k.IsClamped(); if (a != b) MC_CHECK(c, !cl, "%s: %zu leading 0 and %zu trailing 1, reported clamped", str(U).c_str(), a, b);
    c.outcome(ok ? "valid" : "invalid");
}
std::vector<mc::Body> mc::bodies() { return {{"clamped", clamped}, {"monotone", monotone}, {"arbitrary", arbitrary}, {"families", families}, {"close", close}, {"gradual", gradual}}; }
