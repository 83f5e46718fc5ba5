#include "gen.hpp"
#include <stdexcept>
using namespace gen;
using libnurbs::KnotVector;
const char* mc::PROPERTY = "C02";

static bool acceptable(const Dv& U)
{
    if (U.empty() || !(U.front() >= 0) || U.back() != 1) return false;
    for (size_t i = 0; i < U.size(); ++i) if (!(U[i] >= (i ? U[i - 1] : 0.0))) return false;
    return true;
}
static void construct(Ctx& c, const Dv& U);
static void from_values(Ctx& c)
{
    static const Dv val{0, 0.25, 0.5, 1, -0.5, 1.5, NAN};
    int len = c.range(0, c.thorough ? 7 : 6, "length");
    Dv U; for (int i = 0; i < len; ++i) { U.push_back(c.pick(val)); if (i == 1) c.shard(); }
    construct(c, U);
}
static void from_close_values(Ctx& c)
{
    static const Dv val{0, -1e-10, -1e-300, 1e-15, 0.5, std::nextafter(0.5, 0.0), std::nextafter(1.0, 0.0), 1 - 1e-10, 1, 1 + 1e-10, INFINITY};
    int len = c.range(0, c.thorough ? 6 : 5, "length");
    Dv U; for (int i = 0; i < len; ++i) { U.push_back(c.pick(val)); if (i == 1) c.shard(); }
    construct(c, U);
}
static void from_long(Ctx& c) // one defect at every position of a long vector
{
    static const std::vector<int> N{10, 17, 33, 65, 130}; int n = c.pick(N, "length"), at = c.choose(n + 1, "position"), what = c.choose(5, "defect"); c.shard();
    Dv U; for (int i = 0; i < n; ++i) U.push_back(i < 2 ? 0 : i >= n - 2 ? 1 : double(i - 1) / (n - 3 + 1));
    if (at < n) U[at] = what == 0 ? NAN : what == 1 ? (at ? U[at - 1] - 1e-9 : -1e-9) : what == 2 ? 2.0 : what == 3 ? -1.0 : U[at];
    construct(c, U);
}
static void construct(Ctx& c, const Dv& U)
{
    int len = (int)U.size();
    c.state(hash(U)); c.log("%s", str(U).c_str()); c.step();
    bool ok = acceptable(U), got = false;
    try { KnotVector k{U}; got = true; MC_CHECK(c, k.Values() == U && k.Count() == len, "constructed from %s, holds %s", str(U).c_str(), str(k.Values()).c_str());
          for (int i = 0; i < len; ++i) MC_CHECK(c, k[i] == U[i] && std::as_const(k)(i) == U[i], "element access %d of %s", i, str(U).c_str()); }
    catch (std::exception&) {}
    MC_CHECK(c, got == ok, "%s was %s", str(U).c_str(), got ? "accepted" : "refused");
    c.outcome(ok ? "accepted" : "refused");
}
static void from_pairs(Ctx& c)
{
    static const Dv val{0, 0.25, 0.6, 1, -0.5, 1.5, NAN};
    int n = c.range(0, c.thorough ? 5 : 4, "pairs");
    std::vector<KnotVector::KnotPair> pr; Dv U;
    for (int i = 0; i < n; ++i)
    {
        double v = c.pick(val); int m = c.range(0, n == 3 ? 5 : 3); if (m > 3) m = m == 4 ? 20 : 300; if (i == 0) c.shard();
        pr.emplace_back(-1, v, m); for (int k = 0; k < m; ++k) U.push_back(v);
    }
    c.state(hash(U)); c.log("pairs for %s", str(U).c_str()); c.step();
    bool ok = acceptable(U), got = false;
    try { KnotVector k{pr}; got = true; MC_CHECK(c, k.Values() == U, "constructed from pairs for %s, holds %s", str(U).c_str(), str(k.Values()).c_str()); }
    catch (std::exception&) {}
    MC_CHECK(c, got == ok, "pairs for %s were %s", str(U).c_str(), got ? "accepted" : "refused");
}
static void uniform(Ctx& c)
{
    int p = c.range(0, 12, "degree"), extra = c.choose(c.thorough ? 160 : 60, "interior"); if (extra >= (c.thorough ? 150 : 50)) { static const int X[] = {61, 62, 63, 64, 100, 127, 128, 200, 255, 500}; extra = X[extra % 10]; }
    c.shard();
    KnotVector k = KnotVector::Uniform(p, 2 * (p + 1) + extra); c.step();
    const Dv& U = k.Values(); c.state(hash(U, p)); c.log("Uniform(%d, %d) = %s", p, 2 * (p + 1) + extra, str(U).c_str());
    MC_CHECK(c, (int)U.size() == 2 * (p + 1) + extra, "Uniform(%d, %d) has %zu knots", p, 2 * (p + 1) + extra, U.size());
    for (int i = 0; i < (int)U.size(); ++i)
    {
        double want = i <= p ? 0 : i > p + extra ? 1 : double(i - p) / (extra + 1);
        bool end = i <= p || i > p + extra;
        MC_CHECK(c, end ? U[i] == want : std::fabs(U[i] - want) < 1e-12, "Uniform(%d, %d)[%d] = %.17g, expected %.17g", p, 2 * (p + 1) + extra, i, U[i], want);
    }
}
static void edits(Ctx& c)
{
    static const Dv vals{0.5, 0.25, 0.1, 0.75, 1e-9, 1 - 1e-9, 0.3};
    int p = c.range(1, 3, "degree");
    KnotVector k; bool lng = c.flip("long");
    if (lng) { static const auto F = fam_large({1, 2, 3}, {20, 40, 100}); std::vector<const Fam*> q; for (auto& f : F) if (f.p == p) q.push_back(&f); k.Values() = c.pick(q, "member")->U; }
    else k.Values() = knots(c, p, {0.25, 0.5, 0.7}, 2);
    c.clear_expanded();
    c.shard();
    Dv model = k.Values();
    int depth = lng ? 2 : c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        c.prune_if_seen(hash(k.Values()), depth - d);
        c.state(hash(k.Values()));
        int op = c.choose(3, "op(stop,insert,reverse)");
        if (op == 0) break;
        c.step();
        if (op == 1)
        {
            double v = c.pick(vals, "value"); int t = c.range(-1, lng ? 6 : 3, "times(-1: default)"); if (t > 3) t = t == 4 ? 9 : t == 5 ? 40 : 300;
            int want = (int)(std::upper_bound(model.begin(), model.end(), v) - model.begin()) - 1;
            int got = t < 0 ? k.InsertKnot(v) : k.InsertKnot(v, t);
            c.log("insert %.17g x%d into %s", v, t, str(model).c_str());
            MC_CHECK(c, got == want, "inserting %.17g into %s returned span %d, expected %d", v, str(model).c_str(), got, want);
            Dv before = model;
            model.insert(std::upper_bound(model.begin(), model.end(), v), t < 0 ? 1 : t, v);
            MC_CHECK(c, k.Values() == model, "inserting %.17g x%d into %s gave %s", v, t, str(before).c_str(), str(k.Values()).c_str());
        }
        else
        {
            Dv before = model; k.Reverse(); c.log("reverse %s", str(model).c_str());
            std::reverse(model.begin(), model.end()); for (double& x : model) x = 1.0 - x;
            bool ok = k.Values().size() == model.size();
            for (size_t i = 0; ok && i < model.size(); ++i) ok = std::fabs(model[i] - k.Values()[i]) <= 1e-15;
            MC_CHECK(c, ok, "reversing %s gave %s", str(before).c_str(), str(k.Values()).c_str());
            model = k.Values();
        }
        for (size_t i = 1; i < model.size(); ++i) MC_CHECK(c, model[i] >= model[i - 1], "knots out of order: %s", str(model).c_str());
        MC_CHECK(c, model.front() == 0 && model.back() == 1, "end knots moved: %s", str(model).c_str());
    }
}
std::vector<mc::Body> mc::bodies() { return {{"from_values", from_values}, {"from_pairs", from_pairs}, {"from_close_values", from_close_values}, {"from_long", from_long}, {"uniform", uniform}, {"edits", edits}}; }
