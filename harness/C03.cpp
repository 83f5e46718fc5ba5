#include "gen.hpp"
using namespace gen;
using libnurbs::KnotVector; using libnurbs::BSplineBasis; using libnurbs::VecX; using libnurbs::MatX;
const char* mc::PROPERTY = "C03";

static void at(Ctx& c, int p, const KnotVector& k, double u, int maxo)
{
    const Dv& U = k.Values();
    ref::Basis B; ref::basis(B, p, lift(U), u, maxo);
    const int span = B.first + p;
    VecX a = BSplineBasis::Evaluate(p, k, u), b = BSplineBasis::Evaluate(p, U, span, u); c.step(2);
    auto bad = [&](const char* what, int o, int i, double g, double w) { c.fail("%s: degree %d knots %s u=%.17g order %d function %d: got %.17g expected %.17g", what, p, str(U).c_str(), u, o, i, g, w); };
    MC_CHECK(c, a.size() == p + 1 && b.size() == p + 1, "degree %d: %d basis values", p, (int)a.size());
    double sum = 0;
    for (int i = 0; i <= p; ++i)
    {
        if (!(std::fabs(a[i] - (double)B.d[0][i]) <= 1e-12)) bad("basis value", 0, i, a[i], (double)B.d[0][i]);
        if (!(std::fabs(b[i] - (double)B.d[0][i]) <= 1e-12)) bad("basis value (by span)", 0, i, b[i], (double)B.d[0][i]);
        if (!(a[i] >= -1e-15)) bad("negative basis value", 0, i, a[i], (double)B.d[0][i]);
        sum += a[i];
    }
    MC_CHECK(c, std::fabs(sum - 1) <= 1e-12, "degree %d knots %s u=%.17g: basis sums to %.17g", p, str(U).c_str(), u, sum);
    for (int o = 0; o <= maxo; ++o)
    {
        MatX all = BSplineBasis::EvaluateAll(p, k, u, o), all2 = BSplineBasis::EvaluateAll(p, U, span, u, o);
        VecX d = BSplineBasis::EvaluateDerivative(p, k, u, o), d2 = BSplineBasis::EvaluateDerivative(p, U, span, u, o); c.step(4);
        MC_CHECK(c, all.rows() == o + 1 && all.cols() == p + 1 && all2.rows() == o + 1 && all2.cols() == p + 1 && d.size() == p + 1 && d2.size() == p + 1, "degree %d order %d: result has the wrong shape", p, o);
        for (int q = 0; q <= o; ++q)
        {
            double s = 0; for (int i = 0; i <= p; ++i) s = std::max(s, (double)std::fabs(B.d[q][i]));
            double tol = 1e-10 * s + 1e-13;
            for (int i = 0; i <= p; ++i)
            {
                double w = (double)B.d[q][i];
                if (!(std::fabs(all(q, i) - w) <= tol)) bad("derivative table", q, i, all(q, i), w);
                if (!(std::fabs(all2(q, i) - w) <= tol)) bad("derivative table (by span)", q, i, all2(q, i), w);
                if (q == o && !(std::fabs(d[i] - w) <= tol)) bad("derivative", q, i, d[i], w);
                if (q == o && !(std::fabs(d2[i] - w) <= tol)) bad("derivative (by span)", q, i, d2[i], w);
            }
        }
    }
}
static void body(Ctx& c)
{
    static const std::vector<Dv> grids{{0.25, 0.5, 0.75}, {0.1, 0.37, 0.625, 0.9}, {0.001, 0.5, 0.502, 0.999}};
    int p = c.range(1, c.thorough ? 7 : 6, "degree");
    const Dv& g = c.pick(grids, "grid");
    KnotVector k; k.Values() = knots(c, p, g, (c.thorough || p < 6) ? 3 : 2);
    c.shard();
    const Dv& U = k.Values(); c.state(hash(U, p)); c.log("degree %d knots %s", p, str(U).c_str());
    for (double u : params(U, 2)) at(c, p, k, u, p + 2);
}
static void high(Ctx& c) // single-span and simple-knot vectors of high degree
{
    int p = c.range(6, c.thorough ? 18 : 15, "degree"); int m = c.choose(4, "interior");
    c.shard();
    KnotVector k; Dv U(p + 1, 0.0); for (int i = 0; i < m; ++i) U.push_back((i + 1.0) / (m + 1) * 0.9); U.insert(U.end(), p + 1, 1.0); k.Values() = U;
    c.state(hash(U, p)); c.log("degree %d knots %s", p, str(U).c_str());
    for (double u : params(U, 3)) at(c, p, k, u, std::min(p + 2, ref::MAXD));
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {9, 17, 33, 65, 130, 257}) + fam_tight({1, 2, 3, 4, 5}, {1e-2, 1e-3, 1e-4, 1e-5, 3e-6, 2e-7, 1e-8, 1e-10});
    int i = c.choose((int)F.size(), "member"); c.shard();
    const Dv& U = F[i].U; int p = F[i].p; KnotVector k; k.Values() = U;
    c.state(hash(U, p)); c.log("degree %d knots %s", p, str(U).c_str());
    Dv us = U.size() < 40 ? params_fine(U, 2) : params(U, 1);
    size_t stride = std::max<size_t>(1, us.size() / 400);
    for (size_t j = 0; j < us.size(); j += stride) at(c, p, k, us[j], 2);
}
std::vector<mc::Body> mc::bodies() { return {{"knots", body}, {"high_degree", high}, {"families", families}}; }
