// The read-only operations, compiled with the library's instrumentation.
#include "C27_ops.hpp"
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <sstream>
#include <string>
using namespace libnurbs;
using Dv = std::vector<double>;
namespace
{
    void put(Dv& r, const Vec3& v) { for (int i = 0; i < 3; ++i) r.push_back(v[i]); }
    void put(Dv& r, const KnotVector& k) { r.push_back(k.Count()); for (int i = 0; i < k.Count(); ++i) r.push_back(k(i)); }
    void put(Dv& r, const Curve& k) { r.push_back(k.Degree); put(r, k.Knots); for (auto& p : k.ControlPoints) for (int i = 0; i < 4; ++i) r.push_back(p[i]); }
    void put(Dv& r, const Surface& k) { r.push_back(k.DegreeU); r.push_back(k.DegreeV); put(r, k.KnotsU); put(r, k.KnotsV); r.push_back(k.ControlPoints.UCount); r.push_back(k.ControlPoints.VCount); for (auto& p : k.ControlPoints.Values) for (int i = 0; i < 4; ++i) r.push_back(p[i]); }
    void put(Dv& r, const std::string& s) { r.push_back((double)s.size()); uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; r.push_back((double)(h >> 12)); }
    void knot_queries(Dv& r, const KnotVector& k, int p, double u)
    {
        r.push_back(k.Count()); r.push_back(k.IsValid()); r.push_back(k.IsClamped()); r.push_back(k.IsUniform()); r.push_back(k.DetectDegree());
        r.push_back(k.FindSpanIndex(p, u)); r.push_back(k.GetMultiplicity(u)); auto s = k.FindSpan(u); r.push_back(s.Left.Value); r.push_back(s.Right.Value);
        for (auto& x : k.GetKnotPairs()) { r.push_back(x.Index); r.push_back(x.Value); r.push_back(x.Multiplicity); }
    }
    void basis(Dv& r, const KnotVector& k, int p, double u)
    {
        auto a = BSplineBasis::Evaluate(p, k, u); for (int i = 0; i < a.size(); ++i) r.push_back(a[i]);
        auto b = BSplineBasis::EvaluateDerivative(p, k, u, 1); for (int i = 0; i < b.size(); ++i) r.push_back(b[i]);
        auto m = BSplineBasis::EvaluateAll(p, k, u, 2); for (int i = 0; i < m.size(); ++i) r.push_back(m.data()[i]);
    }
    const char* CN[] = {"Evaluate", "EvaluateDerivative", "EvaluateAll", "IsRational", "SearchParameter", "BinarySearchParameter", "InsertKnot", "InsertKnot(n)", "InsertKnot(list)", "RemoveKnot", "ElevateDegree", "Transform", "ExtractBezier", "GetBoundingBox", "SaveToFile", "knot queries", "basis functions", "LoadFromFile (own object)"};
    const char* SN[] = {"Evaluate", "EvaluateDerivative", "EvaluateAll", "IsRational", "SearchParameter", "SearchParameterOn", "BinarySearchParameterOn", "InsertKnotU", "InsertKnotV", "InsertKnotU/V(list)", "RemoveKnotU", "RemoveKnotV", "ElevateDegreeU", "ElevateDegreeV", "Transform", "AlignParameterDomain (copy)", "SaveToFile", "knot queries", "basis functions", "LoadFromFile (own object)"};
    struct Shared { Curve c; Surface s; };
    const double U[3] = {0.3, 0.45, 0.8}, V[3] = {0.7, 0.25, 0.5};
    Mat3x3 mat(int a) { Mat3x3 m; m << 0.1 + a, -0.7, 0.2, 3.3, 0.5 - a, -1.1, 0.9, 0.4, -2.2; return m; }
    void cop(Dv& r, const Curve& k, int op, int a)
    {
        double u = U[a]; Vec3 q(0.7 + a, 0.2, 0.1 * a);
        switch (op)
        {
        case 0: put(r, k.Evaluate(u)); break;
        case 1: put(r, k.EvaluateDerivative(u, 1 + a % 2)); break;
        case 2: for (auto& v : k.EvaluateAll(u, 2)) put(r, v); break;
        case 3: r.push_back(k.IsRational()); break;
        case 4: r.push_back(k.SearchParameter(q, u, 1e-8, 4)); break;
        case 5: r.push_back(k.BinarySearchParameter(q, 1e-8, 6)); break;
        case 6: put(r, k.InsertKnot(u)); break;
        case 7: put(r, k.InsertKnot(u, 2)); break;
        case 8: { Dv l{u, 0.62}; put(r, k.InsertKnot(l)); break; }
        case 9: { auto [g, t] = k.RemoveKnot(a == 1 ? 0.75 : 0.5, 1, 0.5); put(r, g); r.push_back(t); break; }
        case 10: put(r, k.ElevateDegree(1 + a % 2)); break;
        case 11: put(r, k.Transform(mat(a))); break;
        case 12: for (auto& s : k.ExtractBezier()) put(r, s); break;
        case 13: { auto b = k.GetBoundingBox(a ? 1e-2 : 1e-1); put(r, b.Min); put(r, b.Max); break; }
        case 14: { std::stringstream s; k.SaveToFile(s, a == 1); put(r, s.str()); break; }
        case 15: knot_queries(r, k.Knots, k.Degree, u); break;
        case 16: basis(r, k.Knots, k.Degree, u); break;
        default: { std::stringstream s; k.SaveToFile(s, a == 1); Curve g; g.LoadFromFile(s); put(r, g); }
        }
    }
    void sop(Dv& r, const Surface& k, int op, int a)
    {
        double u = U[a], v = V[a]; Vec3 q(0.7 + a, 0.2, 0.1 * a);
        switch (op)
        {
        case 0: put(r, k.Evaluate(u, v)); break;
        case 1: put(r, k.EvaluateDerivative(u, v, 1, a % 2)); break;
        case 2: { auto g = k.EvaluateAll(u, v, 2, 1); for (auto& x : g.Values) put(r, x); break; }
        case 3: r.push_back(k.IsRational()); break;
        case 4: { auto x = k.SearchParameter(q, u, v, 1e-8, 3); r.push_back(x.first); r.push_back(x.second); break; }
        case 5: { auto x = k.SearchParameterOn(q, a % 2, u, v, 1e-8, 3); r.push_back(x.first); r.push_back(x.second); break; }
        case 6: { auto x = k.BinarySearchParameterOn(q, a % 2, u, 1e-8, 4); r.push_back(x.first); r.push_back(x.second); break; }
        case 7: put(r, k.InsertKnotU(u)); break;
        case 8: put(r, k.InsertKnotV(v)); break;
        case 9: { Dv l{u, 0.62}; put(r, k.InsertKnotU(l)); put(r, k.InsertKnotV(l)); put(r, k.InsertKnotU(u, 2)); put(r, k.InsertKnotV(v, 2)); break; }
        case 10: { auto [g, t] = k.RemoveKnotU(0.5, 1, a ? 1e3 : 1e-9); put(r, g); r.push_back(t); break; }
        case 11: { auto [g, t] = k.RemoveKnotV(0.5, 1, a ? 1e3 : 1e-9); put(r, g); r.push_back(t); break; }
        case 12: put(r, k.ElevateDegreeU(1 + a % 2)); break;
        case 13: put(r, k.ElevateDegreeV(1 + a % 2)); break;
        case 14: put(r, k.Transform(mat(a))); break;
        case 15: { Surface m = k; put(r, m.AlignParameterDomain(a ? Surface::AlignAxis::YAxis : Surface::AlignAxis::XAxis, a == 2 ? Surface::AlignAxis::ZAxis : a ? Surface::AlignAxis::XAxis : Surface::AlignAxis::YAxis)); break; }
        case 16: { std::stringstream s; k.SaveToFile(s, a == 1); put(r, s.str()); break; }
        case 17: knot_queries(r, k.KnotsU, k.DegreeU, u); knot_queries(r, k.KnotsV, k.DegreeV, v); break;
        case 18: basis(r, k.KnotsU, k.DegreeU, u); basis(r, k.KnotsV, k.DegreeV, v); break;
        default: { std::stringstream s; k.SaveToFile(s, a == 1); Surface g; g.LoadFromFile(s); put(r, g); }
        }
    }
    KnotVector knots(int p, std::vector<double> in) { KnotVector k; auto& v = k.Values(); v.assign(p + 1, 0.0); v.insert(v.end(), in.begin(), in.end()); v.insert(v.end(), p + 1, 1.0); return k; }
    Vec4 pt(int i, int j, bool rat) { return Vec4(i + 0.3 * j, j - 0.2 * i + 0.1 * i * j, 0.5 * ((i * 7 + j * 3) % 5) - 0.4, rat ? 1 + 0.25 * ((i + 2 * j) % 4) : 1.0); }
}
int ops::count(bool surf) { return surf ? 20 : 18; }
const char* ops::name(bool surf, int op) { return surf ? SN[op] : CN[op]; }
void* ops::make(int variant)
{
    auto* s = new Shared; bool rat = variant == 0;
    s->c.Degree = rat ? 3 : 2; s->c.Knots = knots(s->c.Degree, rat ? std::vector<double>{0.5, 0.75} : std::vector<double>{0.5});
    for (int i = 0; i < s->c.Knots.Count() - s->c.Degree - 1; ++i) s->c.ControlPoints.push_back(pt(i, 1, rat));
    s->s.DegreeU = rat ? 2 : 1; s->s.DegreeV = 2; s->s.KnotsU = knots(s->s.DegreeU, {0.5}); s->s.KnotsV = knots(2, rat ? std::vector<double>{0.5} : std::vector<double>{0.4, 0.5});
    s->s.ControlPoints.UCount = s->s.KnotsU.Count() - s->s.DegreeU - 1; s->s.ControlPoints.VCount = s->s.KnotsV.Count() - s->s.DegreeV - 1;
    for (int j = 0; j < s->s.ControlPoints.VCount; ++j) for (int i = 0; i < s->s.ControlPoints.UCount; ++i) s->s.ControlPoints.Values.push_back(pt(i, j, rat));
    return s;
}
int ops::call(const void* sh, bool surf, int op, int arg, double* out, int cap)
{
    const Shared& s = *(const Shared*)sh; Dv r;
    try { if (surf) sop(r, s.s, op, arg); else cop(r, s.c, op, arg); }
    catch (std::exception&) { r.assign(1, -12345.0); }
    int n = (int)r.size() < cap ? (int)r.size() : cap;
    for (int i = 0; i < n; ++i) out[i] = r[i];
    return n;
}
