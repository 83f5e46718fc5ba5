// Every history runs in a process of its own, forked from a worker that never calls the library itself.
// The value expected of each call is what another such process returns for the same contents when it
// makes that call only.
#include "io.hpp"
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <map>
#include <sys/wait.h>
using namespace io;
const char* mc::PROPERTY = "C29";
using libnurbs::BSplineBasis;

struct Obj { bool surf = false; Curve c; Surface s; };
static std::string bytes(const Obj& o) { return o.surf ? encode(o.s) : encode(o.c); }
static std::string show(const Obj& o) { return o.surf ? str(o.s) : str(o.c); }

// ---- contents that are easily confused with each other ------------------------------------------
static Curve ccontent(int i)
{
    switch (i)
    {
    case 0: return curve(2, {0, 0, 0, 0.5, 1, 1, 1}, 0, 2);
    case 1: return curve(2, {0, 0, 0, 0.4, 1, 1, 1}, 0, 2);    // other knot value
    case 2: return curve(2, {0, 0, 0, 0.5, 1, 1, 1}, 5, 2);    // other points
    case 3: return curve(2, {0, 0, 0, 0.5, 1, 1, 1}, 0, 3);    // other weights
    case 4: return curve(3, {0, 0, 0, 0, 1, 1, 1, 1}, 0, 2);   // other degree, same number of points
    default: return curve(2, {0, 0, 0, 0.5, 0.5, 1, 1, 1}, 0, 0); // one more point, polynomial
    }
}
static Surface scontent(int i)
{
    switch (i)
    {
    case 0: return surface(2, 2, {0, 0, 0, 0.5, 1, 1, 1}, {0, 0, 0, 1, 1, 1}, 0, 2);
    case 1: return surface(2, 2, {0, 0, 0, 0.4, 1, 1, 1}, {0, 0, 0, 1, 1, 1}, 0, 2);
    case 2: return surface(2, 2, {0, 0, 0, 0.5, 1, 1, 1}, {0, 0, 0, 1, 1, 1}, 5, 2);
    case 3: return surface(2, 2, {0, 0, 0, 0.5, 1, 1, 1}, {0, 0, 0, 1, 1, 1}, 0, 3);
    case 4: return surface(3, 2, {0, 0, 0, 0, 1, 1, 1, 1}, {0, 0, 0, 1, 1, 1}, 0, 2);
    default: return surface(2, 2, {0, 0, 0, 1, 1, 1}, {0, 0, 0, 0.5, 1, 1, 1}, 0, 0); // transposed shape
    }
}
// Multiples of 2^-12: sums of them are exact, so that exchanging two points leaves every sum the same.
static Obj content(bool surf, int i)
{
    Obj o; o.surf = surf; if (surf) o.s = scontent(i); else o.c = ccontent(i);
    for (auto& p : surf ? o.s.ControlPoints.Values : o.c.ControlPoints) for (int d = 0; d < 4; ++d) p[d] = std::round(p[d] * 4096) / 4096;
    return o;
}

// Queries start and end with the same argument (0.45, which contents 0 and 1 put into different spans), so
// that something remembered from the last call of one query could answer the first call of the next.
// ---- operations -----------------------------------------------------------------------------------
static void put(Dv& r, const Vec3& v) { for (int i = 0; i < 3; ++i) r.push_back(v[i]); }
static void put(Dv& r, const Dv& v) { r.push_back(v.size()); r.insert(r.end(), v.begin(), v.end()); }
static void put(Dv& r, const Curve& c) { r.push_back(c.Degree); put(r, c.Knots.Values()); for (auto& p : c.ControlPoints) for (int i = 0; i < 4; ++i) r.push_back(p[i]); }
static void put(Dv& r, const Surface& c) { r.push_back(c.DegreeU); r.push_back(c.DegreeV); put(r, c.KnotsU.Values()); put(r, c.KnotsV.Values()); r.push_back(c.ControlPoints.UCount); r.push_back(c.ControlPoints.VCount); for (auto& p : c.ControlPoints.Values) for (int i = 0; i < 4; ++i) r.push_back(p[i]); }
static void put(Dv& r, const std::string& s) { r.push_back(s.size()); r.push_back((double)(std::hash<std::string>()(s) >> 12)); }
static libnurbs::Mat3x3 mat() { libnurbs::Mat3x3 m; m << 0.1, -0.7, 0.2, 3.3, 0.5, -1.1, 0.9, 0.4, -2.2; return m; }
static void knot_queries(Dv& r, const libnurbs::KnotVector& k, int p)
{
    r.push_back(k.Count()); r.push_back(k.IsValid()); r.push_back(k.IsClamped()); r.push_back(k.IsUniform()); r.push_back(k.DetectDegree());
    for (double u : {0.45, 0.0, 0.5, 0.9, 1.0, 0.45}) { r.push_back(k.FindSpanIndex(p, u)); r.push_back(k.GetMultiplicity(u)); auto s = k.FindSpan(u); r.push_back(s.Left.Value); r.push_back(s.Right.Value); }
    for (auto& x : k.GetKnotPairs()) { r.push_back(x.Index); r.push_back(x.Value); r.push_back(x.Multiplicity); }
}
static void basis_queries(Dv& r, const libnurbs::KnotVector& k, int p)
{
    for (double u : {0.45, 0.3, 0.8, 0.45})
    {
        auto a = BSplineBasis::Evaluate(p, k, u); for (int i = 0; i < a.size(); ++i) r.push_back(a[i]);
        auto b = BSplineBasis::EvaluateDerivative(p, k, u, 1); for (int i = 0; i < b.size(); ++i) r.push_back(b[i]);
        auto m = BSplineBasis::EvaluateAll(p, k, u, 2); for (int i = 0; i < m.size(); ++i) r.push_back(m.data()[i]);
    }
}
static const char* COPS[] = {"Evaluate", "EvaluateDerivative", "EvaluateAll", "IsRational", "SearchParameter", "BinarySearchParameter", "InsertKnot", "InsertKnot x2", "RemoveKnot", "ElevateDegree", "Transform", "ExtractBezier", "GetBoundingBox", "SaveToFile text", "SaveToFile binary", "LoadFromFile", "knot queries", "basis functions"};
constexpr int NC = 18;
static Dv cop(const Curve& k, int op)
{
    Dv r;
    switch (op)
    {
    case 0: for (double u : {0.45, 0.0, 0.3, 0.8, 1.0, 0.45}) put(r, k.Evaluate(u)); break;
    case 1: put(r, k.EvaluateDerivative(0.45, 1)); put(r, k.EvaluateDerivative(0.3, 1)); put(r, k.EvaluateDerivative(0.45, 2)); put(r, k.EvaluateDerivative(0.45, 1)); break;
    case 2: for (auto& v : k.EvaluateAll(0.45, 2)) put(r, v); break;
    case 3: r.push_back(k.IsRational()); break;
    case 4: r.push_back(k.SearchParameter(Vec3(0.7, 0.2, 0.1), 0.3, 1e-8, 6)); break;
    case 5: r.push_back(k.BinarySearchParameter(Vec3(0.7, 0.2, 0.1), 1e-8, 12)); break;
    case 6: put(r, k.InsertKnot(0.35)); break;
    case 7: { put(r, k.InsertKnot(0.35, 2)); Dv l{0.3, 0.7}; put(r, k.InsertKnot(l)); put(r, k.InsertKnot(0.35, 2)); break; }
    case 8: { auto [g, t] = k.RemoveKnot(0.5, 1, 0.5); put(r, g); r.push_back(t); break; }
    case 9: put(r, k.ElevateDegree(1)); break;
    case 10: put(r, k.Transform(mat())); break;
    case 11: for (auto& s : k.ExtractBezier()) put(r, s); break;
    case 12: { auto b = k.GetBoundingBox(1e-2); put(r, b.Min); put(r, b.Max); break; }
    case 13: { std::stringstream s; k.SaveToFile(s); put(r, s.str()); break; }
    case 14: { std::stringstream s; k.SaveToFile(s, true); put(r, s.str()); break; }
    case 15: { std::stringstream s(encode(k)); Curve g; g.LoadFromFile(s); put(r, g); std::stringstream t; k.SaveToFile(t); g.LoadFromFile(t); put(r, g); break; }
    case 16: knot_queries(r, k.Knots, k.Degree); break;
    default: basis_queries(r, k.Knots, k.Degree);
    }
    return r;
}
static const char* SOPS[] = {"Evaluate", "EvaluateDerivative", "EvaluateAll", "IsRational", "SearchParameter", "SearchParameterOn", "BinarySearchParameterOn", "InsertKnotU", "InsertKnotV", "InsertKnotU/V x2", "RemoveKnotU/V", "ElevateDegreeU", "ElevateDegreeV", "Transform", "AlignParameterDomain", "SaveToFile text", "SaveToFile binary", "LoadFromFile", "knot queries", "basis functions"};
constexpr int NS = 20;
static Dv sop(const Surface& k, int op)
{
    Dv r;
    switch (op)
    {
    case 0: put(r, k.Evaluate(0.45, 0.3)); for (double u : {0.0, 0.3, 0.45, 1.0}) for (double v : {0.0, 0.3, 0.8, 1.0}) put(r, k.Evaluate(u, v)); put(r, k.Evaluate(0.45, 0.3)); break;
    case 1: put(r, k.EvaluateDerivative(0.45, 0.3, 1, 0)); put(r, k.EvaluateDerivative(0.3, 0.45, 1, 1)); put(r, k.EvaluateDerivative(0.45, 0.3, 1, 1)); put(r, k.EvaluateDerivative(0.45, 0.3, 1, 0)); break;
    case 2: { auto g = k.EvaluateAll(0.45, 0.3, 2, 1); for (auto& v : g.Values) put(r, v); break; }
    case 3: r.push_back(k.IsRational()); break;
    case 4: { auto x = k.SearchParameter(Vec3(0.7, 0.2, 0.1), 0.3, 0.45, 1e-8, 4); r = {x.first, x.second}; break; }
    case 5: for (int d : {0, 1, 0}) { auto x = k.SearchParameterOn(Vec3(0.7, 0.2, 0.1), d, 0.3, 0.45, 1e-8, 4); r.push_back(x.first); r.push_back(x.second); } break;
    case 6: for (int d : {0, 1, 0}) { auto x = k.BinarySearchParameterOn(Vec3(0.7, 0.2, 0.1), d, 0.3, 1e-8, 8); r.push_back(x.first); r.push_back(x.second); } break;
    case 7: put(r, k.InsertKnotU(0.35)); break;
    case 8: put(r, k.InsertKnotV(0.35)); break;
    case 9: { put(r, k.InsertKnotU(0.35, 2)); Dv l{0.3, 0.7}; put(r, k.InsertKnotV(l)); put(r, k.InsertKnotU(0.35, 2)); break; }
    case 10: { for (int n = 0; n < 2; ++n) { auto [g, t] = k.RemoveKnotU(0.5, 1, 0.5); put(r, g); r.push_back(t); auto [h, t2] = k.RemoveKnotV(0.5, 1, 0.5); put(r, h); r.push_back(t2); } break; }
    case 11: put(r, k.ElevateDegreeU(1)); break;
    case 12: put(r, k.ElevateDegreeV(1)); break;
    case 13: put(r, k.Transform(mat())); break;
    case 14: { Surface m = k; put(r, m.AlignParameterDomain(Surface::AlignAxis::YAxis, Surface::AlignAxis::XAxis)); break; }
    case 15: { std::stringstream s; k.SaveToFile(s); put(r, s.str()); break; }
    case 16: { std::stringstream s; k.SaveToFile(s, true); put(r, s.str()); break; }
    case 17: { std::stringstream s(encode(k)); Surface g; g.LoadFromFile(s); put(r, g); std::stringstream t; k.SaveToFile(t); g.LoadFromFile(t); put(r, g); break; }
    case 18: knot_queries(r, k.KnotsU, k.DegreeU); knot_queries(r, k.KnotsV, k.DegreeV); knot_queries(r, k.KnotsU, k.DegreeU); break;
    default: basis_queries(r, k.KnotsU, k.DegreeU); basis_queries(r, k.KnotsV, k.DegreeV); basis_queries(r, k.KnotsU, k.DegreeU);
    }
    return r;
}
static Dv query(const Obj& o, int op) { try { return o.surf ? sop(o.s, op) : cop(o.c, op); } catch (std::exception&) { return {-12345.0}; } }
static const char* name(bool surf, int op) { return surf ? SOPS[op] : COPS[op]; }
// operations returning a new object
static Obj derive(const Obj& o, int d)
{
    Obj r; r.surf = o.surf;
    if (o.surf) r.s = d == 0 ? o.s.InsertKnotU(0.15) : d == 1 ? o.s.ElevateDegreeV(1) : d == 2 ? o.s.Transform(mat()) : std::get<0>(o.s.RemoveKnotU(0.5, 1, 1e-9));
    else r.c = d == 0 ? o.c.InsertKnot(0.15) : d == 1 ? o.c.ElevateDegree(1) : d == 2 ? o.c.Transform(mat()) : std::get<0>(o.c.RemoveKnot(0.5, 1, 1e-9));
    return r;
}
static void perturb(Obj& o, int what) // in place, nothing reallocated
{
    auto& P = o.surf ? o.s.ControlPoints.Values : o.c.ControlPoints; auto& K = o.surf ? o.s.KnotsU : o.c.Knots;
    if (what == 0) P[1].x() += 0.25; else if (what == 1) P[P.size() - 2].w() *= 1.5; else if (what == 3) std::swap(P[1], P[2]);
    else { auto& v = K.Values(); for (size_t i = 0; i < v.size(); ++i) if (v[i] > 0 && v[i] < 1) v[i] = v[i] * 0.9 + 0.02; }
}
static void set_in_place(Obj& o, const Obj& n) // same vectors, element by element where the sizes agree
{
    auto pts = [](std::vector<Vec4>& a, const std::vector<Vec4>& b) { if (a.size() == b.size()) for (size_t i = 0; i < a.size(); ++i) a[i] = b[i]; else a = b; };
    auto kn = [](libnurbs::KnotVector& a, const libnurbs::KnotVector& b) { if (a.Count() == b.Count()) for (int i = 0; i < a.Count(); ++i) a[i] = b(i); else a.Values() = b.Values(); };
    if (o.surf) { o.s.DegreeU = n.s.DegreeU; o.s.DegreeV = n.s.DegreeV; kn(o.s.KnotsU, n.s.KnotsU); kn(o.s.KnotsV, n.s.KnotsV); o.s.ControlPoints.UCount = n.s.ControlPoints.UCount; o.s.ControlPoints.VCount = n.s.ControlPoints.VCount; pts(o.s.ControlPoints.Values, n.s.ControlPoints.Values); }
    else { o.c.Degree = n.c.Degree; kn(o.c.Knots, n.c.Knots); pts(o.c.ControlPoints, n.c.ControlPoints); }
}

// ---- processes ------------------------------------------------------------------------------------
struct Record { std::string obj; bool surf; int op; Dv got; };
static void send(std::string& w, const std::string& s) { uint32_t n = (uint32_t)s.size(); w.append((char*)&n, 4); w += s; }
static std::string in_child(const std::function<std::string()>& f, std::string& died)
{
    int fd[2]; if (pipe(fd)) { perror("pipe"); std::_Exit(3); }
    pid_t pid = fork(); if (pid < 0) { perror("fork"); std::_Exit(3); }
    if (pid == 0) { close(fd[0]); std::string s = f(); s += "END!"; size_t o = 0; while (o < s.size()) { ssize_t n = write(fd[1], s.data() + o, s.size() - o); if (n <= 0) break; o += n; } _exit(0); }
    close(fd[1]); std::string r; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append(b, n);
    close(fd[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) died = "killed by signal " + std::to_string(WTERMSIG(st)); else if (WEXITSTATUS(st)) died = "exit status " + std::to_string(WEXITSTATUS(st));
    else if (r.size() < 4 || r.compare(r.size() - 4, 4, "END!")) died = "ended early";
    if (r.size() >= 4) r.resize(r.size() - 4);
    return r;
}
static std::string pack(const Dv& v) { return std::string((const char*)v.data(), v.size() * 8); }
static std::map<std::string, std::string> memo;
static const std::string& fresh_value(Ctx& c, const Obj& o, int op)
{
    std::string key = bytes(o) + "#" + std::to_string(op);
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::string died, r = in_child([&] { return pack(query(o, op)); }, died);
    MC_CHECK(c, died.empty(), "%s alone on %s: %s", name(o.surf, op), show(o).c_str(), died.c_str());
    return memo[key] = r;
}
static std::string brief(const std::string& s) { Dv v(s.size() / 8); std::memcpy(v.data(), s.data(), v.size() * 8); if (v.size() > 12) v.resize(12); return str(v); }

struct Action { int kind, slot, arg; std::string text; };
static std::vector<Action> alphabet(bool s0, bool s1, bool reduced)
{
    std::vector<Action> r; bool sf[2] = {s0, s1};
    for (int s = 0; s < 2; ++s)
    {
        for (int q = 0; q < (sf[s] ? NS : NC); ++q) r.push_back({0, s, q, std::string(name(sf[s], q)) + " on object " + std::to_string(s)});
        for (int i = 0; i < 6; ++i) { if (reduced && i >= 3) continue; r.push_back({1, s, i, "set object " + std::to_string(s) + " in place to content " + std::to_string(i)}); }
        for (int w = 0; w < 4; ++w) r.push_back({2, s, w, std::string(w == 3 ? "exchange in place " : "change in place ") + (w == 0 ? "a point" : w == 1 ? "a weight" : w == 2 ? "the knots" : "two points") + " of object " + std::to_string(s)});
        r.push_back({3, s, 1, "destroy object " + std::to_string(s) + ", build content 1 anew"});
    }
    if (s0 == s1)
    {
        r.push_back({4, 0, 0, "object 1 = object 0"}); r.push_back({4, 1, 0, "object 0 = object 1"});
        for (int d = 0; d < 4; ++d) r.push_back({5, 0, d, std::string("object 1 = object 0 after ") + (d == 0 ? "knot insertion" : d == 1 ? "degree elevation" : d == 2 ? "transform" : "knot removal")});
    }
    return r;
}
static void run(Ctx& c, bool s0, bool s1, const std::vector<const Action*>& seq)
{
    std::string died;
    std::string out = in_child([&] {
        std::string w; std::unique_ptr<Obj> o[2] = {std::make_unique<Obj>(content(s0, 0)), std::make_unique<Obj>(content(s1, 1))};
        for (size_t i = 0; i < seq.size(); ++i)
        {
            const Action& a = *seq[i]; std::string before[2] = {bytes(*o[0]), bytes(*o[1])}; int touched = a.kind == 0 ? -1 : a.kind == 4 || a.kind == 5 ? 1 - a.slot : a.slot;
            switch (a.kind)
            {
            case 0: { Dv r = query(*o[a.slot], a.arg); w += 'Q'; w += (char)a.slot; w += (char)a.arg; send(w, before[a.slot]); send(w, pack(r)); break; }
            case 1: set_in_place(*o[a.slot], content(o[a.slot]->surf, a.arg)); break;
            case 2: perturb(*o[a.slot], a.arg); break;
            case 3: { bool sf = o[a.slot]->surf; o[a.slot].reset(); o[a.slot] = std::make_unique<Obj>(content(sf, a.arg)); break; }
            case 4: *o[1 - a.slot] = *o[a.slot]; break;
            default: *o[1] = derive(*o[0], a.arg);
            }
            for (int s = 0; s < 2; ++s) if (s != touched && bytes(*o[s]) != before[s]) { w += 'X'; w += (char)s; w += (char)std::min<size_t>(i, 127); send(w, before[s]); send(w, bytes(*o[s])); }
            w += 'S'; w += (char)0; w += (char)0; send(w, bytes(*o[0])); send(w, bytes(*o[1]));
        }
        return w;
    }, died);
    std::string hist; for (size_t i = 0; i < seq.size(); ++i) { if (i == 8) { hist += "; ... " + std::to_string(seq.size()) + " actions"; break; } hist += (i ? "; " : "") + seq[i]->text; }
    MC_CHECK(c, died.empty(), "after {%s}: %s", hist.c_str(), died.c_str());
    c.step((long)seq.size());
    size_t p = 0; auto get = [&] { uint32_t n; std::memcpy(&n, &out[p], 4); p += 4; std::string s = out.substr(p, n); p += n; return s; };
    auto decode = [](const std::string& b) { // independent decoder of encode()
        Obj o; size_t nl = b.find('\n'), q = nl + 1; o.surf = b.find("SURFACE") < nl; auto i32 = [&] { int32_t v; std::memcpy(&v, &b[q], 4); q += 4; return v; }; auto f64 = [&] { double v; std::memcpy(&v, &b[q], 8); q += 8; return v; };
        auto kn = [&](Dv& k) { int n = i32(); for (int i = 0; i < n; ++i) k.push_back(f64()); };
        if (o.surf) { o.s.DegreeU = i32(); o.s.DegreeV = i32(); kn(o.s.KnotsU.Values()); kn(o.s.KnotsV.Values()); o.s.ControlPoints.UCount = i32(); o.s.ControlPoints.VCount = i32(); int n = o.s.ControlPoints.UCount * o.s.ControlPoints.VCount; for (int i = 0; i < n; ++i) { Vec4 v; for (int d = 0; d < 4; ++d) v[d] = f64(); o.s.ControlPoints.Values.push_back(v); } }
        else { o.c.Degree = i32(); kn(o.c.Knots.Values()); int n = i32(); for (int i = 0; i < n; ++i) { Vec4 v; for (int d = 0; d < 4; ++d) v[d] = f64(); o.c.ControlPoints.push_back(v); } }
        return o; };
    while (p < out.size())
    {
        char t = out[p]; int a = out[p + 1], b = out[p + 2]; p += 3; std::string x = get(), y = get();
        if (t == 'S') { c.state(mc::mix(std::hash<std::string>()(x), std::hash<std::string>()(y))); continue; }
        if (t == 'X') c.fail("in {%s}: action %d changed object %d from %s to %s", hist.c_str(), b, a, show(decode(x)).c_str(), show(decode(y)).c_str());
        Obj o = decode(x); const std::string& want = fresh_value(c, o, b);
        if (y != want) c.fail("in {%s}: %s on object %d (%s) returned %s, a fresh program returns %s", hist.c_str(), name(o.surf, b), a, show(o).c_str(), brief(y).c_str(), brief(want).c_str());
    }
}
static void history(Ctx& c, bool s0, bool s1, int depth)
{
    static std::map<int, std::vector<Action>> cache; auto& A = cache[s0 * 2 + s1]; if (A.empty()) A = alphabet(s0, s1, false);
    std::vector<const Action*> seq;
    for (int i = 0; i < depth; ++i)
    {
        int nq = 0; // the last action is a query
        std::vector<int> idx; for (size_t k = 0; k < A.size(); ++k) if (i + 1 < depth || A[k].kind == 0) idx.push_back((int)k), ++nq;
        seq.push_back(&A[idx[c.choose(nq, "action")]]); if (i == 0) c.shard(); c.log("%d: %s", i, seq.back()->text.c_str());
    }
    run(c, s0, s1, seq);
}
// long histories: two actions in turn, and walks through the whole alphabet with every stride
static void longer(Ctx& c)
{
    int kinds = c.choose(3, "kinds"); bool s0 = kinds == 1, s1 = kinds != 0; static std::map<int, std::vector<Action>> cache; auto& A = cache[kinds]; if (A.empty()) A = alphabet(s0, s1, false);
    int n = (int)A.size(); std::vector<const Action*> seq; std::vector<int> q; for (int i = 0; i < n; ++i) if (A[i].kind == 0) q.push_back(i);
    if (c.flip("walk"))
    {
        int stride = c.range(1, n - 1, "stride"); c.shard(); int start = c.choose(c.thorough ? 8 : 3, "start"); int at = start * 7 % n;
        for (int i = 0; i < 3 * n; ++i) { seq.push_back(&A[at]); at = (at + stride) % n; if (i % n == n - 1) at = (at + 1) % n; seq.push_back(&A[q[i % q.size()]]); }
    }
    else
    {
        int a = c.choose(n, "first"); c.shard(); int b = c.choose((int)q.size(), "second"), len = c.thorough ? 150 : 40;
        for (int i = 0; i < len; ++i) { seq.push_back(&A[a]); seq.push_back(&A[q[b]]); }
    }
    c.log("%zu actions: %s; %s; ...", seq.size(), seq[0]->text.c_str(), seq[1]->text.c_str());
    run(c, s0, s1, seq);
}
// the same call with many different arguments, forwards and backwards
static Dv argument(const Obj& o, int op, double u)
{
    Dv r; const auto& K = o.surf ? o.s.KnotsU : o.c.Knots; int p = o.surf ? o.s.DegreeU : o.c.Degree; double v = 1 - u * 0.7;
    switch (op)
    {
    case 0: put(r, o.surf ? o.s.Evaluate(u, v) : o.c.Evaluate(u)); break;
    case 1: put(r, o.surf ? o.s.EvaluateDerivative(u, v, 1, 1) : o.c.EvaluateDerivative(u, 1)); break;
    case 2: if (o.surf) { auto g = o.s.EvaluateAll(u, v, 1, 2); for (auto& x : g.Values) put(r, x); } else for (auto& x : o.c.EvaluateAll(u, 3)) put(r, x); break;
    case 3: { r.push_back(K.FindSpanIndex(p, u)); r.push_back(K.GetMultiplicity(u)); auto s = K.FindSpan(u); r.push_back(s.Left.Value); r.push_back(s.Right.Value); break; }
    case 4: { auto m = BSplineBasis::EvaluateAll(p, K, u, 2); for (int i = 0; i < m.size(); ++i) r.push_back(m.data()[i]); auto a = BSplineBasis::Evaluate(p, K, u); for (int i = 0; i < a.size(); ++i) r.push_back(a[i]); break; }
    case 5: if (o.surf) { auto x = o.s.SearchParameter(Vec3(u, 0.2, 0.1), u, v, 1e-8, 3); r = {x.first, x.second}; } else r = {o.c.SearchParameter(Vec3(u, 0.2, 0.1), u, 1e-8, 3), o.c.BinarySearchParameter(Vec3(u, 0.2, 0.1), 1e-8, 5)}; break;
    case 6: if (u > 0 && u < 1) { if (o.surf) put(r, o.s.InsertKnotU(u)); else put(r, o.c.InsertKnot(u)); } break;
    case 7: if (o.surf) for (int d = 0; d < 2; ++d) { auto x = o.s.SearchParameterOn(Vec3(u, 0.2, 0.1), d, u, v, 1e-8, 3); r.push_back(x.first); r.push_back(x.second); } else { auto b = o.c.GetBoundingBox(1e-3 + u); put(r, b.Min); put(r, b.Max); } break;
    default: { Obj t = o; (t.surf ? t.s.ControlPoints.Values[0] : t.c.ControlPoints[0])[1] = u; if (o.surf) { put(r, t.s.Transform(mat())); put(r, t.s.ElevateDegreeU(1)); } else { put(r, t.c.Transform(mat())); put(r, t.c.ElevateDegree(1)); } }
    }
    return r;
}
static void arguments(Ctx& c)
{
    static const char* N[] = {"evaluation", "derivatives", "EvaluateAll", "knot queries", "basis functions", "searches", "insertion", "bounding box or isoparametric search", "transform and elevation"};
    bool surf = c.flip("surface"); int k = c.choose(c.thorough ? 6 : 3, "content"), op = c.choose(9, "operation"); c.shard();
    int n = c.thorough ? 1025 : 257; Obj o = content(surf, k); c.state(mc::mix(std::hash<std::string>()(bytes(o)), op)); c.log("%s of %s with %d arguments", N[op], show(o).c_str(), n);
    auto arg = [&](int i) { return (i * 97 % n) / (n - 1.0); };
    std::string died, out = in_child([&] { std::string w; for (int i = 0; i < 2 * n; ++i) send(w, pack(argument(o, op, arg(i < n ? i : 2 * n - 1 - i)))); return w; }, died);
    MC_CHECK(c, died.empty(), "%s of %s with %d arguments: %s", N[op], show(o).c_str(), n, died.c_str());
    std::vector<std::string> got; for (size_t p = 0; p < out.size();) { uint32_t m; std::memcpy(&m, &out[p], 4); p += 4; got.push_back(out.substr(p, m)); p += m; }
    for (int i = 0; i < n; ++i)
    {
        std::string d2, want = in_child([&] { return pack(argument(o, op, arg(i))); }, d2); c.step(3);
        MC_CHECK(c, d2.empty(), "%s of %s: %s", N[op], show(o).c_str(), d2.c_str());
        for (int pass = 0; pass < 2; ++pass) { const std::string& y = got[pass ? 2 * n - 1 - i : i]; if (y != want) c.fail("%s of %s for %.17g, after %d calls with other arguments, returned %s, a fresh program returns %s", N[op], show(o).c_str(), arg(i), pass ? 2 * n - 1 - i : i, brief(y).c_str(), brief(want).c_str()); }
    }
}
static void cc(Ctx& c) { history(c, false, false, c.thorough ? 4 : 3); }
static void ss(Ctx& c) { history(c, true, true, c.thorough ? 4 : 3); }
static void cs(Ctx& c) { history(c, false, true, 3); }
std::vector<mc::Body> mc::bodies() { return {{"curve_and_curve", cc}, {"surface_and_surface", ss}, {"curve_and_surface", cs}, {"longer", longer}, {"arguments", arguments}}; }
