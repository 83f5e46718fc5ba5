#include "io.hpp"
#include <map>
using namespace io;
const char* mc::PROPERTY = "C30";

// independent reader of the text form, strict about what the format says and about nothing else
struct Doc { std::string header; std::map<std::string, std::vector<std::string>> sec; std::string err; };
static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static Doc parse(const std::string& text)
{
    Doc d; size_t p = 0; std::string key; bool first = true;
    while (p < text.size())
    {
        size_t e = text.find('\n', p); if (e == std::string::npos) { d.err = "last line not ended"; e = text.size(); }
        std::string l = trim(text.substr(p, e - p)); p = e + 1;
        if (first) { d.header = l; first = false; continue; }
        if (l.empty()) continue;
        if (l[0] == '*') { size_t c = l.find(':'); if (c == std::string::npos) { d.err = "section line without colon"; return d; } key = trim(l.substr(1, c - 1)); if (d.sec.count(key)) { d.err = "section twice: " + key; return d; } d.sec[key]; l = trim(l.substr(c + 1)); if (l.empty()) continue; }
        if (key.empty()) { d.err = "content before the first section"; return d; }
        d.sec[key].push_back(l);
    }
    return d;
}
static bool number(const std::string& s, double& v) { char* e; if (s.empty()) return false; v = strtod(s.c_str(), &e); return *e == 0; }
static bool integer(const std::string& s, int& v) { char* e; if (s.empty()) return false; long x = strtol(s.c_str(), &e, 10); v = (int)x; return *e == 0; }
static std::vector<std::string> split(const std::string& s, const char* sep) { std::vector<std::string> r; size_t i = 0; while (true) { size_t a = s.find_first_not_of(sep, i); if (a == std::string::npos) break; size_t b = s.find_first_of(sep, a); if (b == std::string::npos) b = s.size(); r.push_back(s.substr(a, b - a)); i = b; } return r; }
static std::string read_knots(const Doc& d, const char* key, Dv& k)
{
    auto it = d.sec.find(key); if (it == d.sec.end()) return std::string("no section ") + key;
    std::string all; for (auto& l : it->second) all += l + ",";
    size_t p = 0; std::vector<std::string> toks; while (p < all.size()) { size_t e = all.find(',', p); if (e == std::string::npos) break; std::string t = trim(all.substr(p, e - p)); if (!t.empty()) toks.push_back(t); p = e + 1; }
    for (auto& t : toks) { double v; if (!number(t, v)) return std::string("knot '") + t + "' in " + key; k.push_back(v); }
    return "";
}
static std::string read_point(std::string l, Vec4& p)
{
    if (!l.empty() && l.back() == ',') l.pop_back();
    auto w = split(l, " \t"); if (w.size() != 4) return "point line '" + l + "'";
    for (int i = 0; i < 4; ++i) if (!number(w[i], p[i])) return "number '" + w[i] + "'";
    return "";
}
static std::string read_int(const Doc& d, const char* key, int& v) { auto it = d.sec.find(key); if (it == d.sec.end()) return std::string("no section ") + key; if (it->second.size() != 1 || !integer(it->second[0], v)) return std::string("value of ") + key; return ""; }
#define TRY(x) do { std::string e = (x); if (!e.empty()) return e; } while (0)
static std::string read(const std::string& text, Curve& k)
{
    Doc d = parse(text); if (!d.err.empty()) return d.err; if (d.header != "LIBNURBS TXT CURVE") return "header '" + d.header + "'"; if (d.sec.size() != 3) return "number of sections";
    TRY(read_int(d, "Degree", k.Degree)); TRY(read_knots(d, "Knots", k.Knots.Values())); if (!d.sec.count("ControlPoints")) return "no section ControlPoints";
    for (auto& l : d.sec["ControlPoints"]) { Vec4 p; TRY(read_point(l, p)); k.ControlPoints.push_back(p); }
    return "";
}
static std::string read(const std::string& text, Surface& k)
{
    Doc d = parse(text); if (!d.err.empty()) return d.err; if (d.header != "LIBNURBS TXT SURFACE") return "header '" + d.header + "'"; if (d.sec.size() != 5) return "number of sections";
    TRY(read_int(d, "DegreeU", k.DegreeU)); TRY(read_int(d, "DegreeV", k.DegreeV)); TRY(read_knots(d, "KnotsU", k.KnotsU.Values())); TRY(read_knots(d, "KnotsV", k.KnotsV.Values())); if (!d.sec.count("ControlPoints")) return "no section ControlPoints";
    auto& L = d.sec["ControlPoints"]; if (L.empty()) return "no dimensions"; auto w = split(L[0], " \t"); if (w.size() != 2 || !integer(w[0], k.ControlPoints.UCount) || !integer(w[1], k.ControlPoints.VCount)) return "dimensions '" + L[0] + "'";
    for (size_t i = 1; i < L.size(); ++i) { Vec4 p; TRY(read_point(L[i], p)); k.ControlPoints.Values.push_back(p); }
    return "";
}
static std::string text_of(const Curve& k) { std::string s = "LIBNURBS TXT CURVE\n*Degree: " + std::to_string(k.Degree) + "\n*Knots:\n" + list(k.Knots.Values()) + "\n*ControlPoints:\n"; for (auto& p : k.ControlPoints) s += io::point(p) + ",\n"; return s; }
static std::string text_of(const Surface& k)
{
    std::string s = "LIBNURBS TXT SURFACE\n*DegreeU: " + std::to_string(k.DegreeU) + "\n*DegreeV: " + std::to_string(k.DegreeV) + "\n*KnotsU:\n" + list(k.KnotsU.Values()) + "\n*KnotsV:\n" + list(k.KnotsV.Values()) + "\n*ControlPoints:\n" + std::to_string(k.ControlPoints.UCount) + " " + std::to_string(k.ControlPoints.VCount) + "\n";
    for (auto& p : k.ControlPoints.Values) s += io::point(p) + "\n"; return s;
}
static std::string slurp(const std::string& path) { std::ifstream f(path, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
template <class T> void formats(Ctx& c, const T& k)
{
    c.state(hash(k)); c.log("%s", str(k).c_str()); std::string want = encode(k), path = scratch() + "/f";
    for (int file = 0; file < 2; ++file)
    {
        std::string got;
        if (file) { std::ofstream(path, std::ios::binary) << std::string(want.size() + 500, 'z'); k.SaveToFile(path, true); got = slurp(path); } else { std::stringstream s; k.SaveToFile(s, true); got = s.str(); } c.step();
        MC_CHECK(c, got == want, "binary form of %s is %zu bytes %s, expected %zu bytes %s", str(k).c_str(), got.size(), hex(got).c_str(), want.size(), hex(want).c_str());
        T g; if (file) { std::ofstream(path, std::ios::binary) << want; g.LoadFromFile(path); } else { std::stringstream s(want); g.LoadFromFile(s); } c.step();
        MC_CHECK(c, bits(g, k), "binary file of %s loads as %s", str(k).c_str(), str(g).c_str());
        if (file) { std::ofstream(path, std::ios::binary) << std::string(3 * want.size() + 500, 'z'); k.SaveToFile(path); got = slurp(path); } else { std::stringstream s; k.SaveToFile(s); got = s.str(); } c.step();
        T r; std::string e = read(got, r); MC_CHECK(c, e.empty(), "text form of %s is not the documented one (%s):\n%s", str(k).c_str(), e.c_str(), hex(got, 1500).c_str());
        MC_CHECK(c, bits(r, k), "text form of %s describes %s", str(k).c_str(), str(r).c_str());
        T h; std::string doc = text_of(k); if (file) { std::ofstream(path, std::ios::binary) << doc; h.LoadFromFile(path); } else { std::stringstream s(doc); h.LoadFromFile(s); } c.step();
        MC_CHECK(c, bits(h, k), "text file of %s loads as %s", str(k).c_str(), str(h).c_str());
    }
}
static void curves(Ctx& c)
{
    int p = c.range(1, c.thorough ? 5 : 4, "degree"); Dv U = knots(c, p, {0.1, 1.0 / 3, 0.625}, 2); int s = c.choose(6, "points"), w = c.choose(7, "weights"); c.shard();
    formats(c, curve(p, U, s, w));
}
static void surfaces(Ctx& c)
{
    int p = c.range(1, c.thorough ? 4 : 3, "degree-u"), q = c.range(1, 3, "degree-v"); Dv U = knots(c, p, {0.1, 1.0 / 3}, 2), V = knots(c, q, {0.6}, 1); int s = c.choose(6, "points"); c.shard();
    formats(c, surface(p, q, U, V, s, s));
}
static void values(Ctx& c)
{
    bool surf = c.flip("surface"); double v = c.pick(nasty(), "value"); int d = c.choose(4, "coordinate"); int at = c.choose(4, "point"); c.shard();
    if (surf) { Surface k = surface(1, 2, {0, 0, 1, 1}, {0, 0, 0, 0.3, 1, 1, 1}, 0, 2); k.ControlPoints.Values[at * 2][d] = v; formats(c, k); }
    else { Curve k = curve(2, {0, 0, 0, 1.0 / 3, 1, 1, 1}, 0, 2); k.ControlPoints[at][d] = v; formats(c, k); }
}
// counts that need more than one byte
static void sizes(Ctx& c)
{
    static const std::vector<int> N{2, 127, 128, 255, 256, 257, 300, 1000}; int n = c.pick(N, "points"); int kind = c.choose(4, "kind"); c.shard();
    if (kind == 3) { Fam f = huge(1, n), g = huge(2, 1000 / n + 1); formats(c, surface(1, 2, f.U, g.U, 5, 2)); formats(c, surface(2, 1, g.U, f.U, 5, 2)); return; }
    Dv U{0, 0}; for (int i = 1; i < n - 1; ++i) U.push_back((double)i / (n - 1)); U.push_back(1); U.push_back(1);
    if (kind == 0) formats(c, curve(1, U, 0, 2)); else if (kind == 1) formats(c, surface(1, 1, U, {0, 0, 1, 1}, 0, 2)); else formats(c, surface(1, 1, {0, 0, 0.5, 1, 1}, U, 0, 2));
}
static void families(Ctx& c)
{
    static const auto F = fam_large({1, 2, 3, 5}, {10, 33}) + fam_tight({1, 2, 3}, {1e-7, 1e-12}) + fam_high(6, 12), G = fam_large({1, 2}, {1, 3, 12}) + fam_high(5, 5);
    int kind = c.choose(3, "kind"), f = c.choose((int)F.size(), "family member"), g = kind ? c.choose((int)G.size(), "other direction") : 0; static const std::pair<int, int> sty[] = {{0, 2}, {6, 10}, {7, 9}, {3, 8}, {4, 11}}; auto [s, w] = sty[c.choose(kind ? 2 : 5, "style")]; c.shard();
    if (kind == 0) formats(c, curve(F[f].p, F[f].U, s, w)); else if (kind == 1) formats(c, surface(G[g].p, F[f].p, G[g].U, F[f].U, s, w)); else formats(c, surface(F[f].p, G[g].p, F[f].U, G[g].U, s, w));
}
std::vector<mc::Body> mc::bodies() { return {{"curves", curves}, {"surfaces", surfaces}, {"values", values}, {"sizes", sizes}, {"families", families}}; }
