#include "io.hpp"
#include <algorithm>
using namespace io;
const char* mc::PROPERTY = "C17";

// A document: header words plus named sections, each a list of value lines.
struct Section { std::string key; std::vector<std::string> lines; std::string mark = "*", colon = ":"; };
struct Layout { int order = 0, blank = 0, indent = 0, crlf = 0, inl = 0, split = 0, comma = 0, final_nl = 1, num = 0, key = 0; };
static std::string fmt(double d, int style) { char b[64]; snprintf(b, 64, style == 0 ? "%.17g" : style == 1 ? "%.17e" : "%+.20E", d); return b; }
static std::vector<std::string> knot_lines(const Dv& k, const Layout& L)
{
    std::vector<std::string> r; std::string cur;
    size_t per = L.split == 0 ? k.size() : L.split == 1 ? 1 : 2; // 3: broken before the comma
    for (size_t i = 0; i < k.size(); ++i)
    {
        cur += fmt(k[i], L.num);
        bool last = i + 1 == k.size();
        if ((i + 1) % per == 0 || last) { if (L.comma && L.split != 3) cur += ","; r.push_back(cur); cur.clear(); if (L.split == 3) { if (L.comma && last) r.push_back(","); cur = L.comma ? "," : ", "; } }
        else cur += L.split == 2 ? "," : " ,  ";
    }
    return r;
}
static std::string pt(const Vec4& p, const Layout& L) { std::string sep = L.indent == 2 ? "\t" : L.indent == 1 ? "   " : " "; return fmt(p[0], L.num) + sep + fmt(p[1], L.num) + sep + fmt(p[2], L.num) + sep + fmt(p[3], L.num); }
static std::vector<Section> sections(const Curve& k, const Layout& L)
{
    Section P{"ControlPoints", {}};
    std::string cur;
    for (size_t i = 0; i < k.ControlPoints.size(); ++i)
    {
        bool last = i + 1 == k.ControlPoints.size();
        cur += pt(k.ControlPoints[i], L);
        if (L.split == 2 && i % 2 == 0 && !last) { cur += ", "; continue; } // two points on a line
        if (L.comma && L.split != 3) cur += ",";
        P.lines.push_back(cur); cur.clear(); if (L.split == 3) cur = L.comma ? "," : ", ";
    }
    return {{"Degree", {std::to_string(k.Degree)}}, {"Knots", knot_lines(k.Knots.Values(), L)}, P};
}
static std::vector<Section> sections(const Surface& k, const Layout& L)
{
    Section P{"ControlPoints", {std::to_string(k.ControlPoints.UCount) + (L.indent ? "   " : " ") + std::to_string(k.ControlPoints.VCount)}};
    for (auto& p : k.ControlPoints.Values) P.lines.push_back(pt(p, L));
    return {{"DegreeU", {std::to_string(k.DegreeU)}}, {"DegreeV", {std::to_string(k.DegreeV)}}, {"KnotsU", knot_lines(k.KnotsU.Values(), L)}, {"KnotsV", knot_lines(k.KnotsV.Values(), L)}, P};
}
static const char* type_of(const Curve&) { return "CURVE"; }
static const char* type_of(const Surface&) { return "SURFACE"; }
static std::string render(const std::string& header, std::vector<Section> s, const Layout& L)
{
    for (int i = 0; i < L.order; ++i) std::next_permutation(s.begin(), s.end(), [](auto& a, auto& b) { return a.key < b.key; });
    std::string nl = L.crlf ? "\r\n" : "\n", ind = L.indent == 0 ? "" : L.indent == 1 ? "   " : "\t ", out = header + nl;
    auto line = [&](const std::string& t) { out += ind + t + (L.indent == 1 ? "  " : "") + nl; if (L.blank == 2) out += nl; if (L.blank == 3) out += " \t " + nl; };
    for (auto& x : s)
    {
        if (L.blank == 1) out += nl;
        std::string key = L.key == 0 ? x.mark + x.key + x.colon : L.key == 1 ? x.mark + " " + x.key + " " + x.colon : x.mark + "\t" + x.key + x.colon;
        size_t i = 0;
        if (L.inl && !x.lines.empty()) { line(key + (L.key == 1 ? "" : " ") + x.lines[0]); i = 1; } else line(key);
        for (; i < x.lines.size(); ++i) line(x.lines[i]);
    }
    if (!L.final_nl) while (!out.empty() && (out.back() == '\n' || out.back() == '\r')) out.pop_back();
    return out;
}
template <class T> std::vector<T> objects();
template <> std::vector<Curve> objects<Curve>() { return {curve(2, {0, 0, 0, 0.25, 1.0 / 3, 1, 1, 1}, 0, 2), curve(1, {0, 0, 1, 1}, 4, 5), curve(3, {0, 0, 0, 0, 0.5, 0.5, 1, 1, 1, 1}, 3, 3)}; }
template <> std::vector<Surface> objects<Surface>() { return {surface(2, 1, {0, 0, 0, 1.0 / 3, 1, 1, 1}, {0, 0, 0.7, 1, 1}, 0, 2), surface(1, 1, {0, 0, 1, 1}, {0, 0, 1, 1}, 4, 5), surface(1, 2, {0, 0, 1, 1}, {0, 0, 0, 0.1, 1, 1, 1}, 3, 3)}; }

template <class T> void layout(Ctx& c)
{
    static const auto O = objects<T>();
    int which = c.choose((int)O.size(), "object"); const T& k = O[which];
    Layout L; int n = std::is_same_v<T, Curve> ? 6 : 120;
    L.order = c.choose(n, "section order"); c.shard();
    L.blank = c.choose(4, "blank lines"); L.indent = c.choose(3, "indent"); L.crlf = c.choose(2, "crlf"); L.inl = c.choose(2, "inline"); L.split = c.choose(4, "split");
    L.comma = c.choose(2, "trailing comma"); L.final_nl = c.choose(2, "final newline");
    if (std::is_same_v<T, Curve> || L.order < 6 || c.thorough) { L.num = c.choose(3, "number format"); L.key = c.choose(3, "key spacing"); }
    std::string h = L.key == 1 ? "LIBNURBS  TXT   " : "LIBNURBS TXT ";
    std::string doc = render(h + type_of(k), sections(k, L), L);
    c.state(mc::mix(std::hash<std::string>()(doc), 1)); c.log("%s", hex(doc, 3000).c_str());
    T g; if (L.num == 1) g = O[(which + 1) % O.size()];
    std::istringstream is(doc);
    try { g.LoadFromFile(is); } catch (std::exception& e) { c.fail("a valid document was refused (%s):\n%s", e.what(), doc.substr(0, 3000).c_str()); }
    c.step();
    MC_CHECK(c, bits(g, k), "document loaded as %s instead of %s:\n%s", str(g).c_str(), str(k).c_str(), doc.substr(0, 2000).c_str());
}
template <class T> void refuse(Ctx& c, const std::string& doc, const char* what)
{
    c.state(std::hash<std::string>()(doc)); c.log("%s: %s", what, hex(doc, 3000).c_str());
    static const auto O = objects<T>();
    for (int used = 0; used < 2; ++used)
    {
        T g; if (used) g = O[0];
        std::istringstream is(doc); bool threw = false;
        try { g.LoadFromFile(is); } catch (std::exception&) { threw = true; }
        c.step(); c.outcome("%s refused", what);
        MC_CHECK(c, threw, "%s: accepted, loaded as %s\n%s", what, str(g).c_str(), hex(doc, 2500).c_str());
    }
}
// blanks and tabs in every place they may stand in, of any length
template <class T> void whitespace(Ctx& c)
{
    static const auto O = objects<T>(); static const std::vector<std::string> W{"", " ", "\t", " \t ", std::string(70, ' '), std::string(300, '\t'), std::string(5000, ' ')};
    const T& k = c.pick(O, "object"); std::string ind = c.pick(W, "before a line"), tail = c.pick(W, "after a line"); c.shard(); int kp = c.choose(4, "around the key"); std::string pad = c.pick(W, "of this kind"); if ((kp == 0) != pad.empty()) return;
    bool crlf = c.flip("crlf"), many = c.flip("many blank lines"); Layout L; std::string nl = crlf ? "\r\n" : "\n", doc = std::string("LIBNURBS TXT ") + type_of(k) + nl;
    if (many && (ind.size() > 100 || tail.size() > 100 || pad.size() > 100)) return;
    for (auto& x : sections(k, L))
    {
        if (many) for (int i = 0; i < 300; ++i) doc += (i % 2 ? tail : "") + nl;
        doc += ind + "*" + (kp & 1 ? pad : "") + x.key + (kp & 2 ? pad : "") + ":" + tail + nl;
        for (auto& l : x.lines) doc += ind + l + tail + nl;
    }
    c.state(std::hash<std::string>()(doc)); c.log("%s", hex(doc, 2000).c_str());
    T g; std::istringstream is(doc);
    try { g.LoadFromFile(is); } catch (std::exception& e) { c.fail("a valid document was refused (%s):\n%s", e.what(), hex(doc, 3000).c_str()); }
    c.step();
    MC_CHECK(c, bits(g, k), "document loaded as %s instead of %s:\n%s", str(g).c_str(), str(k).c_str(), hex(doc, 2000).c_str());
}
static Layout some_layout(Ctx& c)
{
    Layout L; L.inl = c.choose(2, "inline"); L.crlf = c.choose(2, "crlf"); L.blank = c.choose(2, "blank"); L.final_nl = c.choose(2, "final newline"); L.split = c.choose(2, "split"); return L;
}
static std::vector<std::string> words(const std::string& s, std::vector<std::pair<size_t, size_t>>& pos)
{
    std::vector<std::string> r; size_t i = 0;
    while (i < s.size()) { while (i < s.size() && (s[i] == ' ' || s[i] == ',' || s[i] == '\t')) ++i; size_t b = i; while (i < s.size() && s[i] != ' ' && s[i] != ',' && s[i] != '\t') ++i; if (i > b) { r.push_back(s.substr(b, i - b)); pos.push_back({b, i - b}); } }
    return r;
}
template <class T> void defects(Ctx& c)
{
    static const auto O = objects<T>();
    const T& k = O[c.choose((int)O.size(), "object")]; std::string type = type_of(k), other = type == "CURVE" ? "SURFACE" : "CURVE";
    int nsec = std::is_same_v<T, Curve> ? 3 : 5;
    Layout L = some_layout(c); L.order = c.choose(std::is_same_v<T, Curve> ? 6 : c.thorough ? 120 : 6, "section order"); if (!std::is_same_v<T, Curve> && !c.thorough) L.order *= 20; c.shard();
    auto S = sections(k, L); std::string header = "LIBNURBS TXT " + type;
    switch (c.choose(9, "defect"))
    {
    case 0:
    {
        static const std::vector<std::string> bad{"LIBNURBZ TXT @", "libnurbs TXT @", "LIBNURBS2 TXT @", "TXT @", "", "@", "LIBNURBS", "LIBNURBS @", "LIBNURBS TEXT @", "LIBNURBS txt @", "LIBNURBS TXTX @", "LIBNURBS BINARY @", "LIBNURBS TXT", "LIBNURBS TXT #", "LIBNURBS TXT @S", "LIBNURBS TXT curve", "LIBNURBS TXT SOLID", "LIBNURBSTXT@", "LIBNURBS @ TXT", "XLIBNURBS TXT @", "LIBNURBS TX @"};
        std::string h = c.pick(bad, "header"); auto sub = [&](char a, const std::string& b) { size_t p = h.find(a); if (p != std::string::npos) h.replace(p, 1, b); }; sub('@', type); sub('#', other);
        refuse<T>(c, render(h, S, L), "bad header"); break;
    }
    case 1: { static const std::vector<std::string> junk{"1", "0.5, 0.5", "Degree: 2", "*Degree 2", "# comment", "*"}; refuse<T>(c, header + "\n" + c.pick(junk, "junk") + "\n" + render("", S, L), "content before the first section"); break; }
    case 2: // an unknown section anywhere, or a renamed one
    {
        int at = c.choose(nsec + 1, "at"); static const std::vector<std::string> keys{"Weights", "degree", "Degrees", "Knot", "controlpoints", "ControlPoint", "KnotsW"};
        std::string key = c.pick(keys, "key"); if (L.order) L.order = 0;
        if (c.flip("rename")) { if (at == nsec) at = 0; S[at].key = key; } else S.insert(S.begin() + at, Section{key, {"1"}});
        refuse<T>(c, render(header, S, L), "unknown section"); break;
    }
    case 3: // non-numeric token at every token position
    {
        static const std::vector<std::string> junk{"abc", "x1", "-", "--1", "?", "one", "#1", "e5", "+", ".", "*", "\"1\""};
        int total = 0; for (auto& s : S) for (auto& l : s.lines) { std::vector<std::pair<size_t, size_t>> p; total += (int)words(l, p).size(); }
        int at = c.choose(total, "token"); std::string j = junk[c.choose(L.order == 0 || c.thorough ? (int)junk.size() : 2, "junk")];
        for (auto& s : S) for (auto& l : s.lines)
        {
            std::vector<std::pair<size_t, size_t>> p; int n = (int)words(l, p).size();
            if (at >= 0 && at < n) l.replace(p[at].first, p[at].second, j);
            at -= n;
        }
        refuse<T>(c, render(header, S, L), "non-numeric value"); break;
    }
    case 4: // incomplete point at every position
    {
        auto& P = S.back().lines; int first = std::is_same_v<T, Curve> ? 0 : 1;
        int at = first + c.choose((int)P.size() - first, "point"); std::vector<std::pair<size_t, size_t>> p; auto w = words(P[at], p); int keep = c.range(1, 3, "coordinates kept");
        std::string l; for (int i = 0; i < keep; ++i) l += (i ? " " : "") + w[i]; P[at] = l;
        refuse<T>(c, render(header, S, L), "incomplete point"); break;
    }
    case 7: // the line of a section is not one: no star, no colon
    {
        static const std::vector<std::pair<std::string, std::string>> M{{"", ":"}, {"#", ":"}, {"x", ":"}, {"-", ":"}, {"**", ":"}, {"*", ""}, {"", ""}, {"*", ";"}, {"*", " ="}};
        auto& x = S[c.choose(nsec, "section")]; auto& m = c.pick(M, "marks"); x.mark = m.first; x.colon = m.second; L.key = c.choose(2, "key spacing");
        refuse<T>(c, render(header, S, L), "section line without its marks"); break;
    }
    case 5: // degree with no or several values
    {
        int d = std::is_same_v<T, Curve> ? 0 : c.choose(2, "which degree");
        switch (c.choose(3, "lines")) { case 0: S[d].lines.clear(); break; case 1: S[d].lines.push_back("3"); break; default: S[d].lines.insert(S[d].lines.begin(), {"1", "1"}); }
        refuse<T>(c, render(header, S, L), "degree with no or several values"); break;
    }
    case 6: // grid dimensions
    {
        if constexpr (std::is_same_v<T, Curve>) { refuse<T>(c, "", "empty file"); }
        else
        {
            int mode = c.choose(3, "mode"); auto& P = S.back().lines; int u = k.ControlPoints.UCount, v = k.ControlPoints.VCount;
            if (mode == 0)
            {
                int a = c.range(-4, 6, "u count"), b = c.range(-4, 6, "v count");
                if (a > 0 && b > 0 && a * b == u * v) { c.outcome("consistent dimensions (not a defect)"); return; }
                P[0] = std::to_string(a) + " " + std::to_string(b); refuse<T>(c, render(header, S, L), "grid dimensions");
            }
            else if (mode == 1)
            {
                static const std::vector<std::string> big{"65536 65536", "65536 65537", "2147483647 2147483647", "-2147483648 -2147483648", "1073741824 4", "2147483647 2", "99999999999 1", "1 99999999999", "3037000500 3037000500", "46341 46341", "2147483648 1"};
                P[0] = c.pick(big, "dims"); refuse<T>(c, render(header, S, L), "grid dimensions");
            }
            else
            {
                int at = 1 + c.choose((int)P.size() - 1, "point"); if (c.flip("extra")) P.insert(P.begin() + at, P[at]); else P.erase(P.begin() + at);
                refuse<T>(c, render(header, S, L), "point count against dimensions");
            }
        }
        break;
    }
    default:
        if constexpr (!std::is_same_v<T, Curve>)
        {
            switch (c.choose(4, "dims line")) { case 0: S.back().lines.clear(); break; case 1: S.back().lines[0] = std::to_string(k.ControlPoints.UCount); break; case 2: S.back().lines.resize(1); break; default: S.back().lines.erase(S.back().lines.begin()); if (k.ControlPoints.Values[0][0] == k.ControlPoints.UCount && k.ControlPoints.Values[0][1] == k.ControlPoints.VCount) return; }
            refuse<T>(c, render(header, S, L), "grid dimensions missing or no points");
        }
        else refuse<T>(c, "", "empty file");
    }
}
template <class T> void binary(Ctx& c)
{
    static const auto O = objects<T>();
    const T& k = O[c.choose((int)O.size(), "object")]; std::string d = encode(k), h = d.substr(0, d.find('\n') + 1); c.shard();
    std::vector<size_t> counts; size_t o = h.size();
    if constexpr (std::is_same_v<T, Curve>) { o += 4; counts.push_back(o); o += 4 + 8 * k.Knots.Values().size(); counts.push_back(o); }
    else { o += 8; counts.push_back(o); o += 4 + 8 * k.KnotsU.Values().size(); counts.push_back(o); o += 4 + 8 * k.KnotsV.Values().size(); counts.push_back(o); counts.push_back(o + 4); }
    if (c.flip("header"))
    {
        static const std::vector<std::string> bad{"LIBNURBZ BIN @\n", "LIBNURBS BIM @\n", "LIBNURBS BIN\n", "LIBNURBS BIN #\n", "BIN @\n", "\n", "LIBNURBS bin @\n", "LIBNURBS TXT @\n"};
        std::string type = type_of(k), x = c.pick(bad, "header"); auto sub = [&](char a, const std::string& b) { size_t p = x.find(a); if (p != std::string::npos) x.replace(p, 1, b); }; sub('@', type); sub('#', type == "CURVE" ? "SURFACE" : "CURVE");
        refuse<T>(c, x + d.substr(h.size()), "bad binary header"); return;
    }
    int which = c.choose((int)counts.size(), "count"); static const std::vector<int32_t> vals{-1, -2, -7, INT32_MIN, INT32_MIN + 1, -65536};
    int32_t v = c.pick(vals, "value"); std::memcpy(&d[counts[which]], &v, 4);
    if (!std::is_same_v<T, Curve> && which >= 2 && c.flip("both dimensions")) { std::memcpy(&d[counts[2]], &v, 4); std::memcpy(&d[counts[3]], &v, 4); }
    refuse<T>(c, d, "negative binary count");
}
static void binary_dims(Ctx& c)
{
    static const auto O = objects<Surface>(); const Surface& k = O[c.choose((int)O.size(), "object")]; std::string d = encode(k); c.shard();
    size_t o = d.find('\n') + 1 + 8 + 4 + 8 * k.KnotsU.Values().size() + 4 + 8 * k.KnotsV.Values().size();
    static const std::vector<std::pair<int32_t, int32_t>> dims{{0, 1}, {1, 0}, {0, 0}, {65536, 65536}, {65536, 32768}, {INT32_MAX, INT32_MAX}, {INT32_MAX, 2}, {-1, -4}, {0, INT32_MAX}, {46341, 46341}, {3, 1431655766}};
    auto p = c.pick(dims, "dims"); std::memcpy(&d[o], &p.first, 4); std::memcpy(&d[o + 4], &p.second, 4);
    refuse<Surface>(c, d, "binary grid dimensions");
}
std::vector<mc::Body> mc::bodies()
{
    return {{"curve_layouts", layout<Curve>}, {"surface_layouts", layout<Surface>}, {"curve_defects", defects<Curve>}, {"surface_defects", defects<Surface>}, {"curve_binary", binary<Curve>}, {"surface_binary", binary<Surface>}, {"surface_binary_dimensions", binary_dims}, {"curve_whitespace", whitespace<Curve>}, {"surface_whitespace", whitespace<Surface>}};
}
