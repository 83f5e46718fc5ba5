// Files do not depend on the surroundings: every combination of global locale, stream locale and stream formatting is
// tried around a save or a load; bytes written, object read and the formatting left on the stream are compared with
// those of a plain stream in the classic locale.
#include "io.hpp"
#include <iomanip>
#include <locale>
#include <sstream>
using namespace io;
const char* mc::PROPERTY = "C33";

struct Punct : std::numpunct<char>
{
    char d, t; std::string g;
    Punct(char d, char t, std::string g) : d(d), t(t), g(std::move(g)) {}
    char do_decimal_point() const override { return d; }
    char do_thousands_sep() const override { return t; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
static const std::vector<std::pair<std::string, std::locale>>& locales()
{
    auto mk = [](char d, char t, const char* g) { return std::locale(std::locale::classic(), new Punct(d, t, g)); };
    static const std::vector<std::pair<std::string, std::locale>> L{
        {"classic", std::locale::classic()}, {"1.234,5", mk(',', '.', "\3")}, {"1 234,5", mk(',', ' ', "\3")}, {"1,2,3.4", mk('.', ',', "\1")}, {"1'23'4.5", mk('.', '\'', "\1\2")}, {"1234,5", mk(',', '.', "")}};
    return L;
}
struct Global { std::locale old; explicit Global(const std::locale& l) : old(std::locale::global(l)) {} ~Global() { std::locale::global(old); } };
// one way of setting up a stream each
static const std::vector<std::pair<std::string, std::function<void(std::ios&)>>>& formats()
{
    using S = std::ios&;
    static const std::vector<std::pair<std::string, std::function<void(std::ios&)>>> F{
        {"plain", [](S) {}}, {"hex", [](S s) { s.setf(std::ios::hex, std::ios::basefield); }}, {"hex showbase uppercase", [](S s) { s.setf(std::ios::hex, std::ios::basefield); s.setf(std::ios::showbase | std::ios::uppercase); }},
        {"oct", [](S s) { s.setf(std::ios::oct, std::ios::basefield); }}, {"no base", [](S s) { s.unsetf(std::ios::basefield); }}, {"showpos", [](S s) { s.setf(std::ios::showpos); }}, {"uppercase", [](S s) { s.setf(std::ios::uppercase); }}, {"showpoint", [](S s) { s.setf(std::ios::showpoint); }}, {"boolalpha", [](S s) { s.setf(std::ios::boolalpha); }},
        {"fixed", [](S s) { s.setf(std::ios::fixed, std::ios::floatfield); s.precision(2); }}, {"scientific", [](S s) { s.setf(std::ios::scientific, std::ios::floatfield); s.precision(3); }}, {"hexfloat", [](S s) { s.setf(std::ios::fixed | std::ios::scientific, std::ios::floatfield); }}, {"precision 0", [](S s) { s.precision(0); }}, {"precision 60", [](S s) { s.precision(60); }},
        {"width 40 fill *", [](S s) { s.width(40); s.fill('*'); }}, {"width 40 fill * left", [](S s) { s.width(40); s.fill('*'); s.setf(std::ios::left, std::ios::adjustfield); }}, {"width 100000 fill #", [](S s) { s.width(100000); s.fill('#'); }}, {"width 12 internal", [](S s) { s.width(12); s.fill('0'); s.setf(std::ios::internal, std::ios::adjustfield); }},
        {"no skipws", [](S s) { s.unsetf(std::ios::skipws); }}, {"unitbuf", [](S s) { s.setf(std::ios::unitbuf); }}, {"exceptions", [](S s) { s.exceptions(std::ios::badbit); }}};
    return F;
}
static std::string form(std::ios& s) { return std::to_string((unsigned long)s.flags()) + "/" + std::to_string(s.precision()) + "/" + std::to_string((int)s.fill()) + "/" + (s.getloc() == std::locale::classic() ? "classic" : "own"); }

template <class T> void around(Ctx& c, const T& src, const std::string& what, bool big = false)
{
    bool bin = c.flip("binary"); int save = c.choose(3, "action"); int g = c.choose((int)locales().size(), "global locale");
    std::string plain; { std::ostringstream s; s.imbue(std::locale::classic()); src.SaveToFile(s, bin); plain = s.str(); }
    if (save == 2)
    {   // the file-name forms have only the global locale around them
        c.state(hash(src) ^ (g * 131 + bin * 7 + 2)); std::string fn = scratch() + "/loc.txt"; T got;
        { Global G(locales()[g].second); try { src.SaveToFile(fn, bin); got.LoadFromFile(fn); } catch (mc::Violation&) { throw; } catch (std::exception& e) { c.fail("%s: a file saved and loaded in the locale %s is refused: %s", what.c_str(), locales()[g].first.c_str(), e.what()); } }
        c.step(2); std::ifstream f(fn, std::ios::binary); std::string b((std::istreambuf_iterator<char>(f)), {}); std::filesystem::remove(fn);
        MC_CHECK(c, b == plain, "%s: the file written in the locale %s differs from the classic one: %s", what.c_str(), locales()[g].first.c_str(), hex(b, 300).c_str());
        MC_CHECK(c, bits(got, src), "%s: the object read in the locale %s differs", what.c_str(), locales()[g].first.c_str());
        return;
    }
    int l = c.choose((int)locales().size(), "stream locale"), f = c.choose(big ? 3 : (int)formats().size(), "format");
    std::string where = what + (bin ? ", binary" : ", text") + ", global locale " + locales()[g].first + ", stream locale " + locales()[l].first + ", format " + formats()[f].first;
    c.log("%s %s", save ? "load" : "save", where.c_str()); c.state(hash(src) ^ (((g * 31 + l) * 64 + f) * 8 + bin * 2 + save));
    if (!save)
    {
        std::ostringstream s; s.imbue(locales()[l].second); formats()[f].second(s); std::string before = form(s);
        { Global G(locales()[g].second); try { src.SaveToFile(s, bin); } catch (mc::Violation&) { throw; } catch (std::exception& e) { c.fail("saving %s throws: %s", where.c_str(), e.what()); } }
        c.step(); MC_CHECK(c, s.str() == plain, "saving %s writes other bytes than to a plain stream: %s", where.c_str(), hex(s.str(), 300).c_str());
        MC_CHECK(c, form(s) == before, "saving %s leaves the stream formatted differently: %s, was %s", where.c_str(), form(s).c_str(), before.c_str());
    }
    else
    {
        std::istringstream s(plain); s.imbue(locales()[l].second); formats()[f].second(s); std::string before = form(s); T got;
        { Global G(locales()[g].second); try { got.LoadFromFile(s); } catch (mc::Violation&) { throw; } catch (std::exception& e) { c.fail("loading %s is refused: %s", where.c_str(), e.what()); } }
        c.step(); MC_CHECK(c, bits(got, src), "loading %s gives another object", where.c_str());
        MC_CHECK(c, form(s) == before, "loading %s leaves the stream formatted differently: %s, was %s", where.c_str(), form(s).c_str(), before.c_str());
    }
}
static double value(int i) { auto& n = nasty(); return n[i % n.size()]; }
static void curves(Ctx& c)
{
    static const std::vector<int> P{1, 2, 3, 10, 12}, N{0, 1, 9, 40}; int p = c.pick(P, "degree"), n = c.pick(N, "interior knots"); c.shard();
    Curve k; k.Degree = p; Dv U(p + 1, 0.0); for (int i = 1; i <= n; ++i) U.push_back(i / (n + 1.0)); U.insert(U.end(), p + 1, 1.0); k.Knots = libnurbs::KnotVector(U);
    for (int i = 0; i < n + p + 1; ++i) k.ControlPoints.push_back(Vec4(value(4 * i), value(4 * i + 1), 1234567.875 + i, 1 + i / 3.0));
    around(c, k, "curve of degree " + std::to_string(p) + " with " + std::to_string(n + p + 1) + " points");
}
static void surfaces(Ctx& c)
{
    static const std::vector<int> P{1, 2, 11}, N{0, 9, 1200}; int p = c.pick(P, "degree-u"), q = c.pick(P, "degree-v"), n = c.pick(N, "interior knots u"); bool swap = c.flip("long direction v"); if (n == 1200 && (p > 1 || q > 2)) { c.state(7); return; } c.shard();
    if (n == 1200 && !c.thorough) n = 1010;
    int nu = swap ? 0 : n, nv = swap ? n : 0; auto kn = [](int d, int m) { Dv U(d + 1, 0.0); for (int i = 1; i <= m; ++i) U.push_back(i / (m + 1.0)); U.insert(U.end(), d + 1, 1.0); return U; };
    Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU = libnurbs::KnotVector(kn(p, nu)); s.KnotsV = libnurbs::KnotVector(kn(q, nv)); int cu = nu + p + 1, cv = nv + q + 1;
    s.ControlPoints = libnurbs::Grid<Vec4>(cu, cv); for (int v = 0; v < cv; ++v) for (int u = 0; u < cu; ++u) { int i = u + v * cu; s.ControlPoints.Get(u, v) = Vec4(value(4 * i), 1234567.875 - i, value(4 * i + 2), 1 + i / 3.0); }
    around(c, s, "surface of degrees " + std::to_string(p) + "x" + std::to_string(q) + " with " + std::to_string(cu) + "x" + std::to_string(cv) + " points", n > 100);
}
std::vector<mc::Body> mc::bodies() { return {{"curves", curves}, {"surfaces", surfaces}}; }
