#include "io.hpp"
#include <libnurbs/Utils/Serialization.hpp>
using namespace io;
const char* mc::PROPERTY = "C32";
using libnurbs::KnotVector; namespace ser = libnurbs::Utils;

// one item on a stream: an object in binary form or one of the two primitives they are made of
struct Item { int kind = 0; Curve c; Surface s; Dv k; Vec4 v = Vec4::Zero(); };
static const std::vector<Item>& items()
{
    static const std::vector<Item> r = [] {
        std::vector<Item> q; Item i;
        i.kind = 0; i.c = curve(1, {0, 0, 1, 1}, 0, 2); q.push_back(i); i.c = curve(2, {0, 0, 0, 1.0 / 3, 1, 1, 1}, 5, 3); q.push_back(i);
        i.kind = 1; i.s = surface(1, 2, {0, 0, 1, 1}, {0, 0, 0, 0.3, 1, 1, 1}, 0, 2); q.push_back(i); i.s = surface(1, 1, {0, 0, 0.4, 1, 1}, {0, 0, 1, 1}, 5, 3); q.push_back(i);
        i.kind = 2; i.k = {0, 0, 0.1, 1, 1}; q.push_back(i); i.k = {}; q.push_back(i);
        i.kind = 3; i.v = Vec4(0.1, -1e300, 10, 1.0 / 3); q.push_back(i); { double nl; const char b[9] = "\n\n\r\n  \t"; std::memcpy(&nl, b, 8); i.v = Vec4(nl, nl, 13, 32); } q.push_back(i);
        return q;
    }();
    return r;
}
static std::string bytes(const Item& i)
{
    if (i.kind == 0) return encode(i.c); if (i.kind == 1) return encode(i.s);
    std::string s; if (i.kind == 2) put_knots(s, i.k); else for (int d = 0; d < 4; ++d) put(s, i.v[d]); return s;
}
static void write(const Item& i, std::ostream& o) { if (i.kind == 0) i.c.SaveToFile(o, true); else if (i.kind == 1) i.s.SaveToFile(o, true); else if (i.kind == 2) { KnotVector k; k.Values() = i.k; ser::WriteKnotVectorToStream(k, o); } else ser::WriteVec4ToStream(i.v, o); }
struct Receivers { Curve c; Surface s; KnotVector k; Vec4 v; };
static bool read(const Item& i, std::istream& f, Receivers& r)
{
    if (i.kind == 0) { r.c.LoadFromFile(f); return bits(r.c, i.c); } if (i.kind == 1) { r.s.LoadFromFile(f); return bits(r.s, i.s); }
    if (i.kind == 2) { ser::ReadKnotVectorFromStream(r.k, f); return bits(r.k.Values(), i.k); } ser::ReadVec4FromStream(r.v, f); return bits(r.v, i.v);
}
static void run(Ctx& c, const std::vector<int>& seq, int prefix, int medium, bool reuse)
{
    auto& I = items(); const std::string pre(prefix, '\n'), post = "\nLIBNURBS rest"; std::string all; std::vector<size_t> end; uint64_t h = prefix * 8 + medium * 2 + reuse; std::string names;
    all = pre; for (int x : seq) { all += bytes(I[x]); end.push_back(all.size()); h = mc::mix(h, x); names += std::to_string(x) + " "; } c.state(h); c.log("items %s prefix %d medium %d reuse %d", names.c_str(), prefix, medium, reuse);
    std::string path = scratch() + "/s"; std::string got;
    auto put_all = [&](std::ostream& o) { o << pre; for (int x : seq) { write(I[x], o); c.step(); MC_CHECK(c, o.good(), "items %s: stream not good after writing item %d", names.c_str(), x); } };
    if (medium == 0) { std::stringstream s; put_all(s); got = s.str(); }
    else if (medium == 1) { std::ofstream f(path, std::ios::binary); put_all(f); f.close(); std::ifstream g(path, std::ios::binary); std::stringstream s; s << g.rdbuf(); got = s.str(); }
    else { std::fstream f(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc); put_all(f); f.flush(); f.seekg(0); std::stringstream s; s << f.rdbuf(); got = s.str(); }
    MC_CHECK(c, got == all, "items %s (numbers) written back to back give %zu bytes, expected %zu: %s", names.c_str(), got.size(), all.size(), hex(got).c_str());
    Receivers shared;
    auto get_all = [&](std::istream& f) {
        f.seekg(prefix);
        for (size_t n = 0; n < seq.size(); ++n)
        {
            Receivers own; bool ok = false;
            try { ok = read(I[seq[n]], f, reuse ? shared : own); } catch (std::exception& e) { c.fail("items %s (numbers): reading item %zu throws: %s", names.c_str(), n, e.what()); }
            c.step(); MC_CHECK(c, ok, "items %s (numbers): item %zu is read back differently", names.c_str(), n);
            MC_CHECK(c, f.good() && (size_t)f.tellg() == end[n], "items %s (numbers): after reading item %zu the stream stands at %ld, expected %zu", names.c_str(), n, (long)f.tellg(), end[n]);
        }
        std::string rest(post.size(), 0); f.read(rest.data(), rest.size()); MC_CHECK(c, rest == post, "items %s (numbers): what follows on the stream was consumed or damaged", names.c_str());
    };
    if (medium == 0) { std::stringstream s(all + post); get_all(s); }
    else { { std::ofstream o(path, std::ios::binary); o << all << post; } if (medium == 1) { std::ifstream f(path, std::ios::binary); get_all(f); } else { std::fstream f(path, std::ios::in | std::ios::out | std::ios::binary); get_all(f); } }
}
static void sequences(Ctx& c)
{
    int n = c.range(1, c.thorough ? 6 : 5, "items"); std::vector<int> seq; for (int i = 0; i < n; ++i) { seq.push_back(c.choose((int)items().size(), "item")); if (i == 0) c.shard(); }
    int medium = n <= 3 ? c.choose(3, "medium") : 0; static const std::vector<int> P{0, 1, 13}; int prefix = n <= 3 ? c.pick(P, "bytes in front") : 0;
    run(c, seq, prefix, medium, c.flip("reuse receivers"));
}
// items of many sizes next to each other
static void sizes(Ctx& c)
{
    static const std::vector<int> N{2, 3, 5, 9, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 300}; int a = c.pick(N, "first"), b = c.pick(N, "second"); int ka = c.choose(3, "first kind"), kb = c.choose(3, "second kind"); c.shard();
    auto U = [](int n) { Dv u{0, 0}; for (int i = 1; i < n - 1; ++i) u.push_back((double)i / (n - 1)); u.push_back(1); u.push_back(1); return u; };
    auto item = [&](int k, int n) { Item i; i.kind = k; if (k == 0) i.c = curve(1, U(n), 0, 2); else if (k == 1) i.s = surface(1, 1, U(n), {0, 0, 0.5, 1, 1}, 0, 2); else i.k = U(n); return i; };
    Item x = item(ka, a), y = item(kb, b); std::stringstream s; write(x, s); write(y, s); std::string all = bytes(x) + bytes(y); c.step(2); c.state(mc::mix(a * 1000 + b, ka * 10 + kb));
    MC_CHECK(c, s.str() == all, "two items of size %d and %d (kinds %d, %d): %zu bytes instead of %zu", a, b, ka, kb, s.str().size(), all.size());
    Receivers r; bool ok = read(x, s, r); bool ok2 = read(y, s, r); c.step(2); MC_CHECK(c, ok && ok2, "two items of size %d and %d (kinds %d, %d) are read back differently (%d, %d)", a, b, ka, kb, ok, ok2);
}
struct Pipe : std::streambuf { std::string q; int_type overflow(int_type ch) override { if (ch != traits_type::eof()) q += (char)ch; return traits_type::not_eof(ch); } std::streamsize xsputn(const char* s, std::streamsize n) override { q.append(s, n); return n; } };
// the text form, too, is written where the stream stands and leaves what precedes alone
static void text_after(Ctx& c)
{
    int x = c.choose(4, "object"), medium = c.choose(4, "medium"), n = c.range(0, 3, "objects before"); c.shard(); auto& i = items()[x]; auto save = [](const Item& i, std::ostream& o) { if (i.kind == 0) i.c.SaveToFile(o); else i.s.SaveToFile(o); };
    std::ostringstream alone; save(i, alone); std::string pre = c.flip("other data in front") ? "# text\n" : "", want = pre; std::vector<int> before; for (int k = 0; k < n; ++k) before.push_back(c.choose(4, "object before")); for (int b : before) { std::ostringstream t; save(items()[b], t); want += t.str(); } want += alone.str();
    auto all = [&](std::ostream& o) { o << pre; for (int b : before) { save(items()[b], o); c.step(); } save(i, o); c.step(); MC_CHECK(c, o.good(), "stream not good after saving as text"); }; std::string got, path = scratch() + "/t";
    if (medium == 0) { std::stringstream s; all(s); got = s.str(); } else if (medium == 1) { { std::ofstream f(path); all(f); } std::ifstream g(path); std::stringstream s; s << g.rdbuf(); got = s.str(); }
    else if (medium == 2) { { std::ofstream f(path); f << pre; } { std::ofstream f(path, std::ios::app); std::string p; std::swap(p, pre); all(f); std::swap(p, pre); } std::ifstream g(path); std::stringstream s; s << g.rdbuf(); got = s.str(); }
    else { Pipe q; std::ostream o(&q); all(o); got = q.q; }
    c.state(std::hash<std::string>()(want) + medium); MC_CHECK(c, got == want, "saving as text after %zu bytes (medium %d): the stream holds %s", want.size() - alone.str().size(), medium, hex(got, 1500).c_str());
}
// a pipe: no seeking, and only as many bytes at a time as asked for
struct Fifo : std::streambuf
{
    std::string q; size_t at = 0; char one = 0; size_t burst; std::string win;
    explicit Fifo(size_t b) : burst(b) {}
    int_type overflow(int_type ch) override { if (ch != traits_type::eof()) q += (char)ch; return traits_type::not_eof(ch); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { q.append(s, n); return n; }
    int_type underflow() override { if (at >= q.size()) return traits_type::eof(); win = q.substr(at, burst); at += win.size(); setg(win.data(), win.data(), win.data() + win.size()); return traits_type::to_int_type(win[0]); }
    size_t left() const { return q.size() - at + (egptr() - gptr()); }
};
// every schedule of writing an item and reading the oldest one that was not read yet, on the same stream
static void interleaved(Ctx& c)
{
    static const std::vector<int> SUB{0, 3, 4, 6}; int len = c.thorough ? 9 : 7; int medium = c.choose(4, "medium"); std::stringstream ss; Fifo fifo(medium == 1 ? 1 : medium == 2 ? 7 : 4096); std::iostream fs(&fifo); std::iostream& f = medium == 0 ? static_cast<std::iostream&>(ss) : fs;
    std::vector<int> queue; size_t head = 0; Receivers shared; std::string names; uint64_t h = medium; auto& I = items();
    for (int i = 0; i < len; ++i)
    {
        bool canread = head < queue.size(); int a = c.choose((int)SUB.size() + (canread ? 1 : 0), "step"); if (i == 2) c.shard(); h = mc::mix(h, a);
        if (a < (int)SUB.size()) { queue.push_back(SUB[a]); names += "W" + std::to_string(SUB[a]) + " "; write(I[SUB[a]], f); c.step(); MC_CHECK(c, f.good(), "schedule %s(medium %d): the stream is not good after writing", names.c_str(), medium); continue; }
        names += "R "; bool ok = false; int x = queue[head++];
        try { ok = read(I[x], f, shared); } catch (std::exception& e) { c.fail("schedule %s(medium %d): reading item %d throws: %s", names.c_str(), medium, x, e.what()); }
        c.step(); MC_CHECK(c, ok, "schedule %s(medium %d): item %d is read back differently", names.c_str(), medium, x);
        MC_CHECK(c, f.good(), "schedule %s(medium %d): the stream is not usable after reading item %d", names.c_str(), medium, x);
        size_t want = 0; for (size_t n = head; n < queue.size(); ++n) want += bytes(I[queue[n]]).size();
        size_t left = medium == 0 ? ss.str().size() - (size_t)ss.tellg() : fifo.left();
        MC_CHECK(c, left == want, "schedule %s(medium %d): after reading item %d %zu bytes remain, expected %zu", names.c_str(), medium, x, left, want);
    }
    c.state(h);
}
std::vector<mc::Body> mc::bodies() { return {{"sequences", sequences}, {"sizes", sizes}, {"interleaved", interleaved}, {"text_after", text_after}}; }
