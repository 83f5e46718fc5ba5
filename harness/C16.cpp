#include "io.hpp"
#include <csignal>
#include <libnurbs/Utils/Serialization.hpp>
#include <sys/resource.h>
using namespace io;
const char* mc::PROPERTY = "C16";

// accepts `budget` bytes, then fails; optionally buffers everything until sync
struct FaultBuf : std::streambuf
{
    long budget; bool buffered; std::string got, pend; bool hit = false;
    FaultBuf(long b, bool buf) : budget(b), buffered(buf) {}
    bool take(const char* s, long n)
    {
        if ((long)got.size() + n <= budget) { got.append(s, n); return true; }
        hit = true; long room = budget - (long)got.size(); if (room > 0) got.append(s, room);
        return false;
    }
    int_type overflow(int_type ch) override
    {
        if (ch == traits_type::eof()) return 0;
        char x = (char)ch;
        if (buffered) { pend += x; return ch; }
        return take(&x, 1) ? ch : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (buffered) { pend.append(s, n); return n; }
        long had = (long)got.size();
        return take(s, n) ? n : (long)got.size() - had;
    }
    int sync() override { if (!buffered) return hit ? -1 : 0; std::string p; p.swap(pend); return take(p.data(), (long)p.size()) ? 0 : -1; }
};
static const std::vector<Curve>& curves()
{
    static const std::vector<Curve> v{curve(1, {0, 0, 1, 1}, 0, 0), curve(2, {0, 0, 0, 0.3, 1, 1, 1}, 5, 2), curve(3, {0, 0, 0, 0, 0.5, 0.5, 0.75, 1, 1, 1, 1}, 3, 6)};
    return v;
}
static const std::vector<Surface>& surfaces()
{
    static const std::vector<Surface> v{surface(1, 1, {0, 0, 1, 1}, {0, 0, 1, 1}, 0, 0), surface(1, 2, {0, 0, 0.5, 1, 1}, {0, 0, 0, 1, 1, 1}, 5, 2), surface(2, 2, {0, 0, 0, 0.2, 1, 1, 1}, {0, 0, 0, 0.4, 0.4, 1, 1, 1}, 3, 6)};
    return v;
}
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

template <class T> void write_fault(Ctx& c, const T& k, bool bin)
{
    std::stringstream ss; k.SaveToFile(ss, bin); const long full = (long)ss.str().size();
    bool buffered = c.flip("buffered"); c.shard();
    long cut = c.choose((int)full + 1, "bytes accepted");
    static const std::vector<std::ios::iostate> ex{std::ios::goodbit, std::ios::badbit, std::ios::failbit | std::ios::badbit};
    FaultBuf fb(cut, buffered); std::ostream os(&fb); os.exceptions(c.pick(ex, "stream exceptions"));
    bool th = throws([&] { k.SaveToFile(os, bin); }); c.step();
    c.log("%s form, %s device accepting %ld of %ld bytes: %s", bin ? "binary" : "text", buffered ? "buffered" : "direct", cut, full, th ? "reported" : "not reported");
    if (cut < full) MC_CHECK(c, th, "%s form of %s: the %s device took only %ld of %ld bytes, saving reported success", bin ? "binary" : "text", str(k).c_str(), buffered ? "buffered" : "direct", cut, full);
    else MC_CHECK(c, !th, "saving to a device with exactly enough room failed");
    c.state(mc::mix(hash(k), cut * 4 + bin * 2 + buffered)); c.outcome(th ? "write failure reported" : "all bytes written");
}
static void write_faults(Ctx& c)
{
    bool surf = c.flip("surface"), bin = c.flip("binary"); int i = c.choose(3, "object");
    if (surf) write_fault(c, surfaces()[i], bin); else write_fault(c, curves()[i], bin);
}
template <class T> void truncation(Ctx& c, const T& k)
{
    std::stringstream ss; k.SaveToFile(ss, true); std::string all = ss.str();
    c.shard();
    int cut = c.choose((int)all.size() + 1, "bytes present"); bool file = c.flip("file"); int prior = c.choose(2, "receiver");
    T g; if (prior) g = k;
    bool th;
    if (file)
    {
        std::string p = scratch() + "/t"; { std::ofstream o(p, std::ios::binary); o.write(all.data(), cut); }
        th = throws([&] { g.LoadFromFile(p); });
    }
    else { std::stringstream in(all.substr(0, cut)); th = throws([&] { g.LoadFromFile(in); }); }
    c.step(); c.log("%d of %zu bytes: %s", cut, all.size(), th ? "refused" : "accepted");
    if (cut < (int)all.size()) MC_CHECK(c, th, "binary file of %s cut to %d of %zu bytes was accepted as %s", str(k).c_str(), cut, all.size(), str(g).c_str());
    else MC_CHECK(c, !th && bits(g, k), "the complete binary file was not loaded correctly");
    c.state(mc::mix(hash(k), cut * 4 + file * 2 + prior)); c.outcome(th ? "truncation reported" : "complete file accepted");
}
static void truncations(Ctx& c)
{
    bool surf = c.flip("surface"); int i = c.choose(3, "object");
    if (surf) truncation(c, surfaces()[i]); else truncation(c, curves()[i]);
}
static void paths(Ctx& c)
{
    bool surf = c.flip("surface"), bin = c.flip("binary"); int what = c.choose(5, "case"); int i = c.choose(3, "object");
    c.shard();
    std::string d = scratch(); bool th = false; const char* name = "";
    auto save = [&](const std::string& p) { return throws([&] { if (surf) surfaces()[i].SaveToFile(p, bin); else curves()[i].SaveToFile(p, bin); }); };
    auto load = [&](const std::string& p) { return throws([&] { if (surf) { Surface s; s.LoadFromFile(p); } else { Curve k; k.LoadFromFile(p); } }); };
    switch (what)
    {
    case 0: name = "saving to a full device"; th = save("/dev/full"); break;
    case 1: name = "saving into a missing directory"; th = save(d + "/missing/x"); break;
    case 2: name = "saving over a directory"; std::filesystem::create_directories(d + "/dir"); th = save(d + "/dir"); break;
    case 3: name = "loading a missing file"; th = load(d + "/nothing-here"); break;
    case 4: name = "loading an empty file"; { std::ofstream o(d + "/empty"); } th = load(d + "/empty"); break;
    }
    c.step(); c.log("%s: %s", name, th ? "reported" : "not reported");
    MC_CHECK(c, th, "%s was not reported (%s, %s)", name, surf ? "surface" : "curve", bin ? "binary" : "text");
    c.state(what * 100 + i * 10 + surf * 2 + bin);
}
// a real file that cannot grow beyond a limit (as on a full disk), at every byte; objects up to several times the buffer of a file stream
static void full_disk(Ctx& c)
{
    static const std::vector<Curve> cs{curves()[1], curve(3, fam_large({3}, {40})[0].U, 3, 6), curve(2, fam_large({2}, {130})[1].U, 5, 2), curve(2, fam_large({2}, {257})[1].U, 5, 2)};
    static const std::vector<Surface> ss{surfaces()[1], surface(2, 2, fam_large({2}, {7})[1].U, fam_large({2}, {8})[1].U, 3, 6), surface(2, 1, fam_large({2}, {11})[1].U, fam_large({1}, {12})[0].U, 5, 2)};
    bool surf = c.flip("surface"), bin = c.flip("binary"); int i = c.choose(surf ? (int)ss.size() : (int)cs.size(), "object");
    auto save = [&](auto&& to) { if (surf) ss[i].SaveToFile(to, bin); else cs[i].SaveToFile(to, bin); };
    std::stringstream whole; save(whole); const long full = (long)whole.str().size();
    int blocks = (int)(full / 64) + 1; long at = 64L * c.choose(blocks, "block"); c.shard(); at += c.choose(64, "byte"); if (at > full) return;
    std::string p = scratch() + "/full"; std::filesystem::remove(p);
    std::signal(SIGXFSZ, SIG_IGN); rlimit old; getrlimit(RLIMIT_FSIZE, &old); rlimit lim{(rlim_t)at, old.rlim_max};
    setrlimit(RLIMIT_FSIZE, &lim); bool th = throws([&] { save(p); }); setrlimit(RLIMIT_FSIZE, &old); c.step();
    c.log("room for %ld of %ld bytes: %s", at, full, th ? "reported" : "not reported"); c.state(at * 32 + i * 4 + surf * 2 + bin);
    if (at < full) { MC_CHECK(c, th, "%s form of %s: the disk had room for %ld of %ld bytes, saving reported success", bin ? "binary" : "text", surf ? "a surface" : "a curve", at, full); return; }
    MC_CHECK(c, !th, "saving to a disk with exactly enough room failed");
    std::ifstream in(p, std::ios::binary); std::string got((std::istreambuf_iterator<char>(in)), {}); MC_CHECK(c, got == whole.str(), "the file is not what a string stream receives");
}
// the stream helpers for single knot vectors and points
static void helpers(Ctx& c)
{
    static const std::vector<Dv> ks{{0, 0, 1, 1}, {0, 0, 0, 0.25, 0.5, 1, 1, 1}, fam_large({2}, {33})[1].U};
    bool read = c.flip("read"), pt = c.flip("point"); int i = c.choose(3, "item"); libnurbs::KnotVector kv; kv.Values() = ks[i]; Vec4 q = curves()[2].ControlPoints[i];
    std::string all; if (pt) for (int d = 0; d < 4; ++d) put(all, q[d]); else put_knots(all, ks[i]);
    c.shard(); int cut = c.choose((int)all.size() + 1, "bytes"); bool th; c.step(); c.state(mc::mix(hash(ks[i]), cut * 4 + read * 2 + pt));
    if (read)
    {
        std::stringstream in(all.substr(0, cut)); libnurbs::KnotVector g; if (c.flip("used receiver")) g.Values() = ks[2 - i]; Vec4 h{1, 2, 3, 4};
        th = throws([&] { if (pt) libnurbs::Utils::ReadVec4FromStream(h, in); else libnurbs::Utils::ReadKnotVectorFromStream(g, in); });
        if (cut == (int)all.size()) MC_CHECK(c, !th && (pt ? bits(h, q) : bits(g.Values(), ks[i])), "a complete %s was not read correctly", pt ? "point" : "knot vector");
        else MC_CHECK(c, th, "%d of %zu bytes of a %s were read without an exception", cut, all.size(), pt ? "point" : "knot vector");
        return;
    }
    FaultBuf fb(cut, false); std::ostream os(&fb);
    th = throws([&] { if (pt) libnurbs::Utils::WriteVec4ToStream(q, os); else libnurbs::Utils::WriteKnotVectorToStream(kv, os); });
    MC_CHECK(c, th == (cut < (int)all.size()), "writing a %s to a device that takes %d of %zu bytes %s", pt ? "point" : "knot vector", cut, all.size(), th ? "threw" : "reported success");
}
std::vector<mc::Body> mc::bodies() { return {{"write_faults", write_faults}, {"truncations", truncations}, {"paths", paths}, {"full_disk", full_disk}, {"helpers", helpers}}; }
