#include "gen.hpp"
using namespace gen;
const char* mc::PROPERTY = "C20";
using libnurbs::BoundingBox;

struct Model { double lo[3], hi[3]; };
static uint64_t hash(const Model& m) { uint64_t h = 3; for (int d = 0; d < 3; ++d) { h = mc::mixd(h, m.lo[d]); h = mc::mixd(h, m.hi[d]); } return h; }
static const std::vector<Vec3>& points()
{
    static const std::vector<Vec3> v{{0, 0, 0}, {1, 2, 3}, {-1, 0.5, 2}, {4, -3, 0.25}, {0.5, 5, -7}, {-2, -2, -2}, {1e9, -1e-9, 0}};
    return v;
}
static Model span(const Vec3& a, const Vec3& b) { Model m; for (int d = 0; d < 3; ++d) { m.lo[d] = std::min(a[d], b[d]); m.hi[d] = std::max(a[d], b[d]); } return m; }
static bool in(const Model& m, const Vec3& p) { for (int d = 0; d < 3; ++d) if (p[d] < m.lo[d] || p[d] > m.hi[d]) return false; return true; }
static bool in(const Model& m, const Model& q) { for (int d = 0; d < 3; ++d) if (q.lo[d] < m.lo[d] || q.hi[d] > m.hi[d]) return false; return true; }
static void verify(Ctx& c, const BoundingBox& b, const Model& m, const char* when)
{
    auto B = [&] { return str(Vec3(b.Min)) + "-" + str(Vec3(b.Max)); };
    for (int d = 0; d < 3; ++d) MC_CHECK(c, b.Min[d] == m.lo[d] && b.Max[d] == m.hi[d], "%s: box is %s, expected [%g,%g]x[%g,%g]x[%g,%g]", when, B().c_str(), m.lo[0], m.hi[0], m.lo[1], m.hi[1], m.lo[2], m.hi[2]);
    Vec3 ctr = b.Center(), len = b.Length(); double vol = b.Volume(), want = 1; c.step(3);
    for (int d = 0; d < 3; ++d)
    {
        double L = m.hi[d] - m.lo[d]; want *= L;
        MC_CHECK(c, std::fabs(ctr[d] - (m.lo[d] + m.hi[d]) / 2) <= 4e-15 * (std::fabs(m.lo[d]) + std::fabs(m.hi[d])), "%s: box %s, centre %s", when, B().c_str(), str(ctr).c_str());
        MC_CHECK(c, std::fabs(len[d] - L) <= 4e-15 * (std::fabs(m.lo[d]) + std::fabs(m.hi[d])), "%s: box %s, lengths %s", when, B().c_str(), str(len).c_str());
    }
    MC_CHECK(c, std::fabs(vol - want) <= 1e-13 * std::fabs(want), "%s: box %s, volume %.17g, expected %.17g", when, B().c_str(), vol, want);
    // containment: the corner/edge/face/outside lattice around the box
    for (int i = 0; i < 125; ++i)
    {
        Vec3 p; int k[3] = {i % 5, i / 5 % 5, i / 25};
        for (int d = 0; d < 3; ++d) p[d] = k[d] == 0 ? std::nextafter(m.lo[d], -INFINITY) : k[d] == 1 ? m.lo[d] : k[d] == 2 ? m.lo[d] / 2 + m.hi[d] / 2 : k[d] == 3 ? m.hi[d] : std::nextafter(m.hi[d], INFINITY);
        MC_CHECK(c, b.Contains(p) == in(m, p), "%s: box %s %s point %s", when, B().c_str(), in(m, p) ? "does not contain" : "contains", str(p).c_str()); c.step();
    }
    for (auto& p : points()) for (auto& q : points())
    {
        Model o = span(p, q); BoundingBox ob(p, q);
        MC_CHECK(c, b.Contains(ob) == in(m, o), "%s: box %s %s the box %s/%s", when, B().c_str(), in(m, o) ? "does not contain" : "contains", str(p).c_str(), str(q).c_str()); c.step(2);
    }
}
static void histories(Ctx& c)
{
    auto& P = points(); int n = (int)P.size();
    int i = c.choose(n, "corner"), j = c.choose(n, "corner"); c.shard(); c.clear_expanded();
    BoundingBox b(P[i], P[j]); Model m = span(P[i], P[j]); c.step(); c.state(hash(m)); c.log("box %s %s", str(P[i]).c_str(), str(P[j]).c_str());
    if (c.fresh()) verify(c, b, m, "constructed");
    int depth = c.thorough ? 4 : 3;
    for (int s = 0; s < depth; ++s)
    {
        c.prune_if_seen(hash(m), depth - s);
        int op = c.choose(1 + n + n * n + 1, "op");
        if (op == 0) return;
        --op;
        if (op < n) { c.log("expand by %s", str(P[op]).c_str()); b.ExpandToInclude(P[op]); Model o = span(P[op], P[op]); for (int d = 0; d < 3; ++d) { m.lo[d] = std::min(m.lo[d], o.lo[d]); m.hi[d] = std::max(m.hi[d], o.hi[d]); } }
        else if (op < n + n * n) { op -= n; BoundingBox o(P[op / n], P[op % n]); Model om = span(P[op / n], P[op % n]); c.log("expand by box %s %s", str(P[op / n]).c_str(), str(P[op % n]).c_str()); b.ExpandToInclude(o); for (int d = 0; d < 3; ++d) { m.lo[d] = std::min(m.lo[d], om.lo[d]); m.hi[d] = std::max(m.hi[d], om.hi[d]); } }
        else { c.log("expand by itself, its own corner, copy"); b.ExpandToInclude(b); b.ExpandToInclude(b.Max); b.ExpandToInclude(b.Min); BoundingBox q = b; b = q; }
        c.step(); c.state(hash(m));
        if (c.fresh()) verify(c, b, m, "after expansion");
    }
}
// values close to each other and of extreme magnitude: every pair of corners, every expansion, every second expansion
static void close_values(Ctx& c)
{
    static const Dv X{0, 1e-15, -1e-15, 1, std::nextafter(1.0, 2.0), 1 - 1e-9, 1 + 1e-6, 1e60, -1e60, -1e-60}; int n = (int)X.size();
    auto P = [&](int i, int k) { return Vec3(X[i % n], X[(i * 3 + k) % n], X[(i * 7 + 2 * k) % n]); };
    int i = c.choose(n, "corner"), j = c.choose(n, "corner"); c.shard(); int k = c.choose(2, "set"), a = c.choose(n, "expansion"), b = c.choose(n, "expansion"); bool box = c.flip("by box");
    BoundingBox x(P(i, k), P(j, k)); Model m = span(P(i, k), P(j, k)); c.step(); c.log("box %s %s then %s, %s", str(P(i, k)).c_str(), str(P(j, k)).c_str(), str(P(a, k)).c_str(), str(P(b, k)).c_str());
    auto grow = [&](const Model& o) { for (int d = 0; d < 3; ++d) { m.lo[d] = std::min(m.lo[d], o.lo[d]); m.hi[d] = std::max(m.hi[d], o.hi[d]); } };
    if (box) { x.ExpandToInclude(BoundingBox(P(a, k), P(b, k))); grow(span(P(a, k), P(b, k))); }
    else { x.ExpandToInclude(P(a, k)); x.ExpandToInclude(P(b, k)); grow(span(P(a, k), P(b, k))); }
    c.step(2); c.state(hash(m)); verify(c, x, m, "after expansion");
}
static void fresh_box(Ctx& c)
{
    BoundingBox b; Model m = span(Vec3::Zero(), Vec3::Zero()); c.state(hash(m)); verify(c, b, m, "default");
    int k = c.choose((int)points().size(), "point"); b.ExpandToInclude(points()[k]); Model o = span(Vec3::Zero(), points()[k]); c.step(); c.state(hash(o)); verify(c, b, o, "default expanded");
}
std::vector<mc::Body> mc::bodies() { return {{"histories", histories}, {"default", fresh_box}, {"close_values", close_values}}; }
