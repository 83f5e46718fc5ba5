#include "gen.hpp"
using namespace gen;
using libnurbs::Grid;
const char* mc::PROPERTY = "C24";

template <class T> T make(int id);
template <> int make<int>(int id) { return id; }
template <> Vec4 make<Vec4>(int id) { return Vec4(id, id * 0.5, -id, id == 0 ? 0.0 : 1.0 / id); }
template <> std::string make<std::string>(int id) { return id == 0 ? std::string() : std::string(30, 'a' + id % 26) + std::to_string(id); }
template <> std::vector<int> make<std::vector<int>>(int id) { return id == 0 ? std::vector<int>() : std::vector<int>{id, id + 1, id + 2}; }

struct Model
{
    int nu, nv; std::vector<int> e; // e[v * nu + u]
    int& at(int u, int v) { return e[v * nu + u]; }
    void insert_u(int k, int id) { std::vector<int> r; for (int v = 0; v < nv; ++v) for (int u = 0; u <= nu; ++u) r.push_back(u < k ? at(u, v) : u == k ? id : at(u - 1, v)); ++nu; e = r; }
    void insert_v(int k, int id) { std::vector<int> r; for (int v = 0; v <= nv; ++v) for (int u = 0; u < nu; ++u) r.push_back(v < k ? at(u, v) : v == k ? id : at(u, v - 1)); ++nv; e = r; }
    uint64_t hash() const { uint64_t h = mc::mix(nu, nv); for (int x : e) h = mc::mix(h, x); return h; }
};
template <class T> void verify(Ctx& c, const Grid<T>& g, Model& m, const char* when)
{
    MC_CHECK(c, g.UCount == m.nu && g.VCount == m.nv, "%s: grid is %dx%d, expected %dx%d", when, g.UCount, g.VCount, m.nu, m.nv);
    MC_CHECK(c, (int)g.Values.size() == m.nu * m.nv && g.Count() == m.nu * m.nv, "%s: %zu elements, count %d, in a %dx%d grid", when, g.Values.size(), g.Count(), m.nu, m.nv);
    for (int v = 0; v < m.nv; ++v) for (int u = 0; u < m.nu; ++u)
    {
        MC_CHECK(c, g.Get(u, v) == make<T>(m.at(u, v)), "%s: element (%d, %d) of the %dx%d grid is not the expected one (id %d)", when, u, v, m.nu, m.nv, m.at(u, v));
        MC_CHECK(c, const_cast<Grid<T>&>(g).Get(u, v) == make<T>(m.at(u, v)), "%s: mutable access (%d, %d) differs", when, u, v);
    }
    for (int u = 0; u < m.nu; ++u) { auto r = g.GetU(u); MC_CHECK(c, (int)r.size() == m.nv, "%s: GetU(%d) has %zu elements", when, u, r.size()); for (int v = 0; v < m.nv; ++v) MC_CHECK(c, r[v] == make<T>(m.at(u, v)), "%s: GetU(%d)[%d] is wrong", when, u, v); }
    for (int v = 0; v < m.nv; ++v) { auto r = g.GetV(v); MC_CHECK(c, (int)r.size() == m.nu, "%s: GetV(%d) has %zu elements", when, v, r.size()); for (int u = 0; u < m.nu; ++u) MC_CHECK(c, r[u] == make<T>(m.at(u, v)), "%s: GetV(%d)[%d] is wrong", when, v, u); }
    c.step(2 + m.nu * m.nv + m.nu + m.nv);
}
template <class T> void histories(Ctx& c)
{
    int maxdim = (std::is_same_v<T, int> ? 3 : 2) + (c.thorough ? 1 : 0);
    int nu = c.range(1, maxdim, "u count"), nv = c.range(1, maxdim, "v count"); int next = 1; c.shard(); c.clear_expanded();
    Model m{nu, nv, {}}; for (int i = 0; i < nu * nv; ++i) m.e.push_back(0);
    Grid<T> g(nu, nv);
    if constexpr (!std::is_same_v<T, Vec4>) if (c.fresh()) verify(c, g, m, "new grid"); // Vec4 elements start uninitialised
    { Grid<T> f(nu, nv, make<T>(7)); Model fm = m; for (int& x : fm.e) x = 7; if (c.fresh()) verify(c, f, fm, "filled grid"); }
    for (int v = 0; v < nv; ++v) for (int u = 0; u < nu; ++u) { g.Get(u, v) = make<T>(next); m.at(u, v) = next++; }
    if (c.fresh()) verify(c, g, m, "initial writes");
    c.log("grid %dx%d", nu, nv);
    int depth = c.thorough ? 4 : 3;
    for (int s = 0; s < depth; ++s)
    {
        c.prune_if_seen(m.hash(), depth - s);
        int op = c.choose(8, "op");
        char what[200] = "";
        switch (op)
        {
        case 0: return;
        case 1: { int u = c.choose(m.nu, "u"), v = c.choose(m.nv, "v"); snprintf(what, 200, "write (%d, %d)", u, v); g.Get(u, v) = make<T>(next); m.at(u, v) = next++; break; }
        case 2: { int u = c.choose(m.nu, "u"); snprintf(what, 200, "SetU %d", u); std::vector<T> r; for (int v = 0; v < m.nv; ++v) { r.push_back(make<T>(next)); m.at(u, v) = next++; } { auto was = r; g.SetU(u, r); MC_CHECK(c, r == was, "SetU changed the list given"); } break; }
        case 3: { int v = c.choose(m.nv, "v"); snprintf(what, 200, "SetV %d", v); std::vector<T> r; for (int u = 0; u < m.nu; ++u) { r.push_back(make<T>(next)); m.at(u, v) = next++; } { auto was = r; g.SetV(v, r); MC_CHECK(c, r == was, "SetV changed the list given"); } break; }
        case 4:
        case 5:
        {
            bool inu = op == 4; int k = c.choose(inu ? m.nu : m.nv, "position"); int n = m.nu * m.nv;
            // fill: fresh value, omitted, or any element of the grid itself
            int last = s + 1 == depth && !c.thorough;
            std::vector<int> alias; if (last) { alias = {0}; if (n > 1) alias.push_back(n - 1); if (n > 2) alias.push_back(std::min(n - 1, inu ? k : k * m.nu)); } else for (int i = 0; i < n; ++i) alias.push_back(i);
            int f = c.choose(2 + (int)alias.size(), "fill"); snprintf(what, 200, "%s at %d fill %s %d", inu ? "InsertU" : "InsertV", k, f == 0 ? "value" : f == 1 ? "default" : "element", f < 2 ? 0 : alias[f - 2]);
            if (f == 0) { T x = make<T>(next); if (inu) g.InsertU(k, x), m.insert_u(k, next); else g.InsertV(k, x), m.insert_v(k, next); ++next; MC_CHECK(c, x == make<T>(next - 1), "%s: the fill value was modified", what); }
            else if (f == 1) { if constexpr (std::is_same_v<T, Vec4>) { Vec4 z = make<Vec4>(0); if (inu) g.InsertU(k, z), m.insert_u(k, 0); else g.InsertV(k, z), m.insert_v(k, 0); } else { if (inu) g.InsertU(k), m.insert_u(k, 0); else g.InsertV(k), m.insert_v(k, 0); } }
            else { int i = alias[f - 2], id = m.e[i]; if (inu) g.InsertU(k, g.Values[i]), m.insert_u(k, id); else g.InsertV(k, g.Values[i]), m.insert_v(k, id); }
            break;
        }
        case 6: { int a = c.choose(m.nu, "from"), b = c.choose(m.nu, "to"); snprintf(what, 200, "SetU(%d, GetU(%d))", b, a); g.SetU(b, g.GetU(a)); for (int v = 0; v < m.nv; ++v) m.at(b, v) = m.at(a, v); break; }
        default: { int a = c.choose(m.nv, "from"), b = c.choose(m.nv, "to"); snprintf(what, 200, "SetV(%d, GetV(%d)), copy", b, a); g.SetV(b, g.GetV(a)); for (int u = 0; u < m.nu; ++u) m.at(u, b) = m.at(u, a); Grid<T> h = g; h.Get(0, 0) = make<T>(999); Grid<T> h2 = g; g = std::move(h2); break; }
        }
        c.log("%s", what); c.step(); c.state(m.hash());
        if (c.fresh()) verify(c, g, m, what);
    }
}
// larger grids, every single insertion
template <class T> void large(Ctx& c)
{
    int nu = c.range(1, c.thorough ? 10 : 7, "u count"), nv = c.range(1, c.thorough ? 10 : 7, "v count"); c.shard(); bool inu = c.flip("in u"); int k = c.choose(inu ? nu : nv, "position"); int f = c.choose(nu * nv + 1, "fill");
    Grid<T> g(nu, nv); Model m{nu, nv, {}}; for (int i = 0; i < nu * nv; ++i) m.e.push_back(i + 1);
    for (int v = 0; v < nv; ++v) for (int u = 0; u < nu; ++u) g.Get(u, v) = make<T>(m.at(u, v));
    c.log("%dx%d %s at %d fill %d", nu, nv, inu ? "InsertU" : "InsertV", k, f);
    if (f == nu * nv) { if (inu) g.InsertU(k, make<T>(500)), m.insert_u(k, 500); else g.InsertV(k, make<T>(500)), m.insert_v(k, 500); }
    else { if (inu) g.InsertU(k, g.Values[f]), m.insert_u(k, f + 1); else g.InsertV(k, g.Values[f]), m.insert_v(k, f + 1); }
    c.step(); c.state(m.hash()); verify(c, g, m, "insertion");
}
// long thin and big square grids
template <class T> void huge(Ctx& c)
{
    static const std::vector<std::pair<int, int>> D{{40, 3}, {3, 40}, {33, 17}, {16, 65}, {1, 130}, {130, 1}, {100, 20}, {257, 2}, {2, 257}, {260, 260}}; auto [nu, nv] = c.pick(D, "size"); bool inu = c.flip("in u"); int n = inu ? nu : nv;
    std::vector<int> ks{0, 1, 7, 8, 15, 16, 31, 32, n / 2, n - 2, n - 1}; int k = c.pick(ks, "position"); int f = c.choose(4, "fill"); c.shard(); if (k < 0 || k >= n) return;
    Grid<T> g(nu, nv); Model m{nu, nv, {}}; for (int i = 0; i < nu * nv; ++i) m.e.push_back(i + 1);
    for (int v = 0; v < nv; ++v) for (int u = 0; u < nu; ++u) g.Get(u, v) = make<T>(m.at(u, v));
    c.log("%dx%d %s at %d fill %d", nu, nv, inu ? "InsertU" : "InsertV", k, f); const int at[] = {-1, 0, nu * nv / 2 + 1 < nu * nv ? nu * nv / 2 + 1 : 0, nu * nv - 1};
    for (int twice = 0; twice < 2; ++twice)
    {
        if (f == 0) { if (inu) g.InsertU(k, make<T>(5000 + twice)), m.insert_u(k, 5000 + twice); else g.InsertV(k, make<T>(5000 + twice)), m.insert_v(k, 5000 + twice); }
        else { int id = m.e[at[f]]; if (inu) g.InsertU(k, g.Values[at[f]]), m.insert_u(k, id); else g.InsertV(k, g.Values[at[f]]), m.insert_v(k, id); }
        c.step(); c.state(m.hash()); verify(c, g, m, "insertion");
    }
    std::vector<T> r; if (inu) { for (int v = 0; v < m.nv; ++v) { r.push_back(make<T>(7000 + v)); m.at(k, v) = 7000 + v; } g.SetU(k, r); } else { for (int u = 0; u < m.nu; ++u) { r.push_back(make<T>(7000 + u)); m.at(u, k) = 7000 + u; } g.SetV(k, r); }
    c.step(); verify(c, g, m, "row or column write");
}
std::vector<mc::Body> mc::bodies()
{
    return {{"int", histories<int>}, {"Vec4", histories<Vec4>}, {"string", histories<std::string>}, {"vector", histories<std::vector<int>>}, {"large_string", large<std::string>}, {"large_Vec4", large<Vec4>}, {"huge_int", huge<int>}, {"huge_Vec4", huge<Vec4>}, {"huge_string", huge<std::string>}};
}
