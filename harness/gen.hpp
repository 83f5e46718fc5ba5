// Closed-world input domains shared by the harnesses: every function enumerates a finite
// alphabet through Ctx::choose.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <libnurbs/libnurbs.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <sstream>
#include "mc.hpp"
#include "ref.hpp"

namespace gen
{
    using libnurbs::Vec3;
    using libnurbs::Vec4;
    using mc::Ctx;
    using Dv = std::vector<double>;

    inline std::string str(const Dv& v)
    {
        std::string s = "["; char b[40];
        for (size_t i = 0; i < v.size(); ++i) { snprintf(b, 40, "%s%.17g", i ? ", " : "", v[i]); s += b; }
        return s + "]";
    }
    inline std::string str(const Vec4& p) { char b[160]; snprintf(b, 160, "(%.17g, %.17g, %.17g; w=%.17g)", p.x(), p.y(), p.z(), p.w()); return b; }
    inline std::string str(const Vec3& p) { char b[160]; snprintf(b, 160, "(%.17g, %.17g, %.17g)", p.x(), p.y(), p.z()); return b; }
    inline std::string str(const libnurbs::Curve& c)
    {
        std::string s = "Curve p=" + std::to_string(c.Degree) + " knots=" + str(c.Knots.Values()) + " points={";
        for (auto& p : c.ControlPoints) s += str(p) + " ";
        return s + "}";
    }
    inline std::string str(const libnurbs::Surface& c)
    {
        std::string s = "Surface p=" + std::to_string(c.DegreeU) + "," + std::to_string(c.DegreeV) + " U=" + str(c.KnotsU.Values()) + " V=" + str(c.KnotsV.Values()) +
            " grid " + std::to_string(c.ControlPoints.UCount) + "x" + std::to_string(c.ControlPoints.VCount) + " {";
        for (auto& p : c.ControlPoints.Values) s += str(p) + " ";
        return s + "}";
    }

    // Clamped knot vectors on [0,1]: every subset of the value grid with at most `max_distinct`
    // members, every multiplicity 1..p for each.
    inline Dv knots(Ctx& c, int p, const Dv& grid, int max_distinct, int max_mult = 99)
    {
        Dv U(p + 1, 0.0);
        int used = 0; size_t start = 0;
        while (used < max_distinct)
        {
            int left = (int)(grid.size() - start);
            if (left == 0) break;
            int k = c.choose(left + 1, "next-knot"); // 0: stop
            if (k == 0) break;
            int mult = c.range(1, std::min(p, max_mult), "multiplicity");
            for (int i = 0; i < mult; ++i) U.push_back(grid[start + k - 1]);
            start += k; ++used;
        }
        U.insert(U.end(), p + 1, 1.0);
        return U;
    }
    inline const Dv& grid_even() { static const Dv g{0.25, 0.5, 0.75}; return g; }
    inline const Dv& grid_odd() { static const Dv g{0.1, 0.37, 0.625, 0.9}; return g; }

    // ---- families beyond the small alphabets: many spans, close knots, high degree -------------
    struct Fam { int p; Dv U; };
    // many spans: even, uneven, and with every third knot double and every seventh of full multiplicity
    inline std::vector<Fam> fam_large(const std::vector<int>& degrees, const std::vector<int>& spans)
    {
        std::vector<Fam> r;
        for (int p : degrees) for (int n : spans) for (int pat = 0; pat < 3; ++pat)
        {
            Dv U(p + 1, 0.0);
            for (int i = 1; i < n; ++i)
            {
                double x = double(i) / n; if (pat) x = x + 0.3 / n * ((i * 7) % 3 - 1);
                int m = pat == 2 ? (i % 7 == 0 ? p : i % 3 == 0 ? std::min(2, p) : 1) : 1;
                U.insert(U.end(), m, x);
            }
            U.insert(U.end(), p + 1, 1.0); r.push_back({p, U});
        }
        return r;
    }
    // close knots: gaps g at the ends, in the middle, in pairs and triples, next to multiple knots
    inline std::vector<Fam> fam_tight(const std::vector<int>& degrees, const Dv& gaps)
    {
        std::vector<Fam> r;
        for (int p : degrees) for (double g : gaps)
        {
            int m2 = std::min(2, p);
            std::vector<std::vector<std::pair<double, int>>> sets{
                {{g, 1}}, {{1 - g, 1}}, {{0.5, 1}, {0.5 + g, 1}}, {{0.3, 1}, {0.3 + g, 1}, {0.3 + 2 * g, 1}}, {{0.5 - g, m2}, {0.5, 1}, {0.7, 1}},
                {{g, m2}, {0.4, 1}, {1 - g, p}}, {{0.25, 1}, {0.5, p}, {0.5 + g, 1}, {0.75, 1}}};
            for (auto& s : sets)
            {
                Dv U(p + 1, 0.0); for (auto& [x, m] : s) U.insert(U.end(), m, x);
                U.insert(U.end(), p + 1, 1.0); r.push_back({p, U});
            }
        }
        return r;
    }
    inline std::vector<Fam> fam_high(int lo, int hi)
    {
        std::vector<Fam> r;
        for (int p = lo; p <= hi; ++p)
        {
            std::vector<std::vector<std::pair<double, int>>> sets{{}, {{0.5, 1}}, {{0.3, p / 2}, {0.6, 1}}, {{0.25, 1}, {0.5, p}, {0.8, 2}}, {{0.4, p - 1}}};
            for (auto& s : sets)
            {
                Dv U(p + 1, 0.0); for (auto& [x, m] : s) U.insert(U.end(), m, x);
                U.insert(U.end(), p + 1, 1.0); r.push_back({p, U});
            }
        }
        return r;
    }
    // more members than fit into 8 or 16 bit counters
    inline Fam huge(int p, int n, int pat = 1) { return fam_large({p}, {n})[pat]; }
    inline const std::vector<int>& huge_sizes() { static const std::vector<int> v{250, 256, 300, 1030, 33000, 66000}; return v; }
    // (spans in u, spans in v); the last has more points than 16 bits count
    inline const std::vector<std::pair<int, int>>& huge_grids() { static const std::vector<std::pair<int, int>> v{{130, 1}, {1, 130}, {257, 1}, {1, 257}, {300, 3}, {2, 300}, {260, 260}}; return v; }
    inline std::vector<Fam> operator+(std::vector<Fam> a, const std::vector<Fam>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

    // Control points. Styles: 0 generic, 1 collinear, 2 partly coincident, 3 large and far off,
    // 4 tiny, 5 generic second set (negative, all three coordinates active)
    inline Vec3 point(int style, int i, int j = 0)
    {
        static const double a[] = {0.0, 1.25, -0.75, 2.5, 0.5, -1.5, 3.0, 1.75, -2.25, 0.875, 2.125, -0.375, 1.0, -3.5, 2.75, 0.25};
        static const double b[] = {0.5, -1.0, 2.0, 0.25, -2.5, 1.5, 0.75, -0.125, 3.25, -1.75, 0.0, 2.25, -3.0, 1.125, -0.625, 2.625};
        auto A = [&](int k) { return a[((k % 16) + 16) % 16]; };
        auto B = [&](int k) { return b[((k % 16) + 16) % 16]; };
        switch (style)
        {
        case 0: return {A(i) + 0.5 * j, B(i + 3 * j) + 0.25 * i, A(2 * i + 5 * j + 1) * 0.5 + B(j)};
        case 1: return {1.0 + 0.5 * i + 2.0 * j, -2.0 + 1.5 * i - 1.0 * j, 0.25 * i + 0.5 * j};
        case 2: return {A((i / 2) + j), B(i / 2 + 2 * j), 1.0};
        case 3: return {1e5 + 1e4 * A(i + j), -3e5 + 1e4 * B(i + 2 * j), 1e4 * A(3 * i + 1 + j)};
        case 4: return {1e-4 * A(i + 2 * j), 1e-4 * B(i + j), 1e-4 * A(5 * i + 2 + j)};
        case 6: return {1e10 * A(i + j), 1e10 * B(i + 2 * j), 1e10 * A(3 * i + 1 + j)};
        case 8: return {1e-20 * A(i + 2 * j), 1e-20 * B(i + j), 1e-20 * A(5 * i + 2 + j)};
        case 9: return {0.5 * A(i + j), 100 + 40 * B(i + 2 * j), A(3 * i + 1 + j)};      // far off in y
        case 10: return {0.5 * A(i + j), B(i + 2 * j), -500 + 90 * A(3 * i + 1 + j)};    // far off in z
        case 7: return {1e-9 * A(i + 2 * j), 1e-9 * B(i + j), 1e-9 * A(5 * i + 2 + j)};
        default: return {-B(i + 7 * j + 4), A(3 * i + j + 2) - 1.0, B(5 * i + j) + 0.3 * j};
        }
    }
    // Weights. 0: all 1; 1: all 2.5; 2: varying moderate; 3: varying, some below 1; 4: one large,
    // 5: one small; 6: wide varying
    inline double weight(int style, int i, int j = 0)
    {
        static const double a[] = {1.0, 2.0, 0.5, 1.5, 3.0, 0.75, 1.25, 0.25, 2.5, 1.0, 0.625, 1.75};
        int k = i + 5 * j;
        switch (style)
        {
        case 0: return 1.0;
        case 1: return 2.5;
        case 2: return a[k % 12];
        case 3: return 0.2 + 0.1 * ((k * 3) % 7);
        case 4: return k == 1 ? 50.0 : 1.0;
        case 5: return k == 1 ? 0.02 : 1.0;
        case 7: return 1.0 + 1e-10 * (k % 5);                      // nearly equal
        case 8: return k == 2 ? std::nextafter(1.0, 2.0) : 1.0;    // one unit in the last place
        case 9: return 1e-9 * a[k % 12];                           // all tiny
        case 10: return 1e9 * a[k % 12];                           // all huge
        case 11: { static const double e[] = {1.0, 1e3, 1e-3, 1e2, 1e-2}; return e[k % 5]; }
        case 12: return 1e-9;                                      // equal and tiny
        default: return 1.0 + ((k * 5) % 11);
        }
    }
    inline libnurbs::Curve curve(int p, const Dv& U, int ps, int wsty)
    {
        libnurbs::Curve c; c.Degree = p; c.Knots.Values() = U;
        int n = (int)U.size() - p - 1;
        for (int i = 0; i < n; ++i) { Vec3 q = point(ps, i); c.ControlPoints.push_back({q.x(), q.y(), q.z(), weight(wsty, i)}); }
        return c;
    }
    inline libnurbs::Surface surface(int p, int q, const Dv& U, const Dv& V, int ps, int wsty)
    {
        libnurbs::Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU.Values() = U; s.KnotsV.Values() = V;
        int nu = (int)U.size() - p - 1, nv = (int)V.size() - q - 1;
        s.ControlPoints.UCount = nu; s.ControlPoints.VCount = nv; s.ControlPoints.Values.resize(nu * nv);
        for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i)
        { Vec3 x = point(ps, i, j); s.ControlPoints.Values[j * nu + i] = Vec4{x.x(), x.y(), x.z(), weight(wsty, i, j)}; }
        return s;
    }
    // ---- nets with a particular shape: coincident, symmetric, flat, closed, degenerate points and weight patterns
    constexpr int CURVE_KINDS = 17, SURFACE_KINDS = 31;
    inline libnurbs::Curve special(libnurbs::Curve k, int kind)
    {
        auto& P = k.ControlPoints; const int n = (int)P.size(); auto at = [](Vec4& a, const Vec3& x) { a.head<3>() = x; };
        const Vec3 A = P[0].head<3>(), B = P[1].head<3>(), Z = P[n - 1].head<3>(); const int m = n / 2;
        switch (kind)
        {
        case 0: for (auto& p : P) at(p, B); break;                                  // one point, any weights
        case 1: at(P[n - 1], A); break;                                             // closed
        case 2: at(P[1], A); break;                                                 // double ends
        case 3: at(P[n - 2], Z); break;
        case 4: at(P[m], P[m - 1].head<3>()); break;
        case 5: at(P[m], Vec3::Zero()); break;                                      // a point at the origin
        case 6: for (auto& p : P) p.z() = 0; break;                                 // flat
        case 7: for (auto& p : P) p.y() = p.z() = 0; break;                         // on an axis
        case 8: for (int i = 0; i < m; ++i) { P[n - 1 - i] = P[i]; P[n - 1 - i].x() = -P[i].x(); } break; // symmetric
        case 9: at(P[m], Vec3(1e3, -1e3, 1e3)); break;                              // outlier
        case 10: for (auto& p : P) p.w() = 0.7; P[0].w() = P[n - 1].w() = 1; break; // weights of an arc
        case 11: for (auto& p : P) p.w() = 1; P[n - 1].w() = 2; break;
        case 12: for (auto& p : P) p.w() = 1; P[0].w() = 2; break;
        case 13: for (int i = 0; i < n; ++i) at(P[i], i % 2 ? B : A); break;        // to and fro
        case 14: for (auto& p : P) at(p, Vec3::Zero()); break;
        case 15: for (int i = 0; i < n; ++i) P[i].w() = P[0].w() * (1 + i); break;  // weights in proportion, points as they are
        default: for (int i = 0; i < n; ++i) P[i] = Vec4{-P[i].x(), -std::fabs(P[i].y()), -0.0, 1.0}; break; // negative and signed zero
        }
        return k;
    }
    inline libnurbs::Surface special(libnurbs::Surface k, int kind)
    {
        auto& G = k.ControlPoints; const int nu = G.UCount, nv = G.VCount; auto P = [&](int i, int j) -> Vec4& { return G.Values[j * nu + i]; };
        auto at = [](Vec4& a, Vec3 x) { a.head<3>() = x; };
        auto row = [&](int j) { Vec3 x = P(0, j).head<3>(); for (int i = 0; i < nu; ++i) at(P(i, j), x); };
        auto col = [&](int i) { Vec3 x = P(i, 0).head<3>(); for (int j = 0; j < nv; ++j) at(P(i, j), x); };
        switch (kind)
        {
        case 0: row(0); break;            // poles: a row or column collapsed, weights unequal
        case 1: row(nv - 1); break;
        case 2: row(nv / 2); break;
        case 3: col(0); break;
        case 4: col(nu - 1); break;
        case 5: col(nu / 2); break;
        case 6: row(0); row(nv - 1); break;
        case 7: col(0); col(nu - 1); break;
        case 8: for (auto& p : G.Values) at(p, P(1, 1).head<3>()); break;
        case 9: for (auto& p : G.Values) at(p, Vec3::Zero()); break;
        case 10: for (int i = 0; i < nu; ++i) P(i, nv - 1) = P(i, 0); break;                       // closed
        case 11: for (int j = 0; j < nv; ++j) P(nu - 1, j) = P(0, j); break;
        case 12: for (int i = 0; i < nu; ++i) at(P(i, nv - 1), P(i, 0).head<3>()); break;          // closed, weights differ
        case 13: for (int j = 0; j < nv; ++j) at(P(nu - 1, j), P(0, j).head<3>()); break;
        case 14: for (auto& p : G.Values) p.z() = 0; break;                                        // flat
        case 15: for (auto& p : G.Values) p.x() = 0; break;
        case 16: for (int j = 1; j < nv; ++j) for (int i = 0; i < nu; ++i) P(i, j) = P(i, 0); break; // equal rows, equal columns
        case 17: for (int i = 1; i < nu; ++i) for (int j = 0; j < nv; ++j) P(i, j) = P(0, j); break;
        case 18: for (int j = 1; j < nv; ++j) for (int i = 0; i < nu; ++i) at(P(i, j), P(i, 0).head<3>()); break;
        case 19: for (int i = 1; i < nu; ++i) for (int j = 0; j < nv; ++j) at(P(i, j), P(0, j).head<3>()); break;
        case 20: at(P(nu / 2, nv / 2), Vec3(1e3, -1e3, 1e3)); break;
        case 21: for (auto& p : G.Values) p.w() = 1; P(0, 0).w() = 2; break;                       // one weight differs
        case 22: for (auto& p : G.Values) p.w() = 1; P(nu - 1, 0).w() = 2; break;
        case 23: for (auto& p : G.Values) p.w() = 1; P(0, nv - 1).w() = 2; break;
        case 24: for (auto& p : G.Values) p.w() = 1; P(nu - 1, nv - 1).w() = 2; break;
        case 25: for (auto& p : G.Values) p.w() = 1; P(nu / 2, nv / 2).w() = 2; break;
        case 26: for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i) P(i, j).w() = (1 + 0.5 * (i % 3)) * (1 + 0.25 * (j % 4)); break; // weights factor
        case 27: for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i) P(i, j).w() = 1 + 0.5 * (i % 3); break;
        case 28: for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i) P(i, j).w() = 1 + 0.5 * (j % 3); break;
        case 29: if (nu > 1) for (int j = 0; j < nv; ++j) at(P(1, j), P(0, j).head<3>()); break;   // double edges
        default: for (int i = 0; i < nu; ++i) at(P(i, 1), P(i, 0).head<3>()); break;
        }
        return k;
    }
    inline libnurbs::Curve special_curve(Ctx& c)
    {
        int p = c.range(1, 3, "degree"); Dv U = knots(c, p, {0.3, 0.7}, 1); int kind = c.choose(CURVE_KINDS, "net"); c.shard();
        static const std::vector<std::pair<int, int>> ST{{5, 2}, {0, 0}, {3, 3}};
        auto [s, w] = c.pick(ST, "style"); return special(curve(p, U, s, w), kind);
    }
    inline libnurbs::Surface special_surface(Ctx& c)
    {
        int p = c.range(1, 3, "degree-u"), q = c.range(1, 3, "degree-v"), kind = c.choose(SURFACE_KINDS, "net"); Dv U = knots(c, p, {0.3}, 1), V = knots(c, q, {0.7}, 1); c.shard();
        static const std::vector<std::pair<int, int>> ST{{5, 2}, {0, 0}};
        auto [s, w] = c.pick(ST, "style"); return special(surface(p, q, U, V, s, w), kind);
    }
    inline ref::Knots lift(const Dv& v) { return ref::Knots(v.begin(), v.end()); }
    inline ref::P4 lift(const Vec4& v) { ref::P4 r; for (int d = 0; d < 4; ++d) r[d] = v[d]; return r; }
    inline ref::Curve lift(const libnurbs::Curve& c)
    {
        ref::Curve r; r.p = c.Degree; r.U = lift(c.Knots.Values());
        for (auto& p : c.ControlPoints) r.P.push_back(lift(p));
        return r;
    }
    inline ref::Surface lift(const libnurbs::Surface& s)
    {
        ref::Surface r; r.p = s.DegreeU; r.q = s.DegreeV; r.U = lift(s.KnotsU.Values()); r.V = lift(s.KnotsV.Values());
        r.nu = s.ControlPoints.UCount; r.nv = s.ControlPoints.VCount;
        for (auto& p : s.ControlPoints.Values) r.P.push_back(lift(p));
        return r;
    }
    inline uint64_t hash(const Dv& v, uint64_t h = 1) { h = mc::mix(h, v.size()); for (double d : v) h = mc::mixd(h, d); return h; }
    inline uint64_t hash(const libnurbs::Curve& c, uint64_t h = 1)
    {
        h = mc::mix(h, c.Degree); h = hash(c.Knots.Values(), h);
        for (auto& p : c.ControlPoints) for (int i = 0; i < 4; ++i) h = mc::mixd(h, p[i]);
        return h;
    }
    inline uint64_t hash(const libnurbs::Surface& s, uint64_t h = 2)
    {
        h = mc::mix(h, mc::mix(s.DegreeU, s.DegreeV)); h = hash(s.KnotsU.Values(), h); h = hash(s.KnotsV.Values(), h);
        h = mc::mix(h, s.ControlPoints.UCount * 1000 + s.ControlPoints.VCount);
        for (auto& p : s.ControlPoints.Values) for (int i = 0; i < 4; ++i) h = mc::mixd(h, p[i]);
        return h;
    }
    inline bool same(const Dv& a, const Dv& b) { return a == b; }
    inline bool same(const libnurbs::Curve& a, const libnurbs::Curve& b)
    {
        if (a.Degree != b.Degree || a.Knots.Values() != b.Knots.Values() || a.ControlPoints.size() != b.ControlPoints.size()) return false;
        for (size_t i = 0; i < a.ControlPoints.size(); ++i) if (a.ControlPoints[i] != b.ControlPoints[i]) return false;
        return true;
    }
    inline bool same(const libnurbs::Surface& a, const libnurbs::Surface& b)
    {
        if (a.DegreeU != b.DegreeU || a.DegreeV != b.DegreeV || a.KnotsU.Values() != b.KnotsU.Values() || a.KnotsV.Values() != b.KnotsV.Values()) return false;
        if (a.ControlPoints.UCount != b.ControlPoints.UCount || a.ControlPoints.VCount != b.ControlPoints.VCount || a.ControlPoints.Values.size() != b.ControlPoints.Values.size()) return false;
        for (size_t i = 0; i < a.ControlPoints.Values.size(); ++i) if (a.ControlPoints.Values[i] != b.ControlPoints.Values[i]) return false;
        return true;
    }

    // Structural well-formedness of a clamped curve / surface.
    inline void well_formed(Ctx& c, const Dv& U, int p, int n, const char* what)
    {
        MC_CHECK(c, p >= 1, "%s: degree %d", what, p);
        MC_CHECK(c, n >= p + 1, "%s: %d control points for degree %d", what, n, p);
        MC_CHECK(c, (int)U.size() == n + p + 1, "%s: %d knots, %d control points, degree %d", what, (int)U.size(), n, p);
        for (size_t i = 1; i < U.size(); ++i) MC_CHECK(c, U[i] >= U[i - 1], "%s: knots decrease at %zu: %s", what, i, str(U).c_str());
        for (int i = 0; i <= p; ++i) MC_CHECK(c, U[i] == 0.0 && U[U.size() - 1 - i] == 1.0, "%s: knot vector not clamped: %s", what, str(U).c_str());
    }
    inline void well_formed(Ctx& c, const libnurbs::Curve& k, const char* what)
    {
        well_formed(c, k.Knots.Values(), k.Degree, (int)k.ControlPoints.size(), what);
        for (auto& p : k.ControlPoints) MC_CHECK(c, p.allFinite() && p.w() > 0, "%s: bad control point %s", what, str(p).c_str());
    }
    inline void well_formed(Ctx& c, const libnurbs::Surface& s, const char* what)
    {
        MC_CHECK(c, (long)s.ControlPoints.Values.size() == (long)s.ControlPoints.UCount * s.ControlPoints.VCount, "%s: grid %dx%d holds %zu points", what, s.ControlPoints.UCount, s.ControlPoints.VCount, s.ControlPoints.Values.size());
        well_formed(c, s.KnotsU.Values(), s.DegreeU, s.ControlPoints.UCount, what);
        well_formed(c, s.KnotsV.Values(), s.DegreeV, s.ControlPoints.VCount, what);
        for (auto& p : s.ControlPoints.Values) MC_CHECK(c, p.allFinite() && p.w() > 0, "%s: bad control point %s", what, str(p).c_str());
    }

    inline Dv thin(const Dv& v, size_t cap)
    {
        if (v.size() <= cap) return v;
        Dv r; for (size_t i = 0; i < cap; ++i) r.push_back(v[i * (v.size() - 1) / (cap - 1)]);
        return r;
    }
    // Parameters worth visiting for a knot vector: ends, every knot, both sides of it, span interior points.
    inline Dv params(const Dv& U, int inner = 3, bool eps = true)
    {
        Dv r;
        for (size_t i = 0; i + 1 < U.size(); ++i)
        {
            if (!(U[i] < U[i + 1])) continue;
            r.push_back(U[i]);
            if (eps) { r.push_back(std::nextafter(U[i], 2.0)); r.push_back(std::min(U[i] + 1e-9, U[i + 1])); r.push_back(std::max(U[i + 1] - 1e-9, U[i])); r.push_back(std::nextafter(U[i + 1], -1.0)); }
            for (int k = 1; k <= inner; ++k) r.push_back(U[i] + (U[i + 1] - U[i]) * k / (inner + 1.0));
        }
        r.push_back(1.0);
        return thin(r, 2500);
    }
    // as params, with offsets of many orders of magnitude from every knot
    inline Dv params_fine(const Dv& U, int inner = 2, int skip = 1)
    {
        Dv r = params(U, inner); int k = 0;
        for (size_t i = 0; i + 1 < U.size(); ++i)
        {
            if (!(U[i] < U[i + 1])) continue;
            if (k++ % skip) continue;
            for (double d : {1e-3, 1e-5, 5e-7, 2e-8, 4e-10, 3e-11, 2e-12, 1e-13})
            { if (U[i] + d < U[i + 1]) r.push_back(U[i] + d); if (U[i + 1] - d > U[i]) r.push_back(U[i + 1] - d); }
        }
        return r;
    }
    inline bool near(const Vec3& a, const ref::D3& b, double rel = 1e-10, double abs = 1e-40)
    {
        for (int d = 0; d < 3; ++d) if (!(std::fabs((ref::R)a[d] - b.v[d]) <= rel * b.mag + abs)) return false;
        return true;
    }
    inline std::string str(const ref::D3& d) { char b[200]; snprintf(b, 200, "(%.17Lg, %.17Lg, %.17Lg)", d.v[0], d.v[1], d.v[2]); return b; }

    // max |control point| scale
    inline double scale(const libnurbs::Curve& c) { double m = 0; for (auto& p : c.ControlPoints) m = std::max(m, p.head<3>().norm()); return m; }
    inline double scale(const libnurbs::Surface& c) { double m = 0; for (auto& p : c.ControlPoints.Values) m = std::max(m, p.head<3>().norm()); return m; }

    inline Dv lower(const ref::Knots& v) { return Dv(v.begin(), v.end()); }
    inline Vec4 lower(const ref::P4& q) { return Vec4{(double)q[0], (double)q[1], (double)q[2], (double)q[3]}; }
    inline libnurbs::Curve lower(const ref::Curve& r)
    {
        libnurbs::Curve c; c.Degree = r.p; c.Knots.Values() = lower(r.U);
        for (auto& q : r.P) c.ControlPoints.push_back(lower(q));
        return c;
    }
    inline libnurbs::Surface lower(const ref::Surface& r)
    {
        libnurbs::Surface s; s.DegreeU = r.p; s.DegreeV = r.q; s.KnotsU.Values() = lower(r.U); s.KnotsV.Values() = lower(r.V);
        s.ControlPoints.UCount = r.nu; s.ControlPoints.VCount = r.nv;
        for (auto& q : r.P) s.ControlPoints.Values.push_back(lower(q));
        return s;
    }
    // rounding of a point relative to the whole net rather than to the terms active at the parameter (corner cutting)
    inline double net_slack(const std::vector<Vec4>& P)
    {
        double lo = P[0].w(), hi = lo, m = 0; for (auto& p : P) { lo = std::min(lo, p.w()); hi = std::max(hi, p.w()); m = std::max(m, p.head<3>().cwiseAbs().maxCoeff()); }
        return 8e-15 * m * hi / lo + 1e-40;
    }
    // how much the rounding of one combination of control points is amplified by unequal weights
    inline double slack(const std::vector<Vec4>& P)
    {
        double lo = P[0].w(), hi = lo; for (auto& p : P) { lo = std::min(lo, p.w()); hi = std::max(hi, p.w()); }
        return std::max(1.0, hi / lo / 100);
    }
    inline double slack(const libnurbs::Curve& c) { return slack(c.ControlPoints); }
    inline double slack(const libnurbs::Surface& s) { return slack(s.ControlPoints.Values); }
    // sup of the distance between two curves/surfaces over a parameter list, relative to the magnitude of the terms
    struct Dev { double abs = 0, rel = 0, at = 0, at2 = 0; };
    inline void dev(Dev& r, const ref::D3& x, const ref::D3& y, double u, double v)
    {
        double d = 0;
        for (int k = 0; k < 3; ++k) { double e = (double)std::fabs(x.v[k] - y.v[k]); if (!(e <= d)) d = e; }
        double rel = d / (double)(std::max(x.mag, y.mag) + 1e-30L);
        if (!(d <= r.abs)) { r.abs = d; }
        if (!(rel <= r.rel)) { r.rel = rel; r.at = u; r.at2 = v; }
    }
    inline Dev deviation(const ref::Curve& a, const ref::Curve& b, const Dv& us)
    {
        Dev r;
        for (double u : us) dev(r, ref::eval(a, u), ref::eval(b, u), u, 0);
        return r;
    }
    inline Dev deviation(const ref::Surface& a, const ref::Surface& b, const Dv& us, const Dv& vs)
    {
        Dev r;
        for (double u : us) for (double v : vs) dev(r, ref::eval(a, u, v), ref::eval(b, u, v), u, v);
        return r;
    }
    // distinct interior knots with multiplicities
    inline std::vector<std::pair<double, int>> interior(const Dv& U)
    {
        std::vector<std::pair<double, int>> r;
        for (double x : U) if (x > U.front() && x < U.back()) { if (!r.empty() && r.back().first == x) ++r.back().second; else r.push_back({x, 1}); }
        return r;
    }
    inline int spans(const Dv& U) { return (int)interior(U).size() + 1; }
}
