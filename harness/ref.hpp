// Reference model: B-splines straight from the textbook definition, in long double,
// over plain vectors. Shares no code and no algorithm with the library (Cox-de Boor
// recursion for every basis function and for its derivatives, power-series division
// instead of the binomial quotient rule).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>

namespace ref
{
    using R = long double;
    using Knots = std::vector<R>;
    constexpr int MAXP = 40;   // degree bound of the reference
    constexpr int MAXD = 40;   // derivative order bound

    // Index of the non-empty span used at u: [U_k, U_{k+1}), the last one closed.
    inline int span(const Knots& U, R u)
    {
        int best = -1;
        for (int i = 0; i + 1 < (int)U.size(); ++i)
            if (U[i] < U[i + 1] && U[i] <= u) best = i;
        return best;
    }

    // d[k][j] = k-th derivative of N_{first+j,p} at u; every other basis function vanishes there.
    struct Basis { int first; R d[MAXD + 1][MAXP + 1]; };

    inline void basis(Basis& B, int p, const Knots& U, R u, int order)
    {
        if (p > MAXP || order > MAXD) { fprintf(stderr, "ref: bound exceeded\n"); std::_Exit(3); }
        const int s = span(U, u), lo = s - p;
        B.first = lo;
        // t[k][i-lo] holds the k-th derivative of N_{i,j} for the current j; i = lo .. s+1 (the last is always 0)
        R prev[MAXD + 1][MAXP + 2], cur[MAXD + 1][MAXP + 2];
        for (int k = 0; k <= order; ++k) for (int i = 0; i <= p + 1; ++i) prev[k][i] = 0;
        prev[0][p] = 1;
        for (int j = 1; j <= p; ++j)
        {
            for (int k = 0; k <= order; ++k) cur[k][p + 1] = 0;
            for (int x = 0; x <= p; ++x)
            {
                const int i = lo + x;
                R d1 = 0, d2 = 0;
                if (i >= 0 && i + j < (int)U.size()) d1 = U[i + j] - U[i];
                if (i + 1 >= 0 && i + j + 1 < (int)U.size()) d2 = U[i + j + 1] - U[i + 1];
                R v = 0;
                if (d1 > 0) v += (u - U[i]) / d1 * prev[0][x];
                if (d2 > 0) v += (U[i + j + 1] - u) / d2 * prev[0][x + 1];
                cur[0][x] = v;
                for (int k = 1; k <= order; ++k)
                {
                    R w = 0;
                    if (d1 > 0) w += prev[k - 1][x] / d1;
                    if (d2 > 0) w -= prev[k - 1][x + 1] / d2;
                    cur[k][x] = j * w;
                }
            }
            for (int k = 0; k <= order; ++k) for (int x = 0; x <= p + 1; ++x) prev[k][x] = cur[k][x];
        }
        for (int k = 0; k <= order; ++k) for (int x = 0; x <= p; ++x) B.d[k][x] = prev[k][x];
        if (p == 0) for (int k = 0; k <= order; ++k) B.d[k][0] = k ? 0 : 1;
    }

    struct P4 { R c[4] = {0, 0, 0, 0}; R& operator[](int i) { return c[i]; } R operator[](int i) const { return c[i]; } R w() const { return c[3]; } };

    struct Curve { int p = 0; Knots U; std::vector<P4> P; };           // Cartesian points + weight
    struct Surface { int p = 0, q = 0; Knots U, V; int nu = 0, nv = 0; std::vector<P4> P; // [v*nu+u]
                     const P4& at(int i, int j) const { return P[j * nu + i]; } };

    inline R fact(int n) { R r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }

    struct D3 { R v[3]; R mag; }; // value and an error scale for a double computation of it

    // Derivatives 0..order of the rational curve, with majorants; r must hold order+1 entries.
    inline void ders(const Curve& c, R u, int order, D3* r)
    {
        Basis N; basis(N, c.p, c.U, u, order);
        static thread_local std::vector<P4> A, M, Q, QM;
        A.assign(order + 1, {}); M.assign(order + 1, {}); Q.assign(order + 1, {}); QM.assign(order + 1, {});
        for (int k = 0; k <= order; ++k)
            for (int i = 0; i <= c.p; ++i)
            {
                const P4& q = c.P[N.first + i];
                R b = N.d[k][i] / fact(k);
                for (int d = 0; d < 3; ++d) { R t = b * q[d] * q.w(); A[k][d] += t; M[k][d] += std::fabs(t); }
                A[k][3] += b * q.w(); M[k][3] += std::fabs(b * q.w());
            }
        for (int k = 0; k <= order; ++k)
        {
            R mg = 0;
            for (int d = 0; d < 3; ++d)
            {
                R v = A[k][d], m = M[k][d];
                for (int j = 0; j < k; ++j) { v -= Q[j][d] * A[k - j][3]; m += QM[j][d] * M[k - j][3]; }
                Q[k][d] = v / A[0][3]; QM[k][d] = m / A[0][3];
                r[k].v[d] = Q[k][d] * fact(k);
                mg = std::max(mg, QM[k][d]);
            }
            r[k].mag = mg * fact(k);
        }
    }
    inline D3 eval(const Curve& c, R u) { D3 r; ders(c, u, 0, &r); return r; }

    // r[l*(ou+1)+k] = d^{k+l} S / du^k dv^l
    inline void ders(const Surface& s, R u, R v, int ou, int ov, D3* r)
    {
        Basis Nu, Nv; basis(Nu, s.p, s.U, u, ou); basis(Nv, s.q, s.V, v, ov);
        const int W = ou + 1, H = ov + 1;
        static thread_local std::vector<P4> A, M, Q, QM;
        A.assign(W * H, {}); M.assign(W * H, {}); Q.assign(W * H, {}); QM.assign(W * H, {});
        for (int l = 0; l <= ov; ++l) for (int k = 0; k <= ou; ++k)
        {
            P4 &a = A[l * W + k], &m = M[l * W + k];
            for (int j = 0; j <= s.q; ++j) for (int i = 0; i <= s.p; ++i)
            {
                R b = Nu.d[k][i] * Nv.d[l][j] / (fact(k) * fact(l));
                if (b == 0) continue;
                const P4& q = s.at(Nu.first + i, Nv.first + j);
                for (int d = 0; d < 3; ++d) { R t = b * q[d] * q.w(); a[d] += t; m[d] += std::fabs(t); }
                a[3] += b * q.w(); m[3] += std::fabs(b * q.w());
            }
        }
        for (int l = 0; l <= ov; ++l) for (int k = 0; k <= ou; ++k)
        {
            int id = l * W + k; R mg = 0;
            for (int d = 0; d < 3; ++d)
            {
                R x = A[id][d], m = M[id][d];
                for (int b = 0; b <= l; ++b) for (int a = 0; a <= k; ++a)
                {
                    if (a == k && b == l) continue;
                    int o = (l - b) * W + (k - a);
                    x -= Q[b * W + a][d] * A[o][3]; m += QM[b * W + a][d] * M[o][3];
                }
                Q[id][d] = x / A[0][3]; QM[id][d] = m / A[0][3];
                r[id].v[d] = Q[id][d] * fact(k) * fact(l);
                mg = std::max(mg, QM[id][d]);
            }
            r[id].mag = mg * fact(k) * fact(l);
        }
    }
    inline D3 eval(const Surface& s, R u, R v) { D3 r; ders(s, u, v, 0, 0, &r); return r; }

    // Boehm insertion of one knot, in homogeneous long double, straight from the definition.
    inline Curve insert(const Curve& c, R t)
    {
        Curve r; r.p = c.p; int p = c.p, n = (int)c.P.size();
        int k = span(c.U, t);
        r.U = c.U; r.U.insert(std::upper_bound(r.U.begin(), r.U.end(), t), t);
        r.P.resize(n + 1);
        for (int i = 0; i <= n; ++i)
        {
            R a = i <= k - p ? 1 : i > k ? 0 : (c.U[i + p] > c.U[i] ? (t - c.U[i]) / (c.U[i + p] - c.U[i]) : 0);
            P4 o; R w = 0;
            if (i < n) { w += a * c.P[i].w(); for (int d = 0; d < 3; ++d) o[d] += a * c.P[i].w() * c.P[i][d]; }
            if (i > 0) { w += (1 - a) * c.P[i - 1].w(); for (int d = 0; d < 3; ++d) o[d] += (1 - a) * c.P[i - 1].w() * c.P[i - 1][d]; }
            for (int d = 0; d < 3; ++d) o[d] /= w;
            o[3] = w; r.P[i] = o;
        }
        return r;
    }
    inline Surface transpose(const Surface& s)
    {
        Surface r; r.p = s.q; r.q = s.p; r.U = s.V; r.V = s.U; r.nu = s.nv; r.nv = s.nu; r.P.resize(s.P.size());
        for (int j = 0; j < s.nv; ++j) for (int i = 0; i < s.nu; ++i) r.P[i * r.nu + j] = s.at(i, j);
        return r;
    }
    inline Surface insert_u(const Surface& s, R t)
    {
        Surface r; r.p = s.p; r.q = s.q; r.V = s.V; r.nv = s.nv; r.nu = s.nu + 1; r.P.resize(r.nu * r.nv);
        for (int j = 0; j < s.nv; ++j)
        {
            Curve c; c.p = s.p; c.U = s.U; for (int i = 0; i < s.nu; ++i) c.P.push_back(s.at(i, j));
            Curve d = insert(c, t); r.U = d.U;
            for (int i = 0; i < r.nu; ++i) r.P[j * r.nu + i] = d.P[i];
        }
        return r;
    }
    inline Surface insert_v(const Surface& s, R t) { return transpose(insert_u(transpose(s), t)); }
}
