#include "ref.h"

#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef long double R;
static const int MAXN = 352, MAXK = 384;
struct Dim {
    int p, per, n, nk, lo, hi;  // order, periodic, unknowns, knots, first/last segment
    R t[MAXK];
    R per_len, x0;
};
struct RefSpline {
    int D;
    Dim d[4];
    R* c;
    int size;
    R maxc;
};

// basis function i of degree p (derivative k) on the polynomial piece [t_s, t_s+1)
static R basis(const R* t, int i, int p, int k, int s, R x) {
    if (k > p) return 0;
    if (p == 0) return i == s ? 1 : 0;
    R d1 = t[i + p] - t[i], d2 = t[i + p + 1] - t[i + 1];
    if (k == 0) {
        R r = 0;
        if (d1 > 0) r += (x - t[i]) / d1 * basis(t, i, p - 1, 0, s, x);
        if (d2 > 0) r += (t[i + p + 1] - x) / d2 * basis(t, i + 1, p - 1, 0, s, x);
        return r;
    }
    R r = 0;
    if (d1 > 0) r += basis(t, i, p - 1, k - 1, s, x) / d1;
    if (d2 > 0) r -= basis(t, i + 1, p - 1, k - 1, s, x) / d2;
    return r * (R)p;
}
static int segment(const Dim& d, R* x) {
    if (d.per) {
        R y = (*x - d.x0) / d.per_len;
        y -= floorl(y);
        *x = d.x0 + y * d.per_len;
    }
    int s = d.lo;
    while (s < d.hi && *x >= d.t[s + 1]) s++;
    return s;
}
static void weights(const Dim& d, R x, int k, R* w, R* near_knot) {
    memset(w, 0, sizeof(R) * (size_t)d.n);
    int s = segment(d, &x);
    for (int j = s - d.p; j <= s; j++) w[((j % d.n) + d.n) % d.n] += basis(d.t, j, d.p, k, s, x);
    if (near_knot) {
        R h = d.t[s + 1] - d.t[s];
        R a = fabsl(x - d.t[s]) / h, b = fabsl(d.t[s + 1] - x) / h;
        R m = a < b ? a : b;
        if (m < *near_knot) *near_knot = m;
    }
}
static void die(const char* m) {
    fprintf(stderr, "reference model: %s\n", m);
    abort();
}
static void setup(Dim& d, const RefDim& r) {
    int O = r.order, n = r.npts;
    d.p = O;
    d.per = r.periodic;
    if (n > 340) die("too many points");
    R x[MAXN];
    for (int i = 0; i < n; i++) x[i] = r.uniform ? (R)r.a + (R)i * ((R)r.b - (R)r.a) / (R)(n - 1) : (R)r.xs[i];
    if (!r.periodic) {
        d.n = n;
        d.nk = n + O + 1;
        for (int i = 0; i <= O; i++) { d.t[i] = x[0]; d.t[n + i] = x[n - 1]; }
        for (int i = O + 1; i < n; i++) {
            if (r.uniform) d.t[i] = x[0] + ((R)i - (R)(O + 1) / 2) * (x[1] - x[0]);
            else {
                R s = 0;
                for (int j = i - O; j < i; j++) s += x[j];
                d.t[i] = s / (R)O;
            }
        }
        d.lo = O;
        d.hi = n - 1;
        d.x0 = x[0];
        d.per_len = 0;
    } else {
        // knots are the data points (odd order) or the mid points (even order),
        // continued periodically
        int N = n - 1;
        R P = x[n - 1] - x[0];
        d.n = N;
        d.nk = N + 2 * O + 2;
        for (int i = 0; i < d.nk; i++) {
            int j = i - O;  // t[O] is the first knot of the period
            int q = j >= 0 ? j / N : -((-j + N - 1) / N);
            int m = j - q * N;
            R base = O % 2 ? x[m] : (x[m] + x[m + 1]) / 2;
            d.t[i] = base + (R)q * P;
        }
        d.lo = O;
        d.hi = O + N - 1;
        d.x0 = d.t[O];
        d.per_len = P;
    }
}
RefSpline* ref_build(int D, const RefDim* dims, const double* vals, const int* nv) {
    RefSpline* s = (RefSpline*)calloc(1, sizeof *s);
    s->D = D;
    int size = 1;
    for (int k = 0; k < D; k++) {
        setup(s->d[k], dims[k]);
        size *= s->d[k].n;
        if (nv[k] < s->d[k].n) die("not enough values");
    }
    s->size = size;
    s->c = (R*)malloc(sizeof(R) * (size_t)size);
    for (int i = 0; i < size; i++) {
        int r = i, src = 0, idx[4];
        for (int k = D - 1; k >= 0; k--) { idx[k] = r % s->d[k].n; r /= s->d[k].n; }
        for (int k = 0; k < D; k++) src = src * nv[k] + idx[k];
        s->c[i] = vals[src];
    }
    for (int k = 0; k < D; k++) {
        const Dim& d = s->d[k];
        int n = d.n;
        static R A[MAXN][MAXN];
        static int perm[MAXN];
        for (int i = 0; i < n; i++) {
            R x = dims[k].uniform ? (R)dims[k].a + (R)i * ((R)dims[k].b - (R)dims[k].a) / (R)(dims[k].npts - 1) : (R)dims[k].xs[i];
            weights(d, x, 0, A[i], nullptr);
            perm[i] = i;
        }
        for (int c = 0; c < n; c++) {  // dense LU with row pivoting
            int pv = c;
            for (int i = c + 1; i < n; i++) if (fabsl(A[i][c]) > fabsl(A[pv][c])) pv = i;
            if (fabsl(A[pv][c]) < 1e-12L) die("singular interpolation problem");
            if (pv != c) {
                for (int j = 0; j < n; j++) { R t = A[c][j]; A[c][j] = A[pv][j]; A[pv][j] = t; }
                int t = perm[c]; perm[c] = perm[pv]; perm[pv] = t;
            }
            R iv = 1 / A[c][c];
            for (int i = c + 1; i < n; i++) {
                if (A[i][c] == 0) continue;
                R f = A[i][c] *= iv;
                for (int j = c + 1; j < n; j++) A[i][j] -= f * A[c][j];
            }
        }
        int stride = 1;
        for (int q = k + 1; q < D; q++) stride *= s->d[q].n;
        for (int o = 0; o < size; o++) {
            if ((o / stride) % n) continue;  // start of each line
            R in[MAXN], out[MAXN];
            for (int i = 0; i < n; i++) in[i] = s->c[o + i * stride];
            for (int i = 0; i < n; i++) {
                R v = in[perm[i]];
                for (int j = 0; j < i; j++) v -= A[i][j] * out[j];
                out[i] = v;
            }
            for (int i = n - 1; i >= 0; i--) {
                R v = out[i];
                for (int j = i + 1; j < n; j++) v -= A[i][j] * out[j];
                out[i] = v / A[i][i];
            }
            for (int i = 0; i < n; i++) s->c[o + i * stride] = out[i];
        }
    }
    for (int i = 0; i < size; i++) if (fabsl(s->c[i]) > s->maxc) s->maxc = fabsl(s->c[i]);
    return s;
}
RefSpline* ref_direct(int D, int order, const int* per, const int* n, double* const* knots, const double* coef) {
    RefSpline* s = (RefSpline*)calloc(1, sizeof *s);
    s->D = D;
    s->size = 1;
    for (int k = 0; k < D; k++) {
        Dim& d = s->d[k];
        d.p = order;
        d.per = per[k];
        d.n = n[k];
        d.nk = n[k] + order + 1 + (per[k] ? order : 0);
        for (int i = 0; i < d.nk; i++) d.t[i] = knots[k][i];
        d.lo = order;
        d.hi = per[k] ? order + n[k] - 1 : n[k] - 1;
        d.x0 = d.t[order];
        d.per_len = per[k] ? d.t[order + n[k]] - d.t[order] : 0;
        s->size *= n[k];
    }
    s->c = (R*)malloc(sizeof(R) * (size_t)s->size);
    for (int i = 0; i < s->size; i++) {
        s->c[i] = coef[i];
        if (fabsl(s->c[i]) > s->maxc) s->maxc = fabsl(s->c[i]);
    }
    return s;
}
void ref_free(RefSpline* s) {
    if (!s) return;
    free(s->c);
    free(s);
}
double ref_eval(const RefSpline* s, const double* x, const int* der, double* scale, double* near_knot) {
    R w[4][MAXN], nk = 1, wmax = 1;
    for (int k = 0; k < s->D; k++) {
        weights(s->d[k], x[k], der[k], w[k], &nk);
        R sum = 0;
        for (int j = 0; j < s->d[k].n; j++) sum += fabsl(w[k][j]);
        wmax *= sum;
    }
    R v = 0;
    for (int i = 0; i < s->size; i++) {
        int r = i;
        R p = 1;
        for (int k = s->D - 1; k >= 0 && p != 0; k--) { p *= w[k][r % s->d[k].n]; r /= s->d[k].n; }
        if (p != 0) v += p * s->c[i];
    }
    if (scale) *scale = (double)(wmax * s->maxc);
    if (near_knot) *near_knot = (double)nk;
    return (double)v;
}
