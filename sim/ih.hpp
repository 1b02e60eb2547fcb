// Shared helpers of the interpolation scenarios: configurations, models,
// construction paths and point checks.  C++11 on purpose (the library is).
#pragma once
#include "Interpolation.hpp"
#include "ref.h"
#include "rt.h"
#include "scen.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <atomic>
#include <cmath>
#include <chrono>
#include <complex>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <system_error>
#include <thread>

#define EXPECT(cond, cls, ...)                   \
    do {                                         \
        if (!(cond)) sim_fail(cls, __VA_ARGS__); \
    } while (0)

struct Injected {
    int where;
    static uint32_t& std_too() {  // what this run's user errors are: own, standard, bad_alloc
        static uint32_t b = 0;
        return b;
    }
    static void raise(int where);
};
struct InjectedStd : std::exception, Injected {
    explicit InjectedStd(int w) { where = w; }
    const char* what() const noexcept override { return "injected"; }
};
struct InjectedAlloc : std::bad_alloc, Injected {
    explicit InjectedAlloc(int w) { where = w; }
};
inline void Injected::raise(int w) {
    if (std_too() == 2) throw InjectedAlloc(w);
    if (std_too()) throw InjectedStd(w);
    Injected i;
    i.where = w;
    throw i;
}

struct LR {  // local generator, seeded from one workload choice
    uint64_t s;
    explicit LR(uint32_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 12345) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)(next() >> 20) % n; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Arm {
    int k;
    explicit Arm(int kind, bool on = true) : k(on ? kind : -1) {
        if (k >= 0) sim_arm(k, 1);
    }
    ~Arm() {
        if (k >= 0) sim_arm(k, 0);
    }
};
struct NoFault {
    NoFault() { sim_nofault(1); }
    ~NoFault() { sim_nofault(-1); }
};

// A user-defined value type: every arithmetic operation is a fault point, and
// use of a dead or never-constructed object is detected.
struct ThrowVal {
    double v;
    uint32_t cookie;
    static std::atomic<long>& ops() {
        static std::atomic<long> n{0};
        return n;
    }
    void chk() const {
        if (cookie != 0x5AFEC0DEu) sim_fail("DEAD-VALUE", "operation on a value object that is not alive");
    }
    static std::atomic<long>& live() {
        static std::atomic<long> n{0};
        return n;
    }
    static void op() {
        ops().fetch_add(1, std::memory_order_relaxed);
        if (sim_fault_point(F_THROW)) Injected::raise(1);
    }
    ThrowVal() : v(0), cookie(0x5AFEC0DEu) { live().fetch_add(1, std::memory_order_relaxed); }
    ThrowVal(double x) : v(x), cookie(0x5AFEC0DEu) { live().fetch_add(1, std::memory_order_relaxed); }
    ThrowVal(const ThrowVal& o) : v((o.chk(), op(), o.v)), cookie(0x5AFEC0DEu) { live().fetch_add(1, std::memory_order_relaxed); }
    ThrowVal& operator=(const ThrowVal& o) {
        chk();
        o.chk();
        op();
        v = o.v;
        return *this;
    }
    ~ThrowVal() {
        cookie = 0;
        live().fetch_sub(1, std::memory_order_relaxed);
    }
    ThrowVal& operator+=(const ThrowVal& o) { chk(); o.chk(); op(); v += o.v; return *this; }
    ThrowVal& operator-=(const ThrowVal& o) { chk(); o.chk(); op(); v -= o.v; return *this; }
    ThrowVal& operator*=(double d) { chk(); op(); v *= d; return *this; }
    ThrowVal& operator/=(double d) { chk(); op(); v /= d; return *this; }
};
inline ThrowVal operator*(double d, const ThrowVal& o) { o.chk(); ThrowVal::op(); return ThrowVal(d * o.v); }
inline ThrowVal operator*(const ThrowVal& a, const ThrowVal& o) { a.chk(); o.chk(); ThrowVal::op(); return ThrowVal(a.v * o.v); }
inline ThrowVal operator-(const ThrowVal& a, const ThrowVal& o) { a.chk(); o.chk(); ThrowVal::op(); return ThrowVal(a.v - o.v); }
inline ThrowVal operator*(const ThrowVal& o, double d) { o.chk(); ThrowVal::op(); return ThrowVal(d * o.v); }
inline ThrowVal operator+(const ThrowVal& a, const ThrowVal& o) { a.chk(); o.chk(); ThrowVal::op(); return ThrowVal(a.v + o.v); }
inline ThrowVal operator-(const ThrowVal& a) { a.chk(); ThrowVal::op(); return ThrowVal(-a.v); }
inline bool operator==(const ThrowVal& a, const ThrowVal& o) { a.chk(); o.chk(); return a.v == o.v; }
inline bool operator!=(const ThrowVal& a, const ThrowVal& o) { return !(a == o); }
inline ThrowVal operator/(const ThrowVal& a, double d) { a.chk(); ThrowVal::op(); return ThrowVal(a.v / d); }

template <typename T>
struct Conv {
    static T from(double d) { return static_cast<T>(d); }
    static double to(const T& t) { return (double)t; }
    static double tol() { return sizeof(T) == 4 ? 2e-3 : 1e-9; }
};
template <>
struct Conv<ThrowVal> {
    static ThrowVal from(double d) { return ThrowVal(d); }
    static double to(const ThrowVal& t) { t.chk(); return t.v; }
    static double tol() { return 1e-9; }
};
template <>
struct Conv<std::complex<double>> {
    typedef std::complex<double> C;
    static C from(double d) { return C(d, 0.5 * d); }
    static double to(const C& c) {
        double e = c.imag() - 0.5 * c.real();
        double m = 1e-9 * (1 + (c.real() < 0 ? -c.real() : c.real()) * 1e3);
        if (e > m || e < -m) return 1e300;
        return c.real();
    }
    static double tol() { return 1e-9; }
};

// --------------------------------------------------------------- configuration
template <size_t D>
struct Cfg {
    bool per[D], uni[D];
    size_t np[D];  // coordinates, both ends included
    uint32_t alt;  // which of the equivalent constructor overloads is used
    uint32_t canon;  // 1: every range is [0, 3], 2: steps of one from 0 (both: whole numbers)
    uint32_t fav;  // seed of a few points that are visited again and again
    bool aperiodic() const {
        for (size_t d = 0; d < D; d++)
            if (per[d]) return false;
        return true;
    }
    double a[D], b[D];
    double xs[D][344];
    size_t mesh_n(size_t d) const {
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
        return np[d] - (per[d] ? 1 : 0);
#else
        return np[d];
#endif
    }
    size_t mesh_size() const {
        size_t s = 1;
        for (size_t d = 0; d < D; d++) s *= mesh_n(d);
        return s;
    }
};
template <size_t D>
void draw_coords(Cfg<D>& c, size_t d) {
    LR r(sim_w(1u << 20));
    c.fav = (uint32_t)r.next();
    c.a[d] = -2 + 4 * r.unit();
    double h = 0.3 + r.unit();
    if (c.canon) {  // functions of different grids share ranges and points
        c.a[d] = 0;
        h = c.canon == 1 ? 3.0 / (double)(c.np[d] - 1) : 1;
        c.fav = c.canon;
    }
    double x = c.a[d];
    for (size_t i = 0; i < c.np[d]; i++) {
        c.xs[d][i] = x;
        x += h * (0.6 + 0.8 * r.unit());
    }
    if (c.canon && !c.uni[d]) {
        double s = (c.canon == 1 ? 3.0 : (double)(c.np[d] - 1)) / c.xs[d][c.np[d] - 1];
        for (size_t i = 0; i < c.np[d]; i++) c.xs[d][i] = i + 1 == c.np[d] ? (c.canon == 1 ? 3.0 : (double)(c.np[d] - 1)) : c.xs[d][i] * s;
    }
    c.b[d] = c.canon == 1 ? 3.0 : c.uni[d] ? c.a[d] + h * (double)(c.np[d] - 1) : c.xs[d][c.np[d] - 1];
    if (c.uni[d])
        for (size_t i = 0; i < c.np[d]; i++) c.xs[d][i] = i + 1 == c.np[d] ? c.b[d] : c.a[d] + (double)i * (c.b[d] - c.a[d]) / (double)(c.np[d] - 1);
}
// big: 0 small, 1 and 2 larger, 3 very many lines (or a long line), 4 more lines than one batch
template <size_t D>
Cfg<D> draw_cfg(size_t O, int big) {
    Cfg<D> c;
    uint32_t pattern = sim_w(4);  // uniformity pattern
    c.alt = sim_w(4);
    c.canon = sim_w(6);
    if (c.canon > 2) c.canon = 0;
    bool plain = sim_w(6) == 0;  // no periodic dimension at all
    size_t thin = sim_w((uint32_t)D);  // the dimension that stays small in a wide configuration
    // wide: more lines per dimension than the pool takes in one batch (16^2), or in two
    uint32_t hk = big == 3 && D == 3 ? sim_w(8) : 7;
    const uint32_t each = hk == 0 ? 65 : hk <= 2 ? 33 : 17;
    for (size_t d = 0; d < D; d++) {
        c.per[d] = !plain && sim_w(2);
        c.uni[d] = D == 4 ? (pattern < 2 || (pattern == 2) == ((d & 1) == 0)) : D == 3 ? (pattern == 0 ? true : pattern == 1 ? false : pattern == 2 ? d != 1 : d == 1)
                          : ((pattern >> (d & 1)) & 1) == 0;
        if (O == 0) c.uni[d] = true;
        size_t lo = c.per[d] ? (O < 2 ? 4 : O + 2) : (O < 2 ? 3 : O + 1);
        uint32_t span = big == 2 ? 14 : big ? (D == 1 ? 9 : D == 2 ? 6 : 3) : (D >= 3 ? 2 : 3);
        c.np[d] = lo + sim_w(span);
        if (big == 3 && D > 1 && d != thin) c.np[d] = D == 2 ? 280 + sim_w(40) : D == 3 ? each + sim_w(2) : lo + 3;
        if (big == 3 && D == 1) c.np[d] = 60 + sim_w(200);
        if (big == 4 && D > 1 && d != thin) c.np[d] = D == 2 ? (sim_w(2) ? 66 + sim_w(70) : 18 + sim_w(50)) : D == 3 ? 6 + sim_w(7) : lo + 2;
        if (big == 4 && D == 1) c.np[d] = 40 + sim_w(30);
        draw_coords(c, d);
    }
    return c;
}
// same number of points, other coordinates, maybe other periodicity
template <size_t D>
Cfg<D> twin_cfg(const Cfg<D>& o, size_t O) {
    Cfg<D> c = o;
    uint32_t k = sim_w(4);
    size_t q = sim_w((uint32_t)D);
    if (k == 3) c.canon = 0;
    for (size_t d = 0; d < D; d++) {
        if (k == 2 && d == q && c.np[d] >= (O < 2 ? 4 : O + 2)) c.per[d] = !c.per[d];
        if (k != 1 || d == q) draw_coords(c, d);  // k == 1: one dimension differs
    }
    return c;
}
inline double data_value(uint32_t vseed, size_t i) {
    uint64_t z = (uint64_t)vseed * 0xD1B54A32D192ED03ull + (i + 1) * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    return (double)(int64_t)(z >> 12) * (2.0 / 4503599627370496.0) - 1.0;
}

// the specification of one interpolation function: configuration + data
template <size_t D>
struct Model {
    Cfg<D> c;
    size_t order;
    uint32_t vseed;
    RefSpline* ref;
    Model(const Cfg<D>& cc, size_t O, uint32_t vs) : c(cc), order(O), vseed(vs), ref(nullptr) {
        SimNative nat;
        RefDim rd[D];
        int nv[D];
        for (size_t d = 0; d < D; d++) {
            rd[d].order = (int)O;
            rd[d].periodic = c.per[d];
            rd[d].uniform = c.uni[d];
            rd[d].npts = (int)c.np[d];
            rd[d].a = c.a[d];
            rd[d].b = c.b[d];
            rd[d].xs = c.xs[d];
            nv[d] = (int)c.mesh_n(d);
        }
        size_t n = c.mesh_size();
        double* v = (double*)malloc(n * sizeof(double));
        for (size_t i = 0; i < n; i++) v[i] = data_value(vseed, i);
        ref = ref_build((int)D, rd, v, nv);
        free(v);
    }
    ~Model() {
        SimNative nat;
        ref_free(ref);
    }
    Model(const Model&) = delete;
    Model& operator=(const Model&) = delete;
    double eval(const std::array<double, D>& x, const std::array<size_t, D>& der, double* scale, double* near_knot) const {
        SimNative nat;
        double xx[D];
        int dd[D];
        for (size_t d = 0; d < D; d++) { xx[d] = x[d]; dd[d] = (int)der[d]; }
        return ref_eval(ref, xx, dd, scale, near_knot);
    }
};

// forward iterators whose dereference can fail
template <typename V>
struct FIter {
    typedef std::forward_iterator_tag iterator_category;
    typedef V value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const V* pointer;
    typedef const V& reference;
    const V* p;
    reference operator*() const {
        if (sim_fault_point(F_ITER)) Injected::raise(2);
        return *p;
    }
    FIter& operator++() { ++p; return *this; }
    FIter operator++(int) { FIter t = *this; ++p; return t; }
    bool operator==(const FIter& o) const { return p == o.p; }
    bool operator!=(const FIter& o) const { return p != o.p; }
    std::ptrdiff_t operator-(const FIter& o) const { return p - o.p; }  // default ranges need it
};

// caller-side copies of the inputs; heap allocated so that any use after the
// caller gave them up is seen
template <size_t D>
struct Inputs {
    std::unique_ptr<double[]> x[D];
    const Cfg<D>& c;
    explicit Inputs(const Cfg<D>& cc) : c(cc) {
        NoFault nf;
        for (size_t d = 0; d < D; d++) {
            x[d].reset(new double[c.np[d]]);
            for (size_t i = 0; i < c.np[d]; i++) x[d][i] = c.xs[d][i];
        }
    }
    std::pair<double, double> u(size_t d) const { return std::make_pair(c.a[d], c.b[d]); }
    // whole numbers may be given as such
    bool whole() const { return c.canon && (c.alt & 1); }
    std::pair<int, int> w(size_t d) const { return std::make_pair((int)c.a[d], (int)c.b[d]); }
    std::pair<FIter<double>, FIter<double>> n(size_t d) const {
        return std::make_pair(FIter<double>{x[d].get()}, FIter<double>{x[d].get() + c.np[d]});
    }
};
template <size_t D>
struct Dispatch;
template <>
struct Dispatch<1> {
    template <typename F>
    static typename F::R go(F& f, const Inputs<1>& in) {
        return in.c.uni[0] ? (in.whole() ? f(in.w(0)) : f(in.u(0))) : f(in.n(0));
    }
};
template <>
struct Dispatch<2> {
    template <typename F>
    static typename F::R go(F& f, const Inputs<2>& in) {
        if (in.c.uni[0]) return in.c.uni[1] ? (in.whole() ? f(in.w(0), in.w(1)) : f(in.u(0), in.u(1))) : f(in.u(0), in.n(1));
        return in.c.uni[1] ? f(in.n(0), in.u(1)) : f(in.n(0), in.n(1));
    }
};
template <>
struct Dispatch<3> {
    template <typename F>
    static typename F::R go(F& f, const Inputs<3>& in) {
        const bool* u = in.c.uni;
        if (u[0] && u[1] && u[2]) return f(in.u(0), in.u(1), in.u(2));
        if (!u[0] && !u[1] && !u[2]) return f(in.n(0), in.n(1), in.n(2));
        if (u[0] && !u[1] && u[2]) return f(in.u(0), in.n(1), in.u(2));
        return f(in.n(0), in.u(1), in.n(2));
    }
};

template <>
struct Dispatch<4> {
    template <typename F>
    static typename F::R go(F& f, const Inputs<4>& in) {
        const bool* u = in.c.uni;
        if (u[0] && u[1]) return f(in.u(0), in.u(1), in.u(2), in.u(3));
        if (u[0]) return f(in.u(0), in.n(1), in.u(2), in.n(3));
        return f(in.n(0), in.u(1), in.n(2), in.u(3));
    }
};

template <typename T_, size_t D_, size_t O_>
struct Kit {
    typedef T_ T;
    static const size_t D = D_;
    static const size_t O = O_;
    typedef intp::InterpolationFunction<T, D_, O_> Fn;
    typedef intp::InterpolationFunctionTemplate<T, D_, O_> Tmpl;
    typedef intp::Mesh<T, D_> MeshT;
    typedef std::array<double, D_> Pt;
    typedef std::array<size_t, D_> Der;

    static std::array<bool, D_> periodicity(const Cfg<D_>& c) {
        std::array<bool, D_> p;
        for (size_t d = 0; d < D_; d++) p[d] = c.per[d];
        return p;
    }
    static intp::MeshDimension<D_> meshdim(const Cfg<D_>& c) {
        std::array<size_t, D_> s;
        for (size_t d = 0; d < D_; d++) s[d] = c.mesh_n(d);
        return intp::MeshDimension<D_>(s);
    }
    static std::array<size_t, D_> unflat(const Cfg<D_>& c, size_t i) {
        std::array<size_t, D_> ix;
        for (size_t k = 0; k < D_; k++) {
            size_t d = D_ - 1 - k;
            ix[d] = i % c.mesh_n(d);
            i /= c.mesh_n(d);
        }
        return ix;
    }
    static MeshT* new_mesh(const Model<D_>& m) {
        NoFault nf;
        std::unique_ptr<MeshT> mesh(new MeshT(meshdim(m.c)));
        fill_mesh(*mesh, m);
        return mesh.release();
    }
    static void fill_mesh(MeshT& mesh, const Model<D_>& m) {
        NoFault nf;
        size_t n = m.c.mesh_size();
        for (size_t i = 0; i < n; i++) mesh(unflat(m.c, i)) = Conv<T>::from(data_value(m.vseed, i));
    }
    static void mesh_intact(const MeshT& mesh, const Model<D_>& m) {
        size_t n = m.c.mesh_size();
        EXPECT(mesh.size() == n, "INPUT-CHANGED", "size of the input mesh changed");
        for (size_t i = 0; i < n; i++)
            EXPECT(Conv<T>::to(mesh(unflat(m.c, i))) == Conv<T>::to(Conv<T>::from(data_value(m.vseed, i))), "INPUT-CHANGED", "element %zu of the input mesh changed", i);
    }
    struct MakeTmpl {
        typedef Tmpl* R;
        const Cfg<D_>& c;
        template <typename... Ts>
        Tmpl* operator()(Ts... rs) {
            if (c.alt == 1 && c.aperiodic()) return new Tmpl(meshdim(c), rs...);
            if (D_ == 1 && c.alt >= 2) return one(std::integral_constant<bool, D_ == 1>(), rs...);
            return new Tmpl(periodicity(c), meshdim(c), rs...);
        }
        template <typename... Ts>
        Tmpl* one(std::false_type, Ts...) { return nullptr; }
        template <typename R1>
        Tmpl* one(std::true_type, R1 rs) {
            size_t n = c.mesh_n(0);
            if (c.alt == 2) return c.per[0] ? new Tmpl(true, n, rs) : new Tmpl(n, rs);
            typedef intp::InterpolationFunctionTemplate1D<O_, T> T1;
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
            const bool dflt = c.canon == 2 && c.uni[0] && !c.per[0];
#else
            const bool dflt = c.canon == 2 && c.uni[0];
#endif
            if (dflt) return c.per[0] ? new Tmpl(T1(n, true)) : new Tmpl(T1(n));
            return new Tmpl(T1(rs, n, c.per[0]));
        }
    };
    struct MakeFn {
        typedef Fn* R;
        const Cfg<D_>& c;
        const MeshT& mesh;
        template <typename... Ts>
        Fn* operator()(Ts... rs) {
            if ((c.alt & 1) && c.aperiodic()) return new Fn(mesh, rs...);
            return new Fn(periodicity(c), mesh, rs...);
        }
    };
    static Tmpl* new_tmpl(const Cfg<D_>& c) {
        Inputs<D_> in(c);
        MakeTmpl mk{c};
        return Dispatch<D_>::go(mk, in);
    }
    static Fn* new_direct(const Cfg<D_>& c, const MeshT& mesh) {
        Inputs<D_> in(c);
        MakeFn mk{c, mesh};
        return Dispatch<D_>::go(mk, in);
    }

    // ---- construction paths.  Every one must give the same function.
    static int npaths() { return D_ == 1 ? 8 : 6; }
    // `t` is a template for m.c (may be consumed by a copy), result on the heap
    static Fn* build(int path, const Tmpl& t, const Model<D_>& m, const MeshT& mesh) {
        sim_stack_garbage();
        MeshT& lv = const_cast<MeshT&>(mesh);  // the caller's own, non-const mesh
        bool nc = m.c.alt & 2;
        switch (path) {
            case 0: return nc ? new Fn(t.interpolate(lv)) : new Fn(t.interpolate(mesh));
            case 1: {
                std::unique_ptr<Fn> f(new Fn());
                if (nc) t.interpolate(*f, lv);
                else t.interpolate(*f, mesh);
                return f.release();
            }
            case 2: return new_direct(m.c, mesh);
            case 3: {  // rvalue overload on a fresh template
                std::unique_ptr<Tmpl> own(new_tmpl(m.c));
                return nc ? new Fn(std::move(*own).interpolate(lv)) : new Fn(std::move(*own).interpolate(mesh));
            }
            case 4: {  // populate a function that held something else
                std::unique_ptr<Fn> f(new Fn(t.interpolate(mesh)));
                t.interpolate(*f, mesh);
                return f.release();
            }
            case 5: {  // give the data away
                std::unique_ptr<MeshT> own;
                {
                    NoFault nf;
                    own.reset(new MeshT(mesh));
                }
                return new Fn(t.interpolate(std::move(*own)));
            }
            default: return build_1d(path, t, m, mesh, std::integral_constant<bool, D_ == 1>());
        }
    }
    static Fn* build_1d(int, const Tmpl&, const Model<D_>&, const MeshT&, std::false_type) { return nullptr; }
    struct Make1D {
        typedef Fn* R;
        bool per;
        uint32_t alt;
        bool dflt;
        std::pair<FIter<T>, FIter<T>> f;
        template <typename C>
        Fn* operator()(C xr) {
            if (alt == 1 && !per) return new Fn(f, xr);
            if (alt == 2 && dflt) return per ? new Fn(intp::InterpolationFunction1D<O_, T>(f, true)) : new Fn(intp::InterpolationFunction1D<O_, T>(f));
            if (alt == 2) return new Fn(intp::InterpolationFunction1D<O_, T>(xr, f, per));
            return new Fn(per, f, xr);
        }
    };
    static Fn* build_1d(int path, const Tmpl& t, const Model<D_>& m, const MeshT& mesh, std::true_type) {
        std::unique_ptr<T[]> v;
        {
            NoFault nf;
            v.reset(new T[mesh.size()]);
            for (size_t i = 0; i < mesh.size(); i++) v[i] = mesh(std::array<size_t, 1>{{i}});
        }
        std::pair<FIter<T>, FIter<T>> fr(FIter<T>{v.get()}, FIter<T>{v.get() + mesh.size()});
        if (path == 6) return new Fn(t.interpolate(fr));
        Inputs<D_> in(m.c);
        Make1D mk{m.c.per[0], m.c.alt, m.c.canon == 2 && m.c.uni[0], fr};
        return Dispatch<D_>::go(mk, in);
    }

    // ---- one observation of a function, compared with the model
    static Pt draw_point(const Cfg<D_>& c, LR& rr, bool* outside, const Fn* f = nullptr) {
        Pt x;
        // one third of the time one of two points every user of this configuration visits
        LR fav(c.fav + rr.below(2));
        LR& r = rr.below(3) == 0 ? fav : rr;
        *outside = false;
        uint32_t mode = r.below(8);
        for (size_t d = 0; d < D_; d++) {
            double w = c.b[d] - c.a[d];
            uint32_t md = mode < 4 ? 0 : mode < 6 ? 1 : r.below(5);
            if (md == 0) x[d] = c.a[d] + w * r.unit();
            else if (md == 1) x[d] = c.xs[d][r.below((uint32_t)c.np[d])];
            else if (md == 2) {
                x[d] = r.below(2) ? c.a[d] : c.b[d];
                if (r.below(3) == 0) x[d] = std::nextafter(x[d], x[d] == c.a[d] ? c.b[d] : c.a[d]);  // just inside
            }
            else if (md == 4 && c.per[d] && f) {  // exactly on the seam of some period
                double w2 = f->range(d).second - f->range(d).first;
                x[d] = f->range(d).first + w2 * ((double)r.below(5) - 3.0);
            } else {
                double o = c.per[d] ? (r.below(4) ? 2.5 : 40.0) * w * r.unit() : 0.3 * w * r.unit() + 1e-3;
                x[d] = r.below(2) ? c.b[d] + o : c.a[d] - o;
                if (r.below(4) == 0) x[d] = x[d] > c.b[d] ? std::nextafter(c.b[d], 1e9) : std::nextafter(c.a[d], -1e9);  // just outside
                if (!c.per[d]) *outside = true;
            }
        }
        return x;
    }
    static T call(const Fn& f, const Pt& x, std::integral_constant<size_t, 1>) { return f(x[0]); }
    static T call(const Fn& f, const Pt& x, std::integral_constant<size_t, 2>) { return f(x[0], x[1]); }
    static T call(const Fn& f, const Pt& x, std::integral_constant<size_t, 3>) { return f(x[0], x[1], x[2]); }
    static T call(const Fn& f, const Pt& x, std::integral_constant<size_t, 4>) { return f(x[0], x[1], x[2], x[3]); }
    static T call_at(const Fn& f, const Pt& x, std::integral_constant<size_t, 4>) { return f.at(x[0], x[1], x[2], x[3]); }
    static T call_at(const Fn& f, const Pt& x, std::integral_constant<size_t, 1>) { return f.at(x[0]); }
    static T call_at(const Fn& f, const Pt& x, std::integral_constant<size_t, 2>) { return f.at(x[0], x[1]); }
    static T call_at(const Fn& f, const Pt& x, std::integral_constant<size_t, 3>) { return f.at(x[0], x[1], x[2]); }
    // arguments of other arithmetic types
    static T call_i(const Fn& f, const Pt& x, std::integral_constant<size_t, 1>) { return f((int)x[0]); }
    static T call_i(const Fn& f, const Pt& x, std::integral_constant<size_t, 2>) { return f((int)x[0], x[1]); }
    static T call_i(const Fn& f, const Pt& x, std::integral_constant<size_t, 3>) { return f((long)x[0], x[1], (float)x[2]); }
    static T call_i(const Fn& f, const Pt& x, std::integral_constant<size_t, 4>) { return f((int)x[0], x[1], x[2], x[3]); }
    static T call_f(const Fn& f, const Pt& x, std::integral_constant<size_t, 1>) { return f((float)x[0]); }
    static T call_f(const Fn& f, const Pt& x, std::integral_constant<size_t, 2>) { return f((float)x[0], (float)x[1]); }
    static T call_f(const Fn& f, const Pt& x, std::integral_constant<size_t, 3>) { return f((float)x[0], x[1], (float)x[2]); }
    static T call_f(const Fn& f, const Pt& x, std::integral_constant<size_t, 4>) { return f((float)x[0], (float)x[1], (float)x[2], (float)x[3]); }
    // the variadic overloads
    typedef std::pair<double, size_t> PD;
    static PD pd(const Pt& x, const Der& d, size_t i) { return PD(x[i], d[i]); }
    static std::pair<double, int> pi(const Pt& x, const Der& d, size_t i) { return std::pair<double, int>(x[i], (int)d[i]); }
    static T der_var(const Fn& f, const Pt& x, const Der& d, int how, std::integral_constant<size_t, 1>) {
        return how == 0 ? f.derivative(x, d[0]) : how == 1 ? f.derivative(pi(x, d, 0)) : how == 2 ? f.derivative_at(x, (int)d[0]) : f.derivative_at(pd(x, d, 0));
    }
    static T der_var(const Fn& f, const Pt& x, const Der& d, int how, std::integral_constant<size_t, 2>) {
        return how == 0   ? f.derivative(x, (int)d[0], (int)d[1])
               : how == 1 ? f.derivative(pd(x, d, 0), pi(x, d, 1))
               : how == 2 ? f.derivative_at(x, d[0], d[1])
                          : f.derivative_at(pd(x, d, 0), pd(x, d, 1));
    }
    static T der_var(const Fn& f, const Pt& x, const Der& d, int how, std::integral_constant<size_t, 3>) {
        return how == 0   ? f.derivative(x, (int)d[0], d[1], d[2])
               : how == 1 ? f.derivative(pd(x, d, 0), pd(x, d, 1), pi(x, d, 2))
               : how == 2 ? f.derivative_at(x, d[0], (int)d[1], d[2])
                          : f.derivative_at(pd(x, d, 0), pd(x, d, 1), pd(x, d, 2));
    }
    static T der_var(const Fn& f, const Pt& x, const Der& d, int how, std::integral_constant<size_t, 4>) {
        return how == 0   ? f.derivative(x, d[0], d[1], d[2], d[3])
               : how == 1 ? f.derivative(pd(x, d, 0), pd(x, d, 1), pd(x, d, 2), pd(x, d, 3))
               : how == 2 ? f.derivative_at(x, d[0], d[1], d[2], d[3])
                          : f.derivative_at(pd(x, d, 0), pd(x, d, 1), pd(x, d, 2), pd(x, d, 3));
    }
#ifdef INTP_CELL_LAYOUT
    static T proxy_var(const Tmpl& t, const Fn& f, const Pt& x, std::integral_constant<size_t, 1>) { return t.eval_proxy(x[0])(f); }
    static T proxy_var(const Tmpl& t, const Fn& f, const Pt& x, std::integral_constant<size_t, 2>) { return t.eval_proxy(x[0], x[1])(f); }
    static T proxy_var(const Tmpl& t, const Fn& f, const Pt& x, std::integral_constant<size_t, 3>) { return t.eval_proxy(x[0], x[1], x[2])(f); }
    static T proxy_var(const Tmpl& t, const Fn& f, const Pt& x, std::integral_constant<size_t, 4>) { return t.eval_proxy(x[0], x[1], x[2], x[3])(f); }
#endif
    static void compare(double got, const Model<D_>& m, const Pt& x, const Der& der, const char* what, const char* cls = "WRONG-RESULT") {
        double scale, nk;
        double want = m.eval(x, der, &scale, &nk);
        bool rough = O_ == 0;
        for (size_t d = 0; d < D_; d++) rough |= der[d] >= O_;
        if (rough && nk < 1e-5) return;  // the quantity jumps here
        double tol = Conv<T>::tol() * (scale + 1.0), e = got - want;
        if (!(e <= tol && e >= -tol)) {
            SimNative nat;
            char xs[128];
            int l = 0;
            for (size_t d = 0; d < D_; d++) l += snprintf(xs + l, sizeof xs - (size_t)l, "%s%.6g(d%zu)%s%s", d ? "," : "", x[d], der[d], m.c.per[d] ? "p" : "a", m.c.uni[d] ? "u" : "n");
            sim_fail(cls, "%s: dim %zu order %zu at (%s): got %.12g, the interpolant is %.12g", what, (size_t)D_, (size_t)O_, xs, got, want);
        }
    }
    static void observe(const Fn& f, const Model<D_>& m, LR& r, const char* what, const char* cls = "WRONG-RESULT") {
        bool outside;
        sim_stack_garbage();
        Pt x = draw_point(m.c, r, &outside, &f);
        Der der;
        for (size_t d = 0; d < D_; d++) der[d] = 0;
        typedef std::integral_constant<size_t, D_> DC;
        switch (r.below(9)) {
            case 0: compare(Conv<T>::to(f(x)), m, x, der, what, cls); break;
            case 1: {
                uint32_t ty = r.below(5);
                if (ty < 2) {
                    for (size_t d = 0; d < D_; d++) x[d] = (double)(float)x[d];
                    if (ty == 0) x[0] = (double)(int)x[0];
                }
                compare(Conv<T>::to(ty == 0 ? call_i(f, x, DC()) : ty == 1 ? call_f(f, x, DC()) : call(f, x, DC())), m, x, der, what, cls);
                break;
            }
            case 2:
                try {
                    T v = r.below(2) ? f.at(x) : call_at(f, x, DC());
                    EXPECT(!outside, "NO-DOMAIN-ERROR", "%s: at() accepted a point outside the range", what);
                    compare(Conv<T>::to(v), m, x, der, what, cls);
                } catch (const std::domain_error&) {
                    EXPECT(outside, "SPURIOUS-DOMAIN-ERROR", "%s: at() rejected a point inside the range", what);
                }
                break;
            case 3:
                for (size_t d = 0; d < D_; d++) der[d] = r.below((uint32_t)O_ + 2);
                compare(Conv<T>::to(f.derivative(x, der)), m, x, der, what, cls);
                break;
            case 4:
                for (size_t d = 0; d < D_; d++) der[d] = r.below((uint32_t)O_ + 1);
                try {
                    T v = f.derivative_at(x, der);
                    EXPECT(!outside, "NO-DOMAIN-ERROR", "%s: derivative_at() accepted a point outside the range", what);
                    compare(Conv<T>::to(v), m, x, der, what, cls);
                } catch (const std::domain_error&) {
                    EXPECT(outside, "SPURIOUS-DOMAIN-ERROR", "%s: derivative_at() rejected a point inside the range", what);
                }
                break;
            case 5: {
                for (size_t d = 0; d < D_; d++) der[d] = r.below((uint32_t)O_ + 2);
                int how = (int)r.below(4);
                try {
                    T v = der_var(f, x, der, how, DC());
                    EXPECT(how < 2 || !outside, "NO-DOMAIN-ERROR", "%s: derivative_at() accepted a point outside the range", what);
                    compare(Conv<T>::to(v), m, x, der, what, cls);
                } catch (const std::domain_error&) {
                    EXPECT(how >= 2 && outside, "SPURIOUS-DOMAIN-ERROR", "%s: derivative_at() rejected a point inside the range", what);
                }
                break;
            }
            case 6: {  // the underlying spline, without position hints
                if (r.below(2)) compare(Conv<T>::to(f.spline()(x)), m, x, der, what, cls);
                else {
                    std::array<PD, D_> xd;
                    for (size_t d = 0; d < D_; d++) {
                        der[d] = r.below((uint32_t)O_ + 2);
                        xd[d] = pd(x, der, d);
                    }
                    compare(Conv<T>::to(f.spline().derivative_at(xd)), m, x, der, what, cls);
                }
                break;
            }
            default:
                for (size_t d = 0; d < D_; d++) {
                    EXPECT(f.periodicity(d) == m.c.per[d] && f.uniform(d) == m.c.uni[d], "WRONG-METADATA", "%s: periodicity/uniformity of dimension %zu", what, d);
                    double w = f.range(d).second - f.range(d).first, ww = m.c.b[d] - m.c.a[d];
                    EXPECT(w - ww < 1e-9 && ww - w < 1e-9, "WRONG-METADATA", "%s: extent of dimension %zu is %g, expected %g", what, d, w, ww);
                    if (!m.c.per[d]) {
                        double e = f.range(d).first - m.c.a[d];
                        EXPECT(e < 1e-9 && e > -1e-9, "WRONG-METADATA", "%s: range of dimension %zu starts at %g", what, d, f.range(d).first);
                    }
                }
        }
    }
    static void observe_proxy(const Tmpl& t, const Fn& f, const Model<D_>& m, LR& r, const char* what) {
#ifdef INTP_CELL_LAYOUT
        bool outside;
        sim_stack_garbage();
        Pt x = draw_point(m.c, r, &outside, &f);
        Der der;
        for (size_t d = 0; d < D_; d++) der[d] = 0;
        if (r.below(3) == 0) {
            compare(Conv<T>::to(proxy_var(t, f, x, std::integral_constant<size_t, D_>())), m, x, der, what, "WRONG-PROXY-RESULT");
            return;
        }
        auto px = t.eval_proxy(x);
        compare(Conv<T>::to(px(f)), m, x, der, what, "WRONG-PROXY-RESULT");
#else
        (void)t;
        observe(f, m, r, what);
#endif
    }
    static void observe_n(const Fn& f, const Model<D_>& m, uint32_t seed, int n, const char* what, const char* cls = "WRONG-RESULT") {
        LR r(seed);
        for (int i = 0; i < n; i++) observe(f, m, r, what, cls);
    }
};

// ---- splines made directly from knots and control points
template <typename T_, size_t D_, size_t O_>
struct SplineKit {
    typedef T_ T;
    typedef typename Kit<T_, D_, O_>::Fn::spline_type S;
    typedef typename S::ControlPointContainer CP;
    typedef std::array<double, D_> Pt;
    struct Spec {
        bool per[D_];
        size_t n[D_];  // control points
        double t[D_][40];
        size_t nt[D_];
        uint32_t vseed;
        RefSpline* ref;
        Spec() : ref(nullptr) {
            size_t size = 1;
            for (size_t d = 0; d < D_; d++) {
                per[d] = sim_w(2);
                n[d] = (per[d] ? 2 * O_ + 1 : O_ + 1) + sim_w(D_ >= 3 ? 2 : 4);
                size *= n[d];
                nt[d] = n[d] + O_ + 1 + (per[d] ? O_ : 0);
                LR r(sim_w(1u << 20));
                double h[40], x = -1 + 2 * r.unit();
                for (size_t i = 0; i < n[d]; i++) h[i] = 0.3 + r.unit();
                if (per[d]) {
                    for (size_t i = 0; i < nt[d]; i++) { t[d][i] = x; x += h[i % n[d]]; }
                } else
                    for (size_t i = 0; i < nt[d]; i++) {
                        t[d][i] = x;
                        if (i >= O_ && i < n[d]) x += h[i];
                    }
            }
            vseed = sim_w(1u << 20);
            SimNative nat;
            int pp[D_], nn[D_];
            double* kk[D_];
            for (size_t d = 0; d < D_; d++) { pp[d] = per[d]; nn[d] = (int)n[d]; kk[d] = t[d]; }
            double* c = (double*)malloc(size * sizeof(double));
            for (size_t i = 0; i < size; i++) c[i] = data_value(vseed, i);
            ref = ref_direct((int)D_, (int)O_, pp, nn, kk, c);
            free(c);
        }
        ~Spec() {
            SimNative nat;
            ref_free(ref);
        }
        Spec(const Spec&) = delete;
        std::array<bool, D_> periodicity() const {
            std::array<bool, D_> p;
            for (size_t d = 0; d < D_; d++) p[d] = per[d];
            return p;
        }
        typedef std::pair<const double*, const double*> KR;
        KR kr(size_t d) const { return KR(t[d], t[d] + nt[d]); }
    };
    static CP* points(const Spec& s) {
        NoFault nf;
        std::array<size_t, D_> ext;
        for (size_t d = 0; d < D_; d++) ext[d] = s.n[d];
        std::unique_ptr<CP> c(new CP(intp::MeshDimension<D_>(ext)));
        for (size_t i = 0; i < c->size(); i++) (*c)(c->dimension().dimwise_indices(i)) = Conv<T>::from(data_value(s.vseed, i));
        return c.release();
    }
    static S* make(const Spec& s, const CP& c, std::integral_constant<size_t, 1>) { return new S(s.periodicity(), c, s.kr(0)); }
    static S* make(const Spec& s, const CP& c, std::integral_constant<size_t, 2>) { return new S(s.periodicity(), c, s.kr(0), s.kr(1)); }
    static S* make(const Spec& s, const CP& c, std::integral_constant<size_t, 3>) { return new S(s.periodicity(), c, s.kr(0), s.kr(1), s.kr(2)); }
    static S* make(const Spec& s, const CP& c, std::integral_constant<size_t, 4>) { return new S(s.periodicity(), c, s.kr(0), s.kr(1), s.kr(2), s.kr(3)); }
    static S* build(const Spec& s, const CP& c, uint32_t how) {
        bool any_even_per = false;
        for (size_t d = 0; d < D_; d++) any_even_per |= s.per[d] && O_ % 2 == 0;
        if (how == 0 || any_even_per) return make(s, c, std::integral_constant<size_t, D_>());
        std::unique_ptr<S> r(new S(s.periodicity()));
        for (size_t d = 0; d < D_; d++) {
            typename S::KnotContainer k(s.t[d], s.t[d] + s.nt[d]);
            if (how == 1) r->load_knots(d, std::move(k));
            else r->load_knots(d, k);
        }
        if (how == 1) r->load_ctrlPts(CP(c));
        else {
            CP own(c);
            r->load_ctrlPts(own);
        }
        return r.release();
    }
    static void observe(const S& f, const Spec& s, LR& r, const char* what) {
        Pt x;
        int der[D_];
        bool dv = r.below(2);
        std::array<std::pair<double, size_t>, D_> xd;
        for (size_t d = 0; d < D_; d++) {
            double a = s.t[d][O_], b = s.t[d][s.nt[d] - O_ - 1], w = b - a;
            EXPECT(f.range(d).first == a && f.range(d).second == b && f.periodicity(d) == s.per[d] && f.knots_num(d) == s.nt[d], "WRONG-METADATA", "%s: range, periodicity or knots of dimension %zu", what, d);
            x[d] = a + w * r.unit();
            if (s.per[d] && r.below(2)) x[d] += w * ((double)r.below(5) - 2.0);
            der[d] = dv ? (int)r.below((uint32_t)O_ + 2) : 0;
            xd[d] = std::pair<double, size_t>(x[d], (size_t)der[d]);
        }
        double got = Conv<T>::to(dv ? f.derivative_at(xd) : f(x)), scale, nk, want;
        {
            SimNative nat;
            want = ref_eval(s.ref, x.data(), der, &scale, &nk);
        }
        bool rough = O_ == 0;
        for (size_t d = 0; d < D_; d++) rough |= der[d] >= (int)O_;
        if (rough && nk < 1e-5) return;
        double tol = Conv<T>::tol() * (scale + 1.0), e = got - want;
        EXPECT(e <= tol && e >= -tol, "WRONG-RESULT", "%s: dim %zu order %zu: got %.12g, the spline is %.12g", what, (size_t)D_, (size_t)O_, got, want);
    }
};

inline void draw_pool() {
#ifdef INTP_MULTITHREAD
    static const size_t n[] = {0, 1, 2, 3, 5, 8};
    size_t k = n[sim_w_free(6)];
    // always four draws: a pair of runs (C13) that differs in them makes the same other choices
    const uint32_t many = sim_w_free(250), more = sim_w_free(3), extra = sim_w_free(140);
    if (many == 0) k = 9 + (more ? extra % 30 : extra);
    if (k) intp::DedicatedThreadPool<void>::get_instance(k);  // else: on first use
#endif
}

// ------------------------------------------------------------ registry
enum { S_CONSTRUCT, S_CONC, S_READ, S_DET, S_INPUT, S_VALUE, S_FAULT, S_OUTLIVE, S_LEAK, S_N };
struct IEntry {
    const char* tag;
    uint32_t weight;
    int throwing;
    void (*fn[S_N])();
    std::function<void()> (*mini)();  // another user of the library, for any scenario: draws now, runs later
};
extern "C" void ireg(const IEntry* e);
extern "C" const IEntry* ipick(uint32_t k);
