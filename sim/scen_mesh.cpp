// Containers and solvers under failing allocations and failing element
// operations (C11): mesh shape and storage never disagree, a failed operation
// has no effect on anything else, and what worked before works again.
#include "ih.hpp"
#include <vector>

namespace {

template <typename T>
using Aligned64 = intp::util::default_init_allocator<T, intp::AlignedAllocator<T, intp::Alignment::AVX512>>;
template <typename T>
using Aligned = intp::util::default_init_allocator<T, intp::AlignedAllocator<T, intp::Alignment::AVX>>;

template <typename Op>
bool attempt(Op op, const char* what) {
    uint32_t fa = sim_fired(F_ALLOC), ft = sim_fired(F_THROW), fi = sim_fired(F_ITER);
    try {
        Arm a(F_ALLOC), b(F_THROW), c(F_ITER);
        op();
    } catch (const Injected&) {
        EXPECT(sim_fired(F_THROW) > ft || sim_fired(F_ITER) > fi, "SPURIOUS-ERROR", "%s reported an error of an element operation that did not happen", what);
        sim_probe(31);
        return false;
    } catch (const std::bad_alloc&) {
        EXPECT(sim_fired(F_ALLOC) > fa, "SPURIOUS-ERROR", "%s reported bad_alloc although no allocation failed", what);
        sim_probe(30);
        return false;
    } catch (const std::exception&) {
        sim_fail("WRONG-EXCEPTION", "%s failed with an unrelated exception", what);
    }
    EXPECT(sim_fired(F_ALLOC) == fa && sim_fired(F_THROW) == ft && sim_fired(F_ITER) == fi, "ERROR-SWALLOWED", "%s returned normally although something it needs failed", what);
    return true;
}

template <typename T, size_t D, typename A>
struct MS {
    typedef intp::Mesh<T, D, A> M;
    typedef intp::Mesh<T, D, std::allocator<T>> MN;
    typedef intp::Mesh<T, D, Aligned<T>> MA;
    typedef std::array<size_t, D> Ix;

    struct Model {  // what the mesh should hold; unknown = any value
        Ix dim;
        size_t n;
        std::unique_ptr<double[]> v;
        bool any;
        bool gone;  // moved from: may only be assigned to or destroyed
        Model() : n(0), any(false), gone(false) { dim.fill(0); }
        void set(const Ix& d) {
            gone = false;
            dim = d;
            n = 1;
            for (size_t x : d) n *= x;
            v.reset(new double[n]);
            for (size_t i = 0; i < n; i++) v[i] = 0;
            any = false;
        }
        void copy(const Model& o) {
            set(o.dim);
            for (size_t i = 0; i < n; i++) v[i] = o.v[i];
            any = o.any;
            gone = o.gone;
        }
        void swap(Model& o) {
            std::swap(dim, o.dim);
            std::swap(n, o.n);
            v.swap(o.v);
            std::swap(any, o.any);
            std::swap(gone, o.gone);
        }
    };
    // element access with separate indices, and the constructor with separate extents
    static const T& elem(const M& m, const Ix& i, std::integral_constant<size_t, 1>) { return m(i[0]); }
    static const T& elem(const M& m, const Ix& i, std::integral_constant<size_t, 2>) { return m(i[0], i[1]); }
    static const T& elem(const M& m, const Ix& i, std::integral_constant<size_t, 3>) { return m(i[0], i[1], i[2]); }
    static T& elem(M& m, const Ix& i, std::integral_constant<size_t, 1>) { return m((int)i[0]); }
    static T& elem(M& m, const Ix& i, std::integral_constant<size_t, 2>) { return m((int)i[0], (int)i[1]); }
    static T& elem(M& m, const Ix& i, std::integral_constant<size_t, 3>) { return m((int)i[0], (int)i[1], (int)i[2]); }
    static M* make(const Ix& d, uint32_t how, std::integral_constant<size_t, 1>) { return how ? new M((int)d[0]) : new M(intp::MeshDimension<D>(d)); }
    static M* make(const Ix& d, uint32_t how, std::integral_constant<size_t, 2>) { return how ? new M((int)d[0], (int)d[1]) : new M(intp::MeshDimension<D>(d)); }
    static M* make(const Ix& d, uint32_t how, std::integral_constant<size_t, 3>) { return how ? new M((int)d[0], (int)d[1], (int)d[2]) : new M(intp::MeshDimension<D>(d)); }
    typedef std::integral_constant<size_t, D> DC;
    static Ix draw_dim() {
        Ix d;
        const bool large = sim_w(40) == 39;
        if (sim_w(600) == 599) {  // tens of thousands of elements
            for (size_t i = 0; i < D; i++) d[i] = 1 + sim_w(D == 1 ? 33000 : D == 2 ? 180 : 32);
            return d;
        }
        for (size_t i = 0; i < D; i++) d[i] = 1 + (large ? sim_w(D == 1 ? 700 : D == 2 ? 40 : 12) : sim_w(D == 1 ? 20 : D == 2 ? 6 : 4));
        return d;
    }
    static size_t flat(const Ix& dim, const Ix& ix) {
        size_t f = 0;
        for (size_t i = 0; i < D; i++) f = f * dim[i] + ix[i];
        return f;
    }
    static Ix unflat(const Ix& dim, size_t f) {
        Ix ix;
        for (size_t k = 0; k < D; k++) {
            size_t d = D - 1 - k;
            ix[d] = f % dim[d];
            f /= dim[d];
        }
        return ix;
    }
    template <typename Mesh>
    static void check(const Mesh& m, const Model& mo, const char* what) {
        Ix got = m.dimension();
        size_t prod = 1;
        for (size_t d = 0; d < D; d++) {
            prod *= got[d];
            EXPECT(m.dim_size(d) == got[d], "SHAPE", "%s: dim_size and dimension disagree", what);
        }
        EXPECT(m.size() == prod && m.dimension().size() == prod, "SHAPE", "%s: %zu elements stored for a mesh of %zu points", what, (size_t)m.size(), prod);
        EXPECT((size_t)(m.end() - m.begin()) == prod, "SHAPE", "%s: iteration covers %zd of %zu points", what, (ptrdiff_t)(m.end() - m.begin()), prod);
        EXPECT(got == mo.dim, "SHAPE", "%s: the shape is not the expected one", what);
        if (prod) EXPECT(sim_heap_ok(m.data(), prod * sizeof(T)), "SHAPE", "%s: storage is smaller than the mesh", what);
        for (size_t i = 0; i < prod; i++) {
            Ix ix = unflat(got, i);
            const T& e = m(ix);
            EXPECT(&e == m.data() + i, "SHAPE", "%s: element %zu is not where it belongs", what, i);
            EXPECT(m.dimension().indexing(ix) == i && m.dimension().dimwise_indices(i) == ix, "SHAPE", "%s: index conversion of element %zu", what, i);
            double x = Conv<T>::to(e);  // alive and in bounds
            if (!mo.any) EXPECT(x == Conv<T>::to(Conv<T>::from(mo.v[i])), "CONTENT", "%s: element %zu is %g, expected %g", what, i, x, mo.v[i]);
        }
    }
    // every way to walk a const mesh reaches the same elements
    static void walk(const M& m, LR& r) {
        if (m.size() == 0) return;
        size_t n = 0;
        for (auto it = m.begin(); it != m.end(); ++it, ++n)
            EXPECT(m.iter_indices(it) == unflat(m.dimension(), n) && &*it == m.data() + n, "SHAPE", "iteration: element %zu is not where it belongs", n);
        size_t d = r.below((uint32_t)D);
        Ix ix = unflat(m.dimension(), r.below((uint32_t)m.size()));
        auto it = m.begin(d, ix);
        auto first = it;
        ix[d] = 0;
        for (size_t k = 0; k < m.dim_size(d); k++, ++it) {
            ix[d] = k;
            EXPECT(&*it == &elem(m, ix, DC()) && m.iter_indices(it) == ix, "SHAPE", "line iteration: element %zu is not where it belongs", k);
            EXPECT(&first[(ptrdiff_t)k] == &*it && &*(first + (ptrdiff_t)k) == &*it && it - first == (ptrdiff_t)k, "SHAPE", "random access along a line: element %zu", k);
            EXPECT((first < it) == (k > 0) && first <= it && it >= first && !(it < first), "SHAPE", "order of positions along a line: element %zu", k);
        }
        EXPECT(it == m.end(d, ix) && m.end(d, ix) - first == (ptrdiff_t)m.dim_size(d), "SHAPE", "line iteration of a const mesh does not stop at its end");
        for (size_t k = m.dim_size(d); k-- > 0;) {
            ix[d] = k;
            --it;
            EXPECT(&*it == &elem(m, ix, DC()) && it.operator->() == &*it, "SHAPE", "backward line iteration: element %zu is not where it belongs", k);
        }
        EXPECT(it == first, "SHAPE", "backward line iteration does not stop at the beginning");
    }
    static void aligned(const intp::Mesh<T, D, Aligned64<T>>& m) { EXPECT(((uintptr_t)m.data() & 63) == 0, "ALIGNMENT", "storage of a mesh aligned to 64 bytes is not aligned"); }
    static void aligned(const MA& m) { EXPECT(((uintptr_t)m.data() & 31) == 0, "ALIGNMENT", "storage of an aligned mesh is not aligned"); }
    static void aligned(const MN&) {}

    static void run() {
        const int N = 3;
        std::unique_ptr<M> s[N];
        Model mo[N];
        uint32_t k = sim_w(3);
        if (k == 0) sim_plan_at(F_ALLOC, sim_w(30), 1 + sim_w(4));
        else if (k == 1) sim_plan_prob(F_ALLOC, 2 + sim_w(12), 1 + sim_w(6));
        Injected::std_too() = sim_w(3);
        if (k == 2 || sim_w(2)) sim_plan_prob(F_THROW, 3 + sim_w(30), 1 + sim_w(6));
        if (D == 1 && sim_w(2)) sim_plan_prob(F_ITER, 5 + sim_w(60), 1 + sim_w(3));
        int steps = 4 + (int)sim_w(14);
        LR r(sim_w(1u << 20));
        for (int q = 0; q < steps; q++) {
            int i = (int)sim_w(N), j = (int)sim_w(N);
            switch (sim_w(13)) {
                case 0: {  // create
                    Ix d = draw_dim();
                    std::unique_ptr<M> t;
                    uint32_t how = sim_w(2);
                    if (!attempt([&] { t.reset(make(d, how, DC())); }, "mesh construction")) break;
                    mo[i].set(d);
                    s[i] = std::move(t);
                    break;
                }
                case 1: {  // copy construction
                    if (!s[j] || i == j || mo[j].gone) break;
                    std::unique_ptr<M> t;
                    if (attempt([&] { t.reset(new M(*s[j])); }, "mesh copy")) {
                        mo[i].copy(mo[j]);
                        s[i] = std::move(t);
                    }
                    break;
                }
                case 2: {  // copy assignment
                    if (!s[j] || !s[i] || mo[j].gone) break;
                    uint32_t ft = sim_fired(F_THROW);
                    const M& src = *s[j];
                    if (attempt([&] { *s[i] = src; }, "mesh assignment")) {
                        if (i != j) mo[i].copy(mo[j]);
                    } else if (i != j && (mo[i].gone || sim_fired(F_THROW) > ft))
                        mo[i].any = true;  // stopped halfway: elements are a mixture
                    break;
                }
                case 3: {  // move
                    if (!s[j] || i == j || mo[j].gone) break;
                    if (s[i] && sim_w(2)) *s[i] = std::move(*s[j]);
                    else s[i].reset(new M(std::move(*s[j])));
                    mo[i].copy(mo[j]);
                    if (sim_w(3) == 0) s[j].reset();
                    mo[j].gone = true;
                    break;
                }
                case 11: {
                    if (!s[i] || !s[j] || i == j) break;
                    std::swap(*s[i], *s[j]);
                    mo[i].swap(mo[j]);
                    break;
                }
                case 12: {  // a const walk
                    if (!s[i] || mo[i].gone) break;
                    walk(*s[i], r);
                    break;
                }
                case 4:
                case 5: {  // resize: elements keep their place in storage order
                    if (!s[i] || mo[i].gone) break;
                    Ix d = draw_dim();
                    if (!attempt([&] { s[i]->resize(d); }, "mesh resize")) break;
                    Model t;
                    t.set(d);
                    t.any = mo[i].any;
                    NoFault nf;
                    for (size_t e = 0; e < t.n; e++) {
                        if (e < mo[i].n) t.v[e] = mo[i].v[e];
                        else {
                            t.v[e] = (double)e + 0.5;
                            (*s[i])(unflat(d, e)) = Conv<T>::from(t.v[e]);
                        }
                    }
                    mo[i].copy(t);
                    break;
                }
                case 6: {  // conversion from and to the other allocator
                    if (!s[i] || mo[i].gone) break;
                    std::unique_ptr<MN> a;
                    std::unique_ptr<MA> b;
                    if (attempt([&] { a.reset(new MN(*s[i])); b.reset(new MA(*s[i])); }, "mesh conversion")) {
                        check(*a, mo[i], "converted mesh");
                        check(*b, mo[i], "converted mesh");
                        aligned(*b);
                    }
                    break;
                }
                case 7: {  // write along a line with the strided iterator
                    if (!s[i] || mo[i].gone || mo[i].n == 0) break;
                    size_t d = r.below((uint32_t)D);
                    Ix ix = unflat(mo[i].dim, r.below((uint32_t)mo[i].n));
                    size_t c = 0;
                    NoFault nf;
                    auto e = s[i]->end(d, ix);
                    for (auto it = s[i]->begin(d, ix); it != e; ++it, ++c) {
                        double x = r.unit();
                        EXPECT(c < mo[i].dim[d], "SHAPE", "line iteration runs past the end");
                        *it = Conv<T>::from(x);
                        Ix jx = ix;
                        jx[d] = c;
                        mo[i].v[flat(mo[i].dim, jx)] = x;
                    }
                    EXPECT(c == mo[i].dim[d], "SHAPE", "line iteration visits %zu of %zu elements", c, mo[i].dim[d]);
                    break;
                }
                case 8: {  // point writes
                    if (!s[i] || mo[i].gone || mo[i].n == 0) break;
                    NoFault nf;
                    for (int z = 0; z < 4; z++) {
                        size_t f = r.below((uint32_t)mo[i].n);
                        double x = r.unit();
                        if (z & 1) (*s[i])(unflat(mo[i].dim, f)) = Conv<T>::from(x);
                        else elem(*s[i], unflat(mo[i].dim, f), DC()) = Conv<T>::from(x);
                        mo[i].v[f] = x;
                    }
                    break;
                }
                case 9: s[i].reset(); break;
                default: from_range(s[i], mo[i], r, std::integral_constant<bool, D == 1>());
            }
            for (int z = 0; z < N; z++)
                if (s[z] && !mo[z].gone) {
                    check(*s[z], mo[z], "mesh");
                    aligned(*s[z]);
                }
        }
        // two threads read the same mesh and copy it
        for (int z = 0; z < N; z++)
            if (s[z] && !mo[z].gone && sim_w(2)) {
                const M* p = s[z].get();
                const Model* mp = &mo[z];
                std::thread th([=] { sim_client(); M c(*p); check(c, *mp, "copy by another thread"); });
                check(*p, *mp, "mesh read by two threads");
                th.join();
                break;
            }
        sim_leak_check(1);
    }
    static void from_range(std::unique_ptr<M>&, Model&, LR&, std::false_type) {}
    static void from_range(std::unique_ptr<M>& s, Model& mo, LR& r, std::true_type) {
        size_t n = 1 + r.below(12);
        Model t;
        t.set(Ix{{n}});
        std::unique_ptr<T[]> v(new T[n]);
        {
            NoFault nf;
            for (size_t i = 0; i < n; i++) v[i] = Conv<T>::from(t.v[i] = r.unit());
        }
        std::unique_ptr<M> m;
        if (attempt([&] { m.reset(new M(std::make_pair(FIter<T>{v.get()}, FIter<T>{v.get() + n}))); }, "mesh from a range")) {
            mo.copy(t);
            s = std::move(m);
        }
    }
};

// ---------------------------------------------------------------- solvers
template <typename Mat>
struct BS {
    typedef intp::BandLU<Mat> LU;
    static const bool EXT = std::is_same<Mat, intp::ExtendedBandMatrix<double>>::value;
    struct Dense {
        size_t n, p, q;
        std::vector<std::vector<double>> a;
        bool in(size_t i, size_t j) const {
            bool main = j + p >= i && i + q >= j;
            if (main) return true;
            return EXT && (j >= (n - p > i + q + 1 ? n - p : i + q + 1) || i >= (n - q > j + p + 1 ? n - q : j + p + 1));
        }
    };
    static Dense draw() {
        Dense d;
        const bool wide = sim_w(60) == 59;
        d.p = sim_w(wide ? 14 : 4);
        d.q = sim_w(wide ? 14 : 4);
        size_t lo = EXT ? d.p + d.q + 2 : (d.p > d.q ? d.p : d.q) + 1;
        d.n = lo + sim_w(sim_w(24) == 23 ? (sim_w(6) == 5 ? 180 : 54) : 5);
        LR r(sim_w(1u << 20));
        d.a.assign(d.n, std::vector<double>(d.n));
        for (size_t i = 0; i < d.n; i++)
            for (size_t j = 0; j < d.n; j++) d.a[i][j] = !d.in(i, j) ? 0 : i == j ? 9 + r.unit() : r.unit() - 0.5;
        return d;
    }
    static void fill(Mat& m, const Dense& d) {
        for (size_t i = 0; i < d.n; i++)
            for (size_t j = 0; j < d.n; j++)
                if (d.in(i, j)) m(i, j) = d.a[i][j];
    }
    static void same(const Mat& m, const Dense& d, const char* what) {
        EXPECT(m.dim() == d.n && m.lower_band_width() == d.p && m.upper_band_width() == d.q, "SHAPE", "%s: the shape of the matrix changed", what);
        for (size_t i = 0; i < d.n; i++)
            for (size_t j = 0; j < d.n; j++)
                if (d.in(i, j)) EXPECT(m(i, j) == d.a[i][j], "CONTENT", "%s: element (%zu,%zu) of the matrix changed", what, i, j);
    }
    static void solves(const LU& lu, const Dense& d, uint32_t seed, const char* what) {
        LR r(seed);
        std::vector<double> b(d.n), x;
        for (auto& e : b) e = r.unit() - 0.5;
        if (seed & 1) x = lu.solve(b);
        else {
            x = b;
            if (seed & 2) lu.solve_in_place(x);
            else {
                double* px = x.data();
                lu.solve_in_place(px);
            }
        }
        for (size_t i = 0; i < d.n; i++) {
            double s = -b[i];
            for (size_t j = 0; j < d.n; j++) s += d.a[i][j] * x[j];
            EXPECT(s < 1e-9 && s > -1e-9, "WRONG-SOLUTION", "%s: residual %g in row %zu", what, s, i);
        }
    }
    static void run() {
        uint32_t k = sim_w(2);
        if (k == 0) sim_plan_at(F_ALLOC, sim_w(24), 1 + sim_w(4));
        else sim_plan_prob(F_ALLOC, 2 + sim_w(12), 1 + sim_w(6));
        // two matrices, usually of different shapes; a solver is for one of them
        std::unique_ptr<Dense> ds[2];
        std::unique_ptr<Mat> ms[2];
        for (int z = 0; z < 2; z++) {
            ds[z].reset(new Dense(draw()));
            while (!attempt([&] { ms[z].reset(new Mat(ds[z]->n, ds[z]->p, ds[z]->q)); }, "matrix construction")) {}
            fill(*ms[z], *ds[z]);
        }
        const int N = 3;
        std::unique_ptr<LU> lu[N];
        int of[N] = {0, 0, 0};
        int steps = 3 + (int)sim_w(10);
        LR r(sim_w(1u << 20));
        for (int z = 0; z < steps; z++) {
            int i = (int)sim_w(N), j = (int)sim_w(N), w = sim_w(3) == 2;
            const Dense& d = *ds[w];
            const std::unique_ptr<Mat>& m = ms[w];
            switch (sim_w(12)) {
                case 7: {  // assignment over a matrix of another shape
                    std::unique_ptr<Dense> ep(new Dense(draw()));
                    const Dense& e = *ep;
                    std::unique_ptr<Mat> c;
                    if (!attempt([&] { c.reset(new Mat(e.n, e.p, e.q)); }, "matrix construction")) break;
                    fill(*c, e);
                    const Mat& src = *m;
                    if (attempt([&] { *c = src; }, "matrix assignment")) {
                        same(*c, d, "assigned matrix");
                        break;
                    }
                    // what is left is a matrix of some shape, all of it accessible
                    std::unique_ptr<Dense> xp(new Dense(d));
                    Dense& x = *xp;
                    x.n = c->dim();
                    x.a.assign(x.n, std::vector<double>(x.n));
                    x.p = c->lower_band_width();
                    x.q = c->upper_band_width();
                    EXPECT((x.n == d.n || x.n == e.n) && (x.p == d.p || x.p == e.p) && (x.q == d.q || x.q == e.q), "SHAPE", "after failing to assign a matrix its shape is %zu, %zu, %zu", x.n, x.p, x.q);
                    for (size_t a = 0; a < x.n; a++)
                        for (size_t b = 0; b < x.n; b++) x.a[a][b] = (double)(a * 20 + b);
                    fill(*c, x);
                    same(*c, x, "matrix after a failed assignment");
                    Mat& cr = *c;
                    if (attempt([&] { cr = src; }, "matrix assignment")) same(*c, d, "matrix assigned again");
                    break;
                }
                case 8: {  // a solver that failed to be assigned can still be set up
                    if (!lu[j] || i == j) break;
                    const LU& src = *lu[j];
                    std::unique_ptr<LU> t;
                    while (!attempt([&] { t.reset(new LU()); }, "solver construction")) {}
                    if (attempt([&] { *t = src; }, "solver assignment")) {
                        lu[i] = std::move(t);
                        of[i] = of[j];
                        break;
                    }
                    bool ok = false;
                    for (int y = 0; y < 12 && !ok; y++) ok = attempt([&] { t->compute(*m); }, "decomposition after a failed assignment");
                    if (ok) { lu[i] = std::move(t); of[i] = w; }
                    break;
                }
                case 0: {  // two-step set-up, retried until there is enough memory
                    lu[i].reset();
                    while (!attempt([&] { lu[i].reset(new LU()); }, "solver construction")) {}
                    std::unique_ptr<Mat> c;
                    bool ok = false;
                    for (int y = 0; y < 12 && !ok; y++)
                        ok = attempt([&] { c.reset(new Mat(*m)); lu[i]->compute(std::move(*c)); }, "decomposition");
                    if (!ok) lu[i].reset();
                    of[i] = w;
                    break;
                }
                case 1: {  // the matrix is the caller's: a solver takes a copy
                    std::unique_ptr<LU> t;
                    if (attempt([&] { t.reset(new LU(*m)); }, "solver from a matrix")) { lu[i] = std::move(t); of[i] = w; }
                    break;
                }
                case 2: {
                    std::unique_ptr<LU> t;
                    while (!attempt([&] { t.reset(new LU()); }, "solver construction")) {}
                    bool ok = false;  // a failed attempt leaves a solver that can try again
                    for (int y = 0; y < 12 && !ok; y++) ok = attempt([&] { t->compute(*m); }, "decomposition of the caller's matrix");
                    if (ok) { lu[i] = std::move(t); of[i] = w; }
                    break;
                }
                case 3: {
                    if (!lu[j] || i == j) break;
                    const LU& src = *lu[j];
                    std::unique_ptr<LU> t;
                    if (attempt([&] { t.reset(new LU(src)); }, "solver copy")) { lu[i] = std::move(t); of[i] = of[j]; }
                    break;
                }
                case 4:
                case 9: {
                    if (!lu[j] || !lu[i]) break;
                    const LU& src = *lu[j];
                    if (!attempt([&] { *lu[i] = src; }, "solver assignment") && !attempt([&] { *lu[i] = src; }, "solver assignment")) lu[i].reset();
                    else of[i] = of[j];
                    break;
                }
                case 5: {
                    if (!lu[i]) break;
                    lu[i].reset(new LU(std::move(*lu[i])));
                    break;
                }
                case 10: {  // move over a solver of another matrix, or exchange them
                    if (!lu[i] || !lu[j] || i == j) break;
                    if (sim_w(2)) {
                        std::swap(*lu[i], *lu[j]);
                        std::swap(of[i], of[j]);
                    } else {
                        *lu[i] = std::move(*lu[j]);
                        of[i] = of[j];
                        lu[j].reset();
                    }
                    break;
                }
                default: {
                    std::unique_ptr<Mat> c;
                    if (attempt([&] { c.reset(new Mat(*m)); Mat e; e = *c; *c = std::move(e); }, "matrix copy")) same(*c, d, "matrix copy");
                }
            }
            for (int y = 0; y < 2; y++) same(*ms[y], *ds[y], "caller's matrix");
            if (r.below(3) == 0) {
                std::vector<double> v(d.n), u;
                for (auto& e : v) e = r.unit() - 0.5;
                if (attempt([&] { u = *m * v; }, "product"))
                    for (size_t a = 0; a < d.n; a++) {
                        double t = u[a];
                        for (size_t b = 0; b < d.n; b++) t -= d.a[a][b] * v[b];
                        EXPECT(t < 1e-9 && t > -1e-9, "WRONG-PRODUCT", "product of matrix and vector: row %zu is off by %g", a, t);
                    }
            }
            for (int y = 0; y < N; y++)
                if (lu[y]) solves(*lu[y], *ds[of[y]], (uint32_t)r.next(), "solver");
        }
        for (int y = 0; y < N; y++)
            if (lu[y]) {  // a solver may be shared
                const LU* p = lu[y].get();
                const Dense* dp = ds[of[y]].get();
                uint32_t s1 = (uint32_t)r.next(), s2 = (uint32_t)r.next();
                std::thread th([=] { sim_client(); solves(*p, *dp, s1, "shared solver"); });
                solves(*p, *dp, s2, "shared solver");
                th.join();
                break;
            }
        sim_leak_check(1);
    }
};

// the aligned allocator in an ordinary vector
template <typename T, intp::Alignment A>
void aligned_vector() {
    typedef std::vector<T, intp::AlignedAllocator<T, A>> V;
    sim_plan_prob(F_ALLOC, 2 + sim_w(12), 1 + sim_w(6));
    V v[2];
    std::vector<double> mo[2];
    LR r(sim_w(1u << 20));
    int steps = 4 + (int)sim_w(20);
    for (int q = 0; q < steps; q++) {
        int i = (int)sim_w(2);
        V &a = v[i], &b = v[1 - i];
        std::vector<double>&ma = mo[i], &mb = mo[1 - i];
        double x = r.unit();
        size_t n = r.below(40);
        switch (sim_w(8)) {
            case 0: if (attempt([&] { a.assign(n, Conv<T>::from(x)); }, "assign")) ma.assign(n, x); break;
            case 1: if (attempt([&] { a = static_cast<const V&>(b); }, "vector assignment")) ma = mb; break;
            case 2: a = std::move(b); ma = mb; b.clear(); mb.clear(); break;
            case 3: a.swap(b); ma.swap(mb); break;
            case 4: if (attempt([&] { a.resize(n); }, "resize")) { for (size_t k = ma.size(); k < n; k++) a[k] = Conv<T>::from(x); ma.resize(n, x); } break;
            case 5: if (attempt([&] { V t(b); a.swap(t); }, "vector copy")) ma = mb; break;
            default: if (attempt([&] { a.push_back(Conv<T>::from(x)); }, "push_back")) ma.push_back(x);
        }
        for (int z = 0; z < 2; z++) {
            EXPECT(v[z].size() == mo[z].size(), "SHAPE", "aligned vector has %zu elements, expected %zu", v[z].size(), mo[z].size());
            if (v[z].empty()) continue;
            EXPECT(((uintptr_t)v[z].data() & ((size_t)A - 1)) == 0, "ALIGNMENT", "storage of an aligned vector is not aligned");
            EXPECT(sim_heap_ok(v[z].data(), v[z].size() * sizeof(T)), "SHAPE", "storage of an aligned vector is too small");
            for (size_t k = 0; k < mo[z].size(); k++) EXPECT(Conv<T>::to(v[z][k]) == Conv<T>::to(Conv<T>::from(mo[z][k])), "CONTENT", "element %zu of an aligned vector", k);
        }
    }
    sim_leak_check(1);
}

void containers() {
    switch (sim_w(16)) {
        case 12: MS<double, 2, Aligned64<double>>::run(); break;
        case 13: sim_w(2) ? aligned_vector<double, intp::Alignment::AVX>() : aligned_vector<float, intp::Alignment::AVX512>(); break;
        case 14: sim_w(2) ? aligned_vector<double, intp::Alignment::SSE>() : aligned_vector<char, intp::Alignment::NORMAL>(); break;
        case 15: BS<intp::BandMatrix<double>>::run(); break;
        case 0: MS<double, 1, std::allocator<double>>::run(); break;
        case 1: MS<double, 2, std::allocator<double>>::run(); break;
        case 2: MS<double, 2, Aligned<double>>::run(); break;
        case 3: MS<double, 3, Aligned<double>>::run(); break;
        case 4: MS<ThrowVal, 1, std::allocator<ThrowVal>>::run(); break;
        case 5: MS<ThrowVal, 2, std::allocator<ThrowVal>>::run(); break;
        case 6: MS<ThrowVal, 2, Aligned<ThrowVal>>::run(); break;
        case 7: MS<float, 3, Aligned<float>>::run(); break;
        case 8:
        case 9: BS<intp::BandMatrix<double>>::run(); break;
        default: BS<intp::ExtendedBandMatrix<double>>::run();
    }
}
}  // namespace
SCENARIO("containers", containers, 200000000);
