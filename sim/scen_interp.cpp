// Interpolation scenarios, one translation unit per slice of (T, D, O).
#include "ih.hpp"

namespace {

template <typename K>
struct Scen {
    typedef typename K::Fn Fn;
    typedef typename K::Tmpl Tmpl;
    typedef typename K::MeshT MeshT;
    typedef typename K::T T;
    static const size_t D = K::D;
    static const size_t O = K::O;
    typedef std::unique_ptr<Fn> FnP;
    typedef std::unique_ptr<Tmpl> TmplP;
    typedef std::unique_ptr<MeshT> MeshP;
    typedef std::unique_ptr<Model<D>> ModelP;

    static int occasionally_big() {
        uint32_t k = sim_w(240);
        if (k == 239) { sim_probe(12); return 3; }
        if (k >= 235) { sim_probe(12); return 4; }
        return D < 3 && k < 20 ? 1 + (int)(k & 1) : 0;
    }
    static uint32_t vseed() { return sim_w(1u << 20); }

    typedef SplineKit<T, K::D, K::O> SK;
    typedef std::unique_ptr<typename SK::S> SplP;
    static void spline() {
        typename SK::Spec sp;
        LR r(vseed());
        std::unique_ptr<typename SK::CP> cp(SK::points(sp));
        SplP s(SK::build(sp, *cp, sim_w(3)));
        cp.reset();
        for (int i = 0; i < 5; i++) SK::observe(*s, sp, r, "spline from control points");
        SplP c(new typename SK::S(*s));
        s.reset();
        for (int i = 0; i < 2; i++) SK::observe(*c, sp, r, "copy of a spline");
        sim_probe(13);
    }

    // Very many lines: too much for the reference, but the function must at
    // least pass through its data, at the ends of the grid above all.
    struct MakeT {
        typedef Tmpl* R;
        const std::array<bool, D>& per;
        const intp::MeshDimension<D>& md;
        template <typename... Ts>
        Tmpl* operator()(Ts... rs) { return new Tmpl(per, md, rs...); }
    };
    typedef std::pair<double, double> DR;
    static Tmpl* make_t(MakeT& mk, const std::array<double, D>& b, std::integral_constant<size_t, 1>) { return mk(DR(0, b[0])); }
    static Tmpl* make_t(MakeT& mk, const std::array<double, D>& b, std::integral_constant<size_t, 2>) { return mk(DR(0, b[0]), DR(0, b[1])); }
    static Tmpl* make_t(MakeT& mk, const std::array<double, D>& b, std::integral_constant<size_t, 3>) { return mk(DR(0, b[0]), DR(0, b[1]), DR(0, b[2])); }
    static Tmpl* make_t(MakeT& mk, const std::array<double, D>& b, std::integral_constant<size_t, 4>) { return mk(DR(0, b[0]), DR(0, b[1]), DR(0, b[2]), DR(0, b[3])); }
    static void enormous() {
        std::array<bool, D> per;
        std::array<size_t, D> ext;
        std::array<double, D> b;
        size_t thin = sim_w((uint32_t)D), size = 1;
        const bool wider = D == 2 && O < 3 && sim_w(16) == 15;  // more lines than 16 bits can count
        uint32_t each = wider ? 65600 : D == 1 ? 3000 : D == 2 ? 4100 : D == 3 ? 64 : 16;
        for (size_t d = 0; d < D; d++) {
            per[d] = sim_w(2);
            size_t lo = O < 2 ? 4 : O + 2;
            ext[d] = D == 1 || d != thin ? each + sim_w(wider ? 40 : each / 4) : lo;
            if (D == 2 && O > 3 && d != thin) ext[d] /= 4;
            size *= ext[d];
            b[d] = (double)(ext[d] - 1);
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
            if (per[d]) b[d] += 1;
#endif
        }
        intp::MeshDimension<D> md(ext);
        MakeT mk{per, md};
        TmplP t(make_t(mk, b, std::integral_constant<size_t, D>()));
        uint32_t vs = vseed();
        MeshP mesh(new MeshT(md));
        for (size_t i = 0; i < size; i++) (*mesh)(md.dimwise_indices(i)) = Conv<T>::from(data_value(vs, i));
        FnP f(new Fn());
        if (sim_w(2)) t->interpolate(*f, *mesh);
        else *f = t->interpolate(*mesh);
        mesh.reset();
        LR r(vseed());
        for (int k = 0; k < 300; k++) {
            std::array<size_t, D> ix;
            typename K::Pt x;
            for (size_t d = 0; d < D; d++) {
                uint32_t e = (uint32_t)ext[d], q = r.below(3);
#ifndef INTP_PERIODIC_NO_DUMMY_POINT
                if (per[d]) e--;  // the last one repeats the first
#endif
                ix[d] = q == 0 ? r.below(e) : q == 1 ? e - 1 - r.below(e < 12 ? e : 12) : r.below(e < 12 ? e : 12);
                x[d] = (double)ix[d];
            }
            double want = Conv<T>::to(Conv<T>::from(data_value(vs, md.indexing(ix)))), got = Conv<T>::to((*f)(x)), e = got - want;
            double tol = Conv<T>::tol() * 1e3;
            if (O > 0) EXPECT(e <= tol && e >= -tol, "WRONG-RESULT", "large mesh: dim %zu order %zu at data point %zu: got %.12g, the datum is %.12g", (size_t)D, (size_t)O, md.indexing(ix), got, want);
        }
        sim_probe(16);
    }

    // C01 ------------------------------------------------------------------
    static void construct() {
        draw_pool();
        if (sim_w(160) == 159) {
            enormous();
            sim_leak_check(1);
            return;
        }
        if (D < 3 && sim_w(250) == 249) {
            marathon();
            return;
        }
        if (sim_w(8) == 0) {
            spline();
            sim_leak_check(1);
            return;
        }
        bool wide = sim_w(40) == 39;
        Cfg<D> c = draw_cfg<D>(O, wide ? 3 : D >= 3 ? (int)sim_w(2) : (int)sim_w(3));
        // a second grid with as many points, used in turn
        const bool twin = !wide && sim_w(3) == 0;
        TmplP tt[2];
        Cfg<D> cs[2] = {c, twin ? twin_cfg(c, O) : c};
        for (int i = 0; i < 1 + twin; i++) tt[i].reset(K::new_tmpl(cs[i]));
        int n = wide ? 1 : 1 + (int)sim_w(2) + twin;
        if (wide) sim_probe(12);
        MeshP meshes[2];
        const bool refill = sim_w(2);
        std::function<void()> ok = other_kind(12);
        for (int i = 0; i < n; i++) {
            TmplP& t = tt[twin & i];
            MeshP& mesh = meshes[twin & i];
            Model<D> m(cs[twin & i], O, vseed());  // other data each time
            if (mesh) K::fill_mesh(*mesh, m);
            else mesh.reset(K::new_mesh(m));
            FnP f(K::build((int)sim_w((uint32_t)K::npaths()), *t, m, *mesh));
            if (sim_w(4) == 0) K::mesh_intact(*mesh, m);
            if (!refill) mesh.reset();
            if (ok) ok();
            K::observe_n(*f, m, vseed(), D >= 3 ? 5 : 8, "construction");
#ifdef INTP_CELL_LAYOUT
            LR r(vseed());
            for (int k = 0; k < 3; k++) K::observe_proxy(*t, *f, m, r, "evaluation proxy");
#endif
        }
        sim_leak_check(1);
    }

    // a small user of this kind of function beside (or between) users of other kinds
    static std::function<void()> mini() {
        Cfg<D> c = draw_cfg<D>(O, 0);
        std::shared_ptr<Model<D>> m(new Model<D>(c, O, vseed()));
        uint32_t seed = vseed();
        return [=] {
            LR r(seed);
            TmplP t(K::new_tmpl(m->c));
            MeshP mesh(K::new_mesh(*m));
            FnP f(K::build((int)r.below(4), *t, *m, *mesh));
            mesh.reset();
            for (int k = 0; k < 3; k++) K::observe(*f, *m, r, "function of another kind");
            K::observe_proxy(*t, *f, *m, r, "proxy of another kind");
        };
    }
    static std::function<void()> other_kind(uint32_t rate) {
        if (sim_w(rate) != 0) return std::function<void()>();
        sim_probe(18);
        return ipick(sim_w(64))->mini();
    }
    // hundreds of calls in one process
    static void marathon() {
        sim_probe(19);
        Cfg<D> c = draw_cfg<D>(O, 0), c2 = twin_cfg(c, O);
        TmplP t(K::new_tmpl(c)), t2(K::new_tmpl(c2));
        ModelP m[2];
        MeshP me[2];
        for (int i = 0; i < 2; i++) {
            m[i].reset(new Model<D>(i ? c2 : c, O, vseed()));
            me[i].reset(K::new_mesh(*m[i]));
        }
        LR r(vseed());
        const uint32_t style = sim_w(4);
        const int n = 258 + (int)sim_w(20);
        FnP keep(new Fn(t->interpolate(*me[0])));
        for (int i = 0; i < n; i++) {
            int q = style & 1 ? 0 : i & 1;
            if (style & 2) (q ? t2 : t)->interpolate(*keep, *me[q]);
            else keep.reset(K::build((int)r.below(2), q ? *t2 : *t, *m[q], *me[q]));
            if (i % 3 == 0 || i > 250) K::observe(*keep, *m[q], r, "one of hundreds of calls");
        }
        K::mesh_intact(*me[0], *m[0]);
        sim_leak_check(1);
    }

    // C02 ------------------------------------------------------------------
    static void conc_client(const Tmpl* t1, const Tmpl* t2, const ModelP* mo, const MeshT* shared, const Model<D>* ms, uint32_t seed, int reps) {
        sim_client();
        LR r(seed);
        MeshP own;
        const bool refill = r.below(2);  // one mesh object with changing contents, or fresh ones
        const int fixed = r.below(2) ? (int)r.below((uint32_t)K::npaths()) : -1;
        for (int i = 0; i < reps; i++) {
            bool sh = r.below(4) == 0;
            const Model<D>* m = mo[i & 1].get();
            const Tmpl* t = i & 1 && !sh ? t2 : t1;
            if (!sh && own && own->size() == m->c.mesh_size()) K::fill_mesh(*own, *m);
            else if (!sh) own.reset(K::new_mesh(*m));
            const Model<D>& mm = sh ? *ms : *m;
            FnP f(K::build(fixed >= 0 ? fixed : (int)r.below((uint32_t)K::npaths()), *t, mm, sh ? *shared : *own));
            if (!refill) own.reset();
            for (int k = 0; k < 4; k++) K::observe(*f, mm, r, "concurrent interpolation");
            if (r.below(3) == 0) K::observe_proxy(*t, *f, mm, r, "concurrent proxy");
            sim_probe(10);
        }
    }
    static void conc() {
        if (sim_w(2)) draw_pool();
        Cfg<D> c = draw_cfg<D>(O, occasionally_big());
        TmplP t(K::new_tmpl(c));
        Model<D> ms(c, O, vseed());
        MeshP shared(K::new_mesh(ms));
        int n = 2 + (int)sim_w(D >= 3 ? 1 : 2);
        int reps = 1 + (int)sim_w(D >= 3 ? 2 : 3);
        if (D < 3 && sim_w(40) == 39) n = 5 + (int)sim_w(13);
        // every other call may be for another grid
        TmplP tw;
        Cfg<D> c2 = c;
        if (reps > 1 && sim_w(3) == 0) {
            c2 = twin_cfg(c, O);
            tw.reset(K::new_tmpl(c2));
        }
        std::unique_ptr<ModelP[]> mo(new ModelP[(size_t)n * 2]);
        std::unique_ptr<std::thread[]> th(new std::thread[(size_t)n]);
        for (int i = 0; i < n * 2; i++) mo[(size_t)i].reset(i % 2 && reps == 1 ? nullptr : new Model<D>(i % 2 ? c2 : c, O, vseed()));
        for (int i = 1; i < n; i++) {
            const ModelP* mp = &mo[(size_t)i * 2];
            uint32_t s = vseed();
            const Tmpl *tp = t.get(), *tp2 = tw ? tw.get() : tp;
            const MeshT* sp = shared.get();
            const Model<D>* msp = &ms;
            th[(size_t)i] = std::thread([=] { conc_client(tp, tp2, mp, sp, msp, s, reps); });
        }
        std::thread ot;
        std::function<void()> ok = other_kind(6);
        if (ok) ot = std::thread([&ok] {
            sim_client();
            ok();
        });
        conc_client(t.get(), tw ? tw.get() : t.get(), &mo[0], shared.get(), &ms, vseed(), reps);
        for (int i = 1; i < n; i++) th[(size_t)i].join();
        if (ot.joinable()) ot.join();
        K::mesh_intact(*shared, ms);
        sim_leak_check(1);
    }

    // C03 ------------------------------------------------------------------
    // far away nothing can be said about the value, except that it is always the same
    static double far_value(const Fn& f, uint32_t k) {
        static const double big[] = {1e9, -1e9, 1e18, -1e18, 1e300, -1e300, HUGE_VAL, -HUGE_VAL, NAN};
        typename K::Pt x;
        typename K::Der der;
        for (size_t d = 0; d < D; d++) {
            x[d] = (k >> d) & 1 ? f.range(d).first : big[(k >> (4 + 3 * d)) % 9];
            der[d] = (k >> 3) & 1;
        }
        return Conv<T>::to(k & 1024 ? f.derivative(x, der) : f(x));
    }
    static void far_same(double a, double b) {
        EXPECT(memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b), "WRONG-RESULT", "a point far away has value %g once and %g another time", a, b);
    }
    static void either(const Tmpl& t, const Fn& f, const Model<D>& m, LR& r, const char* what) {
        if (r.below(2)) K::observe(f, m, r, what);
        else K::observe_proxy(t, f, m, r, what);
    }
    struct Shared {  // one proxy for all readers
        std::function<T(const Fn&)> fn;
        typename K::Pt x;
    };
    static void reader(const Tmpl* t, const Fn* f, const Model<D>* m, const Tmpl* t2, const Fn* f2, const Model<D>* m2, uint32_t seed, int n, uint32_t fk, double fv, const Shared* px) {
        sim_client();
        LR r(seed);
        if (fk) far_same(far_value(*f, fk), fv);
        Fn own;
        for (int i = 0; i < n; i++) {
            if (f2 && r.below(3) == 0) {  // one object that is one function now and another one then
                own = *f;
                either(*t, own, *m, r, "reader's own function");
                own = *f2;
                either(*t2, own, *m2, r, "reader's own function, the other one");
                K::observe(*f2, *m2, r, "concurrent read of the other function");
            }
            if (px && r.below(3) == 0) {
                typename K::Der der;
                for (size_t d = 0; d < D; d++) der[d] = 0;
                K::compare(Conv<T>::to(px->fn(*f)), *m, px->x, der, "proxy shared by several threads", "WRONG-PROXY-RESULT");
            }
            if (r.below(4) == 0) K::observe_proxy(*t, *f, *m, r, "concurrent proxy");
            else K::observe(*f, *m, r, "concurrent read");
            if (r.below(6) == 0) {  // copying is reading, too
                FnP g(new Fn(*f));
                K::observe(*g, *m, r, "copy made while others read");
            }
        }
    }
    static void read() {
        draw_pool();
        Cfg<D> c = draw_cfg<D>(O, occasionally_big());
        Model<D> m(c, O, vseed()), m2(c, O, vseed());
        TmplP t(K::new_tmpl(c)), tw;
        MeshP mesh(K::new_mesh(m));
        FnP f(K::build((int)sim_w((uint32_t)K::npaths()), *t, m, *mesh)), other;
        mesh.reset();
        ModelP mw;
        if (sim_w(3) == 0) {
            Cfg<D> c2 = sim_w(3) ? twin_cfg(c, O) : draw_cfg<D>(O, 0);
            mw.reset(new Model<D>(c2, O, vseed()));
            tw.reset(K::new_tmpl(c2));
            MeshP me(K::new_mesh(*mw));
            other.reset(new Fn(tw->interpolate(*me)));
        }
        int n = 2 + (int)sim_w(3), ops = 2 + (int)sim_w(5);
        if (sim_w(40) == 39) n = 6 + (int)sim_w(14);
        if (sim_w(200) == 199) ops = 270;
        Shared sh;
        const Shared* shp = nullptr;
#ifdef INTP_CELL_LAYOUT
        if (sim_w(3) == 0) {
            LR q(vseed());
            bool o;
            sh.x = K::draw_point(c, q, &o);
            sh.fn = t->eval_proxy(sh.x);
            shp = &sh;
        }
#endif
        bool builder = sim_w(4) == 0;
        const uint32_t fk = sim_w(4) == 0 ? vseed() | 1u << 20 : 0;
        const double fv = fk ? far_value(*f, fk) : 0;
        std::unique_ptr<std::thread[]> th(new std::thread[(size_t)n + 1]);
        const Tmpl *tp = t.get(), *tp2 = tw.get();
        const Fn* fp = f.get();
        const Fn* fp2 = other.get();
        const Model<D>*mp = &m, *mp2 = &m2, *mpw = mw.get();
        for (int i = 1; i < n; i++) {
            uint32_t s = vseed();
            th[(size_t)i] = std::thread([=] { reader(tp, fp, mp, tp2, fp2, mpw, s, ops, fk, fv, shp); });
        }
        if (builder) {
            uint32_t s = vseed();
            th[(size_t)n] = std::thread([=] {
                sim_client();
                LR r(s);
                MeshP ms(K::new_mesh(*mp2));
                FnP g(K::build((int)r.below(2), *tp, *mp2, *ms));
                ms.reset();
                for (int k = 0; k < 3; k++) K::observe(*g, *mp2, r, "interpolation next to readers");
            });
        }
        reader(tp, fp, mp, tp2, fp2, mpw, vseed(), ops, fk, fv, shp);
        for (int i = 1; i <= n; i++)
            if (th[(size_t)i].joinable()) th[(size_t)i].join();
        K::observe_n(*f, m, vseed(), 2, "after concurrent reads");
        sim_leak_check(1);
    }

    // C13 ------------------------------------------------------------------
    // bit-for-bit reproducibility, whatever ran before, beside or in between
    static void sample(const Tmpl& t, const Fn& f, const Cfg<D>& c, uint32_t seed, double* out, int n) {
        LR r(seed);
        for (int i = 0; i < n; i++) {
            bool o;
            typename K::Pt x = K::draw_point(c, r, &o);
            sim_stack_garbage();
            if (i % 3 == 2) {
                typename K::Der der;
                for (size_t d = 0; d < D; d++) der[d] = r.below((uint32_t)O + 1);
                out[i] = Conv<T>::to(f.derivative(x, der));
            }
#ifdef INTP_CELL_LAYOUT
            else if (i % 4 == 3) {
                auto px = t.eval_proxy(x);
                sim_stack_garbage();
                out[i] = Conv<T>::to(px(f));
            }
#endif
            else
                out[i] = Conv<T>::to(f(x));
        }
    }
    static void same(const double* a, const double* b, int n, const char* what) {
        for (int i = 0; i < n; i++)
            EXPECT(memcmp(&a[i], &b[i], sizeof(double)) == 0, "NOT-REPRODUCIBLE", "%s: sample %d is %.17g once and %.17g another time", what, i, a[i], b[i]);
    }
    static void dig(double v) {
        uint64_t u;
        memcpy(&u, &v, sizeof u);
        sim_digest(u);
    }
    static void det() {
        draw_pool();  // must not influence any result
        bool wide = sim_w(80) == 79;
        Cfg<D> c = draw_cfg<D>(O, wide ? 3 : D >= 3 ? 0 : (int)sim_w(2));
        Model<D> m(c, O, vseed()), m2(c, O, vseed());
        int path = (int)sim_w((uint32_t)K::npaths());
        const int N = 12;
        double a[N], b[N];
        uint32_t ps = vseed();
        TmplP t(K::new_tmpl(c));
        MeshP mesh(K::new_mesh(m));
        FnP f(K::build(path, *t, m, *mesh));
        sample(*t, *f, c, ps, a, N);
        sample(*t, *f, c, ps, b, N);
        same(a, b, N, "evaluating the same function twice");
        for (int i = 0; i < N; i++) dig(a[i]);
        // other work in between / beside
        std::thread beside;
        const Tmpl* tp = t.get();
        const Model<D>* mp2 = &m2;
        bool par = sim_w(2);
        if (par)
            beside = std::thread([=] {
                sim_client();
                MeshP ms(K::new_mesh(*mp2));
                FnP g(K::build(0, *tp, *mp2, *ms));
            });
        else if (!wide && sim_w(2)) {  // another grid with as many points
            Cfg<D> c2 = twin_cfg(c, O);
            Model<D> mw(c2, O, vseed());
            TmplP tw(K::new_tmpl(c2));
            MeshP ms(K::new_mesh(mw));
            FnP g(K::build(0, *tw, mw, *ms));
            double z[N];
            sample(*tw, *g, c2, ps, z, N);
        } else {
            MeshP ms(K::new_mesh(m2));
            FnP g(K::build(0, *t, m2, *ms));
            double z[N];
            sample(*t, *g, c, ps, z, N);
        }
        TmplP t2;
        if (sim_w(2)) t2.reset(K::new_tmpl(c));
        FnP g(K::build(path < 2 ? (int)sim_w(2) : path, t2 ? *t2 : *t, m, *mesh));
        sample(*t, *g, c, ps, b, N);
        same(a, b, N, "constructing the same function twice");
        if (beside.joinable()) beside.join();
        sample(*t, *f, c, ps, b, N);
        same(a, b, N, "evaluating the same function later");
        LR r(vseed());
        for (int i = 0; i < 2; i++) K::observe(*g, m, r, "second construction");
        sim_digest_done();
        sim_leak_check(1);
    }

    // C14 ------------------------------------------------------------------
    // inputs are only read, only during the call
    static void input() {
        draw_pool();
        Cfg<D> c = draw_cfg<D>(O, occasionally_big());
        Model<D> m(c, O, vseed());
        std::unique_ptr<Inputs<D>> in(new Inputs<D>(c));
        typename K::MakeTmpl mk{c};
        MeshP mesh(K::new_mesh(m));
        const MeshT* mp = mesh.get();
        const Model<D>* mo = &m;
        const Inputs<D>* ip = in.get();
        const bool early = sim_w(3) == 0;  // the coordinates die right after the template was made
        int n = early ? 0 : (int)sim_w(3);
        std::unique_ptr<std::thread[]> th(new std::thread[(size_t)n + 1]);
        std::atomic<int> go{0};
        std::atomic<int>* gp = &go;
        for (int i = 0; i < n; i++)
            th[(size_t)i] = std::thread([=] {
                sim_client();
                int k = 0;
                do {
                    K::mesh_intact(*mp, *mo);
                    for (size_t d = 0; d < D; d++)
                        for (size_t j = 0; j < mo->c.np[d]; j++) EXPECT(ip->x[d][j] == mo->c.xs[d][j], "INPUT-CHANGED", "coordinate %zu of dimension %zu changed", j, d);
                } while (gp->load() == 0 && ++k < 4);
            });
        TmplP t(Dispatch<D>::go(mk, *in));
        if (early) {
            for (size_t d = 0; d < D; d++)
                for (size_t j = 0; j < c.np[d]; j++) {
                    EXPECT(in->x[d][j] == c.xs[d][j], "INPUT-CHANGED", "coordinate %zu of dimension %zu changed", j, d);
                    in->x[d][j] = 777 - (double)j;
                }
            if (sim_w(2)) in.reset();
        }
        int paths = K::npaths();
        FnP f(K::build((int)sim_w((uint32_t)paths), *t, m, *mesh));
        sim_stack_retire();
        go.store(1);
        for (int i = 0; i < n; i++) th[(size_t)i].join();
        K::mesh_intact(*mesh, m);
        in.reset();  // from here on the caller's inputs are gone
        // overwrite and free the mesh
        for (size_t i = 0; i < c.mesh_size(); i++) (*mesh)(K::unflat(c, i)) = Conv<T>::from(777.0);
        mesh.reset();
        K::observe_n(*f, m, vseed(), 5, "after the inputs were destroyed");
        Model<D> m2(c, O, vseed());
        MeshP mesh2(K::new_mesh(m2));
        FnP g(K::build((int)sim_w(2), *t, m2, *mesh2));
        mesh2.reset();
        K::observe_n(*g, m2, vseed(), 3, "template used after its coordinates were destroyed");
        K::observe_n(*f, m, vseed(), 3, "earlier function after the template was used again");
        sim_leak_check(1);
    }

    // C12 ------------------------------------------------------------------
    static void value() {
        draw_pool();
        Cfg<D> c[2] = {draw_cfg<D>(O, 0), draw_cfg<D>(O, 0)};
        if (sim_w(3) == 0) c[1] = twin_cfg(c[0], O);
        const int NM = 4;
        ModelP mo[NM];
        TmplP t[3];
        int tc[3] = {0, 1, -1};
        for (int i = 0; i < 2; i++) t[i].reset(K::new_tmpl(c[i]));
        const int NS = 3;
        FnP s[NS];
        int sm[NS];
        for (int i = 0; i < NM; i++) mo[i].reset(new Model<D>(c[i & 1], O, vseed()));
        for (int i = 0; i < NS; i++) {
            sm[i] = (int)sim_w(NM);
            MeshP mesh(K::new_mesh(*mo[sm[i]]));
            s[i].reset(new Fn(t[sm[i] & 1]->interpolate(*mesh)));
        }
        int steps = 3 + (int)sim_w(D >= 3 ? 4 : 8);
        LR r(vseed());
#ifdef INTP_CELL_LAYOUT
        // proxies made now, used when everything else has changed
        std::function<T(const Fn&)> early[2];
        typename K::Pt ex[2];
        for (int i = 0; i < 2; i++) {
            bool o;
            ex[i] = K::draw_point(c[i], r, &o);
            early[i] = t[i]->eval_proxy(ex[i]);
        }
#endif
        for (int k = 0; k < steps; k++) {
            int i = (int)sim_w(NS), j = (int)sim_w(NS);
            switch (sim_w(12)) {
#if __cplusplus >= 201703L
                case 10: {  // assign templates
                    int z = (int)sim_w(3), y = (int)sim_w(3), how = (int)sim_w(3);
                    if (!t[z] || !t[y]) break;
                    if (how == 0) {
                        const Tmpl& src = *t[y];
                        *t[z] = src;
                        tc[z] = tc[y];
                    } else if (how == 1 && z != y) {
                        *t[z] = std::move(*t[y]);
                        tc[z] = tc[y];
                        t[y].reset();
                    } else if (z != y) {
                        using std::swap;
                        swap(*t[z], *t[y]);
                        std::swap(tc[z], tc[y]);
                    }
                    sim_probe(14);
                    break;
                }
#endif
                case 0:
                    if (s[j] && sm[j] >= 0 && i != j) { s[i].reset(new Fn(*s[j])); sm[i] = sm[j]; }
                    break;
                case 1:
                    if (s[j] && sm[j] >= 0 && i != j) { s[i].reset(new Fn(std::move(*s[j]))); sm[i] = sm[j]; sm[j] = -1; }
                    break;
                case 2:
                    if (s[i] && s[j] && sm[j] >= 0) { const Fn& src = *s[j]; *s[i] = src; sm[i] = sm[j]; }
                    break;
                case 3:
                    if (s[i] && s[j] && sm[j] >= 0 && i != j) { *s[i] = std::move(*s[j]); sm[i] = sm[j]; sm[j] = -1; }
                    break;
                case 4:
                    if (s[i] && s[j] && i != j) { using std::swap; swap(*s[i], *s[j]); swap(sm[i], sm[j]); }
                    break;
                case 5: s[i].reset(); sm[i] = -1; break;
                case 6: {  // re-populate in place
                    int q = (int)sim_w(NM);
                    int ti = -1;
                    for (int z = 0; z < 3; z++) if (t[z] && tc[z] == (q & 1)) ti = z;
                    if (ti < 0) break;
                    if (!s[i]) s[i].reset(new Fn());
                    MeshP mesh(K::new_mesh(*mo[q]));
                    t[ti]->interpolate(*s[i], *mesh);
                    sm[i] = q;
                    break;
                }
                case 7: {  // copy a template, use the copy, maybe drop the original
                    int z = (int)sim_w(2);
                    if (!t[z]) break;
                    t[2].reset(new Tmpl(*t[z]));
                    tc[2] = tc[z];
                    if (sim_w(2)) t[z].reset();
                    sim_probe(11);
                    break;
                }
                case 8: {  // a whole history through a moved template
                    int z = (int)sim_w(3);
                    if (!t[z]) break;
                    TmplP nt(new Tmpl(std::move(*t[z])));
                    t[z] = std::move(nt);
                    break;
                }
                case 9: {  // consume a copy through the rvalue overload
                    int z = (int)sim_w(3);
                    if (!t[z]) break;
                    int q = tc[z] + 2 * (int)sim_w(2);
                    Tmpl own(*t[z]);
                    MeshP mesh(K::new_mesh(*mo[q]));
                    s[i].reset(new Fn(std::move(own).interpolate(*mesh)));
                    sm[i] = q;
                    break;
                }
                default: {  // another thread copies and reads while we go on reading
                    if (!s[i] || sm[i] < 0) break;
                    const Fn* src = s[i].get();
                    const Model<D>* mp = mo[sm[i]].get();
                    uint32_t seed = vseed();
                    std::thread th([=] {
                        sim_client();
                        LR q(seed);
                        Fn copy(*src);
                        for (int z = 0; z < 3; z++) K::observe(copy, *mp, q, "copy made by another thread");
                    });
                    K::observe(*src, *mp, r, "original while being copied");
                    th.join();
                }
            }
            for (int z = 0; z < NS; z++)
                if (s[z] && sm[z] >= 0) K::observe(*s[z], *mo[sm[z]], r, "value semantics");
#ifdef INTP_CELL_LAYOUT
            if (k == steps - 1 || r.below(2))
                for (int y = 0; y < NS; y++)
                    if (s[y] && sm[y] >= 0) {
                        typename K::Der der;
                        for (size_t d = 0; d < D; d++) der[d] = 0;
                        K::compare(Conv<T>::to(early[sm[y] & 1](*s[y])), *mo[sm[y]], ex[sm[y] & 1], der, "proxy made before the history", "WRONG-PROXY-RESULT");
                    }
#endif
        }
        // proxies outlive the template that made them
        for (int z = 0; z < 3; z++) {
            if (!t[z]) continue;
#ifdef INTP_CELL_LAYOUT
            bool o;
            typename K::Pt x = K::draw_point(c[tc[z]], r, &o);
            auto px = t[z]->eval_proxy(x);
            auto px2 = px;
            typename K::Der der;
            for (size_t d = 0; d < D; d++) der[d] = 0;
            t[z].reset();
            for (int y = 0; y < NS; y++)
                if (s[y] && sm[y] >= 0 && (sm[y] & 1) == tc[z]) K::compare(Conv<T>::to(px2(*s[y])), *mo[sm[y]], x, der, "proxy after its template is gone", "WRONG-PROXY-RESULT");
#endif
            t[z].reset();
        }
        for (int z = 0; z < NS; z++)
            if (s[z] && sm[z] >= 0) K::observe(*s[z], *mo[sm[z]], r, "function after all templates are gone");
        sim_leak_check(1);
    }

    // faults ----------------------------------------------------------------
    struct Outcome {
        bool ok;
        bool fired_throw;
    };
    static uint32_t upto(uint32_t lo, uint32_t span) { return sim_w(1u << (lo + sim_w(span))); }  // log-uniform
    static void plan_faults(bool thr) {
        uint32_t k = sim_w(thr ? 7 : 4);
        Injected::std_too() = sim_w(3);
        if (k == 0) {
            if (sim_w(2)) sim_plan_at(F_ALLOC, sim_w(40), 1 + sim_w(3));
            else sim_plan_prob(F_ALLOC, 3 + sim_w(40), 1 + sim_w(4));
        } else if (k <= 2) {
            sim_plan_at(F_ALLOC, upto(2, 7), 1 + sim_w(2));
        } else if (k == 3) {
            sim_plan_at(F_ITER, upto(1, 6), 1);
            if (sim_w(2)) sim_plan_at(F_THREAD, sim_w(9), 1 + sim_w(2));
        } else {
            sim_plan_at(F_THROW, upto(3, 10), 1 + sim_w(3));
        }
    }
    // one fault at a place drawn from all places of this very call: a first
    // execution without faults counts the places, in the caller and in the workers
    template <typename Op>
    static void aim(Op op) {
        static const int kinds[] = {F_ALLOC, F_ITER, F_THROW};
        for (int k : kinds) sim_plan_none(k);
        {
            Arm a(F_ALLOC), d(F_ITER), e(F_THROW);
            op();
        }
        int have[3], n = 0;
        for (int k : kinds) if (sim_plan_seen(k, 0)) have[n++] = k;
        if (!n) return;
        int k = have[sim_w((uint32_t)n)];
        uint32_t w = sim_w(4);
        if (w == 3 || !sim_plan_seen(k, w)) w = 0;
        uint32_t total = sim_plan_seen(k, w), back = sim_w(3);
        // anywhere, or near the end of that thread's share
        uint32_t at = back ? sim_w(total) : total - 1 - sim_w(total < 40 ? total : 40);
        sim_plan_in(k, w, at, 1 + sim_w(2));
        sim_probe(17);
    }
    // runs `op` with faults armed; true = it returned normally
    template <typename Op>
    static bool guarded(Op op, const char* what, bool aimed = false) {
        if (aimed) aim(op);
        uint32_t fa = sim_fired(F_ALLOC), ft = sim_fired(F_THREAD), fi = sim_fired(F_ITER), fv = sim_fired(F_THROW);
        bool ok = false;
        try {
            Arm a(F_ALLOC), b(F_THREAD), d(F_ITER), e(F_THROW);
            op();
            ok = true;
        } catch (const Injected& e) {
            EXPECT(e.where == 1 ? sim_fired(F_THROW) > fv : sim_fired(F_ITER) > fi, "STALE-ERROR", "%s reported a user error that did not happen during the call", what);
            sim_probe(20);
        } catch (const std::bad_alloc&) {
            EXPECT(sim_fired(F_ALLOC) > fa, "SPURIOUS-ERROR", "%s reported bad_alloc although no allocation failed during the call", what);
            sim_probe(21);
        } catch (const std::system_error&) {
            EXPECT(sim_fired(F_THREAD) > ft, "SPURIOUS-ERROR", "%s reported a system error although no thread creation failed", what);
            sim_probe(22);
        } catch (const std::exception& e) {
            sim_fail("WRONG-EXCEPTION", "%s failed with an unrelated exception", what);
        }
        sim_stack_retire();
        if (ok) {
            EXPECT(sim_fired(F_THROW) == fv && sim_fired(F_ITER) == fi, "ERROR-SWALLOWED", "%s returned normally although a user operation threw", what);
            EXPECT(sim_fired(F_THREAD) == ft, "ERROR-SWALLOWED", "%s returned normally although the pool could not be started", what);
            if (sim_fired(F_ALLOC) > fa) sim_probe(23);
        }
        return ok;
    }
    // C09 ------------------------------------------------------------------
    static void fault() {
        if (sim_w(2)) draw_pool();
        const bool many = D < 3 && sim_w(120) == 119;  // dozens of failures in one process
        Cfg<D> c = draw_cfg<D>(O, many ? 0 : D < 4 && sim_w(16) == 15 ? 4 : occasionally_big());
        Model<D> m(c, O, vseed()), m2(c, O, vseed());
        TmplP t(K::new_tmpl(c));
        MeshP mesh(K::new_mesh(m)), mesh2(K::new_mesh(m2));
        FnP keep;
        if (sim_w(2)) keep.reset(new Fn(t->interpolate(*mesh2)));
        FnP inplace(keep ? new Fn(*keep) : new Fn());
        bool inplace_ok = (bool)keep;
        bool aimed = sim_w(2) || many;
        Injected::std_too() = sim_w(3);
        if (many) sim_probe(24);
        if (!aimed) plan_faults(Conv<T>::tol() > 0 && std::is_same<T, ThrowVal>::value);
        int rounds = many ? 24 + (int)sim_w(60) : 1 + (int)sim_w(3);
        const int only = many && sim_w(2) ? (int)sim_w(10) : -1;
        int second = (int)sim_w(3) == 0;
        std::thread other;
        std::atomic<int> stop{0};
        if (second && keep) {  // a bystander must not notice anything
            const Fn* kp = keep.get();
            const Model<D>* mp = &m2;
            uint32_t s = vseed();
            other = std::thread([=] {
                sim_client();
                NoFault nf;
                LR r(s);
                for (int i = 0; i < 4; i++) K::observe(*kp, *mp, r, "bystander");
            });
        }
        for (int i = 0; i < rounds; i++) {
            FnP f;
            int path = (int)sim_w((uint32_t)K::npaths());
            uint32_t what = only < 0 ? sim_w(10) : (uint32_t)only;
            bool ok = false;
            if (what == 8 && keep) {  // evaluation: the right value or the error
                bool o, dv = sim_w(2);
                LR r(vseed());
                typename K::Pt x = K::draw_point(c, r, &o);
                typename K::Der der;
                for (size_t d = 0; d < D; d++) der[d] = dv ? r.below((uint32_t)O + 1) : 0;
                double got = 0;
                ok = guarded([&] { got = Conv<T>::to(dv ? keep->derivative(x, der) : (*keep)(x)); }, "evaluation", aimed);
                if (ok) K::compare(got, m2, x, der, "evaluation under faults");
            } else if (what == 9) {  // a template that is given away, but only if the call succeeds
                TmplP own;
                {
                    NoFault nf;
                    own.reset(new Tmpl(*t));
                }
                ok = guarded([&] { f.reset(new Fn(std::move(*own).interpolate(*mesh))); }, "interpolation with a temporary template", false);
                if (!ok) {
                    NoFault nf;
                    f.reset(new Fn(std::move(*own).interpolate(*mesh)));
                    K::observe_n(*f, m, vseed(), 4, "retry with the same temporary template", "NOT-RETRYABLE");
                    f.reset();
                }
            } else if (what == 6) {
                typename SK::Spec sp;
                SplP s;
                std::unique_ptr<typename SK::CP> cp(SK::points(sp));
                uint32_t how = sim_w(3);
                ok = guarded([&] { s.reset(SK::build(sp, *cp, how)); }, "spline construction", aimed);
                if (ok) {
                    LR r(vseed());
                    for (int z = 0; z < 3; z++) SK::observe(*s, sp, r, "spline under faults");
                }
            } else if (what == 5) {
                TmplP nt;
                ok = guarded([&] { nt.reset(K::new_tmpl(c)); }, "template construction", aimed);
                if (ok) {
                    NoFault nf;
                    f.reset(new Fn(nt->interpolate(*mesh)));
                }
            } else if (what == 4) {
                ok = guarded([&] { t->interpolate(*inplace, *mesh); }, "in-place interpolation", aimed);
                inplace_ok = ok;
                if (ok) K::observe_n(*inplace, m, vseed(), 3, "in-place interpolation under faults");
            } else if (what == 3 && keep) {
                ok = guarded([&] { f.reset(new Fn(*keep)); }, "copy", aimed);
                if (ok) K::observe_n(*f, m2, vseed(), 2, "copy under faults");
                f.reset();
            } else {
                ok = guarded([&] { f.reset(K::build(path, *t, m, *mesh)); }, "interpolation", aimed);
            }
            if (ok && f) K::observe_n(*f, m, vseed(), 4, "interpolation under faults");
            // nothing else was damaged
            if (keep) K::observe_n(*keep, m2, vseed(), 2, "another function after a failure", "COLLATERAL-DAMAGE");
            K::mesh_intact(*mesh, m);
        }
        if (other.joinable()) other.join();
        // faults have stopped: the same objects must work
        {
            FnP f(new Fn(t->interpolate(*mesh)));
            K::observe_n(*f, m, vseed(), 4, "retry after a failure", "NOT-RETRYABLE");
            t->interpolate(*inplace, *mesh2);
            K::observe_n(*inplace, m2, vseed(), 3, "re-population after a failure", "NOT-RETRYABLE");
            (void)inplace_ok;
        }
        sim_leak_check(0);
    }
    // C08 ------------------------------------------------------------------
#ifdef INTP_MULTITHREAD
    static bool pool_idle() {
        NoFault nf;
        return intp::DedicatedThreadPool<void>::get_instance(8).is_main_queue_empty();
    }
#endif
    static void outlive() {
        draw_pool();
        Cfg<D> c = draw_cfg<D>(O, occasionally_big());
        Model<D> m(c, O, vseed());
        bool faults = sim_w(4) != 0;
        if (faults) plan_faults(std::is_same<T, ThrowVal>::value);
        int rounds = 1 + (int)sim_w(3);
        for (int i = 0; i < rounds; i++) {
            TmplP t;
            {
                NoFault nf;
                t.reset(K::new_tmpl(c));
            }
            MeshP mesh(K::new_mesh(m));
            FnP f;
            int path = (int)sim_w((uint32_t)K::npaths());
            if (faults) guarded([&] { f.reset(K::build(path, *t, m, *mesh)); }, "interpolation");
            else f.reset(K::build(path, *t, m, *mesh));
            sim_stack_retire();
            long before = ThrowVal::ops().load(), live = ThrowVal::live().load();
#ifdef INTP_MULTITHREAD
            if (f) EXPECT(pool_idle(), "BACKGROUND-WORK", "tasks are still queued when the call returns");
#endif
            if (sim_w(4) == 0) {  // let all background work run dry while everything is still there
                sim_idle((1) * 1000);
                long l = ThrowVal::live().load();
                EXPECT(l == live, "BACKGROUND-WORK", "%ld value objects were created or destroyed after the call had ended", l > live ? l - live : live - l);
            }
            // everything the call was given dies now
            mesh.reset();
            t.reset();
            bool keep = f && sim_w(2);
            if (!keep) f.reset();
            long mid = ThrowVal::ops().load();
            if (sim_w(2)) {
                sim_idle((1) * 1000);  // lets all background work run dry
                long after = ThrowVal::ops().load();
                EXPECT(mid == after && before == mid, "BACKGROUND-WORK", "%ld value operations ran after the call had ended", after - before);
#ifdef INTP_MULTITHREAD
                EXPECT(pool_idle(), "BACKGROUND-WORK", "tasks are still queued after the call had ended");
#endif
            }
            if (f) K::observe_n(*f, m, vseed(), 2, "result after its inputs are gone");
        }
    }
    // C10 ------------------------------------------------------------------
    static void leak() {
        if (sim_w(2)) draw_pool();
        Cfg<D> c = draw_cfg<D>(O, occasionally_big());
        Model<D> m(c, O, vseed());
        plan_faults(std::is_same<T, ThrowVal>::value);
        bool faults = sim_w(4) != 0;
        int rounds = 1 + (int)sim_w(3);
        LR r(vseed());
        for (int i = 0; i < rounds; i++) {
            MeshP mesh(K::new_mesh(m));
            int path = (int)sim_w((uint32_t)K::npaths());
            auto body = [&] {
                TmplP t(K::new_tmpl(c));
                FnP f(K::build(path, *t, m, *mesh));
                FnP g(new Fn(*f));
                *g = *f;
                Fn h(std::move(*g));
                typename K::Der der;
                for (size_t d = 0; d < D; d++) der[d] = 1 % (O + 1);
                bool o;
                typename K::Pt x = K::draw_point(c, r, &o);
                (void)Conv<T>::to(h.derivative(x, der));
                try {
                    (void)Conv<T>::to(h.at(x));
                } catch (const std::domain_error&) {
                }
                MeshT m2(*mesh);
                m2 = *mesh;
            };
            if (faults) guarded(body, "history");
            else body();
        }
        sim_leak_check(1);
    }
    static const IEntry* entry(const char* tag, uint32_t w) {
        static IEntry e;
        e.tag = tag;
        e.weight = w;
        e.throwing = std::is_same<T, ThrowVal>::value;
        e.fn[S_CONSTRUCT] = construct;
        e.fn[S_CONC] = conc;
        e.fn[S_READ] = read;
        e.fn[S_DET] = det;
        e.fn[S_INPUT] = input;
        e.fn[S_VALUE] = value;
        e.fn[S_FAULT] = fault;
        e.fn[S_OUTLIVE] = outlive;
        e.fn[S_LEAK] = leak;
        e.mini = mini;
        return &e;
    }
};

#define REG(T, D, O, w)                                                     \
    struct Reg_##D##_##O {                                                  \
        Reg_##D##_##O() { ireg(Scen<Kit<T, D, O>>::entry(#T " " #D "D order " #O, w)); } \
    } reg_##D##_##O

#if SIM_SLICE == 1
REG(double, 1, 0, 1);
REG(double, 1, 3, 6);
REG(double, 1, 2, 4);
#elif SIM_SLICE == 2
REG(double, 1, 1, 2);
REG(double, 1, 4, 3);
REG(double, 1, 5, 2);
#elif SIM_SLICE == 3
REG(double, 2, 3, 6);
#elif SIM_SLICE == 4
REG(double, 2, 2, 5);
#elif SIM_SLICE == 5
REG(double, 2, 1, 3);
#elif SIM_SLICE == 6
REG(double, 3, 2, 2);
#elif SIM_SLICE == 7
REG(double, 3, 3, 1);
#elif SIM_SLICE == 8
REG(ThrowVal, 2, 2, 4);
#elif SIM_SLICE == 9
REG(ThrowVal, 1, 3, 3);
typedef std::complex<double> cplx;
REG(cplx, 2, 3, 1);
#elif SIM_SLICE == 11
REG(double, 4, 1, 1);
#elif SIM_SLICE == 12
REG(double, 1, 6, 1);
REG(double, 2, 5, 1);
#elif SIM_SLICE == 10
REG(float, 2, 3, 2);
REG(double, 2, 4, 2);
#endif

}  // namespace
