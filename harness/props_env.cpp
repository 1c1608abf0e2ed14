// Properties of how the library runs: C13 threads, C14 memory and undefined behaviour, C27 output.
#include <omp.h>
#include <unistd.h>

#include <sstream>
#include <thread>

#include "capture.hpp"
#include "image.hpp"
#include "read_noise.hpp"
#include "util.hpp"
#undef error

extern "C" unsigned long verif_parallel_regions() __attribute__((weak));
static const bool under_tsan = verif_parallel_regions != nullptr;

// a random call: add or remove, parallel, serial or both
struct Call {
    ImgCase c, s;         // parallel (with the image) and serial models
    bool has_p = true, has_s = false, rem = false;
    int n_it = 1, neg = 1, pf = 0;
    double pn = 1e-10;
    std::string show() const {
        return strf("%s it=%d neg=%d prune=%d,%g ", rem ? "remove" : "add", n_it, neg, pf, pn) +
               (has_p ? "parallel " + show_model(c.m) : "") + (has_s ? " serial " + show_model(s.m) : "") + " image " + show_img(c.im);
    }
    ref::Img run() const {
        std::shared_ptr<LibModel> p, q;
        if (has_p) p = lib_model(c.m, pf, pn);
        if (has_s) q = lib_model(s.m, pf, pn);
        return rem ? run_remove(c.im, n_it, p.get(), q.get(), neg) : run_add(c.im, p.get(), q.get(), neg);
    }
};
static Call gen_call(Rng& r, GenOpt o, int max_cols) {
    Call k;
    o.max_cols = max_cols;
    k.c = gen_case(r, o, -2);
    k.neg = !r.chance(0.2); k.rem = r.chance(0.25); k.n_it = r.range(1, 3);
    if (r.chance(0.3)) { k.pf = r.range(1, 6); k.pn = r.chance(0.5) ? 1e-10 : r.loguni(1e-6, 10); }
    int w = r.range(0, 3);
    if (w >= 2) {
        k.has_s = true; k.has_p = w == 3;
        // a serial model whose windows fit an image of C columns
        do k.s = gen_case(r, o, -1); while (k.s.R > k.c.C || k.s.C > k.c.R);
        if (k.has_p) { k.s.m.r0 = k.c.m.c0; k.s.m.r1 = k.c.m.c1; k.s.m.c0 = k.c.m.r0; k.s.m.c1 = k.c.m.r1; }
    }
    return k;
}

// ------------------------------------------------------------------------------- C13
PROP(C13) {
    GenOpt o; o.max_rows = under_tsan ? 7 : 10; o.big = o.tall = !under_tsan; if (under_tsan) o.max_phases = 3; o.p_kind[2] = o.p_kind[3] = 0.03;
    ctx.count["threads_max"] = 0;
    static const int plain_T[] = {1, 2, 3, 5, 8, 8}, tsan_T[] = {1, 2, 4};
    const int* T = under_tsan ? tsan_T : plain_T;
    int nT = under_tsan ? 3 : 6;
    unsigned long reg0 = under_tsan ? verif_parallel_regions() : 0;
    int what = icase % 8;
    if (what == 7) {          // read noise
        int rows = r.range(2, 30), cols = r.range(2, 30), smooth = r.range(0, 1);
        std::vector<double> in((size_t)rows * cols), out(in.size());
        for (size_t i = 0; i < in.size(); i++) { in[i] = r.uni(0, 100); out[i] = in[i] + r.uni(-8, 8); }
        ctx.desc(strf("read noise %dx%d smooth=%d", rows, cols, smooth));
        std::vector<double> first;
        for (int t = 0; t < nT; t++) {
            omp_set_num_threads(T[t]);
            std::vector<double> got(in.size(), 1.0);
            determine_read_noise_model(in.data(), out.data(), rows, cols, 3.0, 0.2, smooth, got.data());
            if (t == 0) first = got;
            else if (memcmp(first.data(), got.data(), 8 * got.size())) ctx.violation("read-noise", strf("%d threads give another noise model", T[t]));
            ctx.count["comparisons"]++;
        }
        ctx.nontrivial(hash_str(ctx.cur_desc) ^ icase);
    } else if (what == 6) {   // separate calls on separate threads of the caller
        int n = r.range(2, 4);
        std::vector<Call> calls; std::string d;
        for (int i = 0; i < n; i++) { calls.push_back(gen_call(r, o, 4)); d += calls[i].show() + " || "; }
        ctx.desc(d);
        std::vector<ref::Img> alone(n), together(n);
        omp_set_num_threads(1);
        for (int i = 0; i < n; i++) alone[i] = calls[i].run();
        omp_set_num_threads(2);
        std::vector<std::thread> th;
        for (int i = 0; i < n; i++) th.emplace_back([&, i] { together[i] = calls[i].run(); });
        for (auto& t : th) t.join();
        bool moved = false;
        for (int i = 0; i < n; i++) {
            moved |= !same_bits(alone[i], calls[i].c.im);
            ctx.count["comparisons"]++;
            if (!same_bits(alone[i], together[i])) ctx.violation("concurrent-calls", strf("call %d gives another image while other calls run", i));
        }
        ctx.count["concurrent_calls"] += n;
        if (moved) ctx.nontrivial(hash_str(d));
    } else {
        Call k = gen_call(r, o, under_tsan ? 8 : 16);
        ctx.desc(k.show());
        ref::Img first;
        for (int t = 0; t < nT; t++) {
            omp_set_num_threads(T[t]);
            ref::Img got = k.run();
            if (t == 0) first = got;
            else if (!same_bits(first, got)) {
                int wi, wj; img_diff(got, first, wi, wj);
                ctx.violation(k.c.m.roe.empty_columns ? "independent" : "carried", strf("%d threads: pixel (%d,%d) is %.12g, with one thread %.12g", T[t], wi, wj, got[wi][wj], first[wi][wj]));
                break;
            }
            ctx.count["comparisons"]++;
        }
        if (k.has_p ? !k.c.m.roe.empty_columns : !k.s.m.roe.empty_columns) ctx.count["carry_over"]++;
        if (!same_bits(first, k.c.im)) ctx.nontrivial(hash_str(k.show()));
    }
    omp_set_num_threads(1);
    if (under_tsan) ctx.count["parallel_regions_watched"] += verif_parallel_regions() - reg0;
    ctx.count.erase("threads_max");
    ctx.sample(ctx.cur_desc.substr(0, 400));
}

// ------------------------------------------------------------------------------- C14
static void extremes(Ctx& ctx, Rng& r) {
    GenOpt o; o.max_phases = r.chance(0.2) ? 5 : 4; o.dens_lo = 1e-8; o.dens_hi = 1e6;
    bool cont = r.chance(0.08);
    o.p_kind[2] = o.p_kind[3] = 0; if (cont) o.p_kind[r.range(2, 3)] = 1;
    Call k = gen_call(r, o, 4);
    int shape = r.range(0, 5);
    int R = k.c.R, C = k.c.C;
    bool reshape = !k.has_s && k.c.m.roe.type != 2 && k.c.m.r1 == -1 && k.c.m.c1 == -1 && !k.c.m.r0 && !k.c.m.c0;
    if (reshape) {
        if (shape == 0) { R = 1; C = r.range(1, 30); }
        if (shape == 1) { R = r.range(1, 90); C = 1; }
        if (shape == 2) R = C = 1;
        k.c.R = R; k.c.C = C;
        k.c.im = gen_image(r, R, C, k.c.m.wells[0].full);
        if (!cont && r.chance(0.2)) k.c.m.express = r.pick({0, R, R + 1, R - 1 < 1 ? 1 : R - 1, 1000, 1 << 20});
        if (r.chance(0.2)) k.c.m.offset = r.range(1, cont ? 5 : 300);
        if (k.c.m.roe.type != 2 && r.chance(0.2)) k.c.m.roe.prescan = r.range(1, cont ? 5 : 300);
        if (k.c.m.roe.type != 2 && r.chance(0.2)) k.c.m.roe.overscan = r.range(1, 500);
    }
    if (k.c.m.roe.type == 2 && !cont && r.chance(0.3)) k.c.m.roe.n_pumps = r.range(1, 300);
    for (auto& row : k.c.im) for (double& v : row) switch (r.range(0, 40)) {
        case 0: v = 0; break;
        case 1: v = 5e-324; break;
        case 2: v = 1e-310; break;
        case 3: v = 1e15; break;
        case 4: v = 1e300; break;
        case 5: v = -r.loguni(1e-3, 1e4); break;
        case 6: v = -0.0; break;
        case 7: v = -1e15; break;
    }
    auto squeeze = [&](ref::Model& m) {
        for (auto& w : m.wells) { if (r.chance(0.1)) w.notch = w.full * 0.999999; if (r.chance(0.05)) w.fef = 1.0; if (r.chance(0.05)) w.full = 1e-3; if (w.notch >= w.full) w.notch = 0; }
        for (int t = 0; t < 2; t++) for (auto& s : m.t[t]) {
            if (r.chance(0.1)) s.density = 0;
            if (r.chance(0.1)) s.tau = r.pick({1e-12, 1e-6, 1e9, 1e15});
            if (t == 1 && r.chance(0.1)) s.tauc = r.pick({1e-12, 1e-6, 1e9, 0.0});
        }
    };
    squeeze(k.c.m); if (k.has_s) squeeze(k.s.m);
    int v = r.chance(0.06) && R * C < 40 ? r.range(1, 3) : 0;
    ctx.desc(strf("verbosity=%d ", v) + k.show());
    set_verbosity(v); verbosity_argument() = v;
    ref::Img out = k.run();
    set_verbosity(0); verbosity_argument() = 0;
    ctx.count["extreme_images"]++;
    if (!same_bits(out, k.c.im)) ctx.nontrivial(hash_str(ctx.cur_desc));
    ctx.sample(ctx.cur_desc.substr(0, 400));
}
PROP(C14) {
    static const char* const others[] = {"C01", "C02", "C03", "C15", "C04", "C08", "C09", "C11", "C12", "C15I", "C16", "C24", "C25", "C26",
                                         "C05", "C06", "C07", "C17", "C18", "C21", "C22", "C13", "C27"};
    ctx.count["cases"]++;
    if (icase % 2 == 0) { extremes(ctx, r); return; }
    const char* id = others[(icase / 2) % (sizeof others / sizeof *others)];
    for (PropReg* p = PropReg::head(); p; p = p->next)
        if (!strcmp(p->id, id)) {
            Ctx sub; sub.prop = id; sub.tier = ctx.tier; sub.cur_case = icase;
            // enumerated parts of other properties are visited at random
            p->fn(sub, r, (long)(r.u64() % 100000));
            ctx.count[strf("workload_%s", id)]++;
            for (auto h : sub.distinct) ctx.nontrivial(h);
            return;
        }
}

// ------------------------------------------------------------------------------- C27
PROP(C27) {
    GenOpt o; o.max_rows = 7; o.max_phases = 3; o.p_kind[2] = o.p_kind[3] = 0.03;
    if (icase % 4 == 3) {     // the rest of the library, at verbosity 0
        ctx.desc("library functions");
        set_verbosity(0);
        StdoutCapture cap;
        GenOpt g; Ctx sub; sub.tier = ctx.tier; sub.cur_case = 0;
        static const char* const ids[] = {"C01", "C03", "C15", "C05", "C06", "C07", "C17", "C18", "C21"};
        const char* id = ids[r.range(0, 8)];
        for (PropReg* p = PropReg::head(); p; p = p->next) if (!strcmp(p->id, id)) p->fn(sub, r, 400000 + icase);
        std::vector<double> v1{1, 2, 3, 4};
        VImg v(std::valarray<double>(1.5, 3), 2);
        (void)transpose(v); (void)flatten(v); (void)arange(0, 3);
        std::string s = cap.stop();
        ctx.desc(strf("functions of %s", id)); ctx.count["function_histories"]++;
        if (cap.total) ctx.violation("functions", strf("%ld bytes written at verbosity 0: %.300s", cap.total, s.c_str()));
        ctx.nontrivial(Rng::mix(icase) ^ hash_str(id));
        return;
    }
    Call k = gen_call(r, o, 3);
    if (k.rem && k.c.R * k.c.C <= 24 && !k.c.m.roe.prescan && k.c.m.roe.type != 2 && r.chance(0.2)) k.n_it = r.range(4, 24);
    if (r.chance(0.4)) k.c.m.t[0].clear();    // no instant-capture traps
    if (!k.c.m.have_traps()) k.c.m.t[1].push_back(gen_species(r, 1, o, k.c.m.roe.dwell[0]));
    if (k.has_s && r.chance(0.4)) { k.s.m.t[0].clear(); if (!k.s.m.have_traps()) k.s.m.t[1].push_back(gen_species(r, 1, o, k.s.m.roe.dwell[0])); }
    ctx.desc(k.show());
    ref::Img at[3];
    long bytes[3];
    int worst = r.chance(0.5) ? 2 : 1;
    for (int v = 0; v <= worst; v++) {
        set_verbosity(v);
        verbosity_argument() = v;
        StdoutCapture cap;
        at[v] = k.run();
        std::string s = cap.stop();
        set_verbosity(0);
        verbosity_argument() = 0;
        bytes[v] = cap.total;
        ctx.count[strf("calls_verbosity_%d", v)]++;
        ctx.count[strf("bytes_verbosity_%d", v)] += cap.total;
        if (v == 0 && cap.total) ctx.violation("silent", strf("%ld bytes written at verbosity 0: %.300s", cap.total, s.c_str()));
        if (v && !cap.total) ctx.violation("progress", strf("nothing written at verbosity %d", v));
        if (v && !same_bits(at[v], at[0])) {
            int wi, wj; img_diff(at[v], at[0], wi, wj);
            ctx.violation("result", strf("verbosity %d: pixel (%d,%d) is %.12g, at 0 it is %.12g", v, wi, wj, at[v][wi][wj], at[0][wi][wj]));
        }
    }
    if (k.rem && k.n_it >= 10) ctx.count["many_iterations"]++;
    if (k.c.m.t[0].empty()) ctx.count["no_instant_capture"]++;
    if (!same_bits(at[0], k.c.im)) ctx.nontrivial(hash_str(k.show()));
    ctx.sample(k.show().substr(0, 400));
}
