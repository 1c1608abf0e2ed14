// Properties of whole images: C04 C08-C12 C15(images) C16 C24 C25 C26.
#include <omp.h>
#include <sys/wait.h>
#include <unistd.h>

#include "image.hpp"
#include "util.hpp"
#undef error

double model_rho(const ref::Model& m) {
    double t = 0;
    for (int k = 0; k < 4; k++) for (auto& s : m.t[k]) t += s.density * (s.full > 0 ? s.E(1) : 1);
    return t;
}
bool has_continuum(const ref::Model& m) { return m.t[2].size() + m.t[3].size() > 0; }
double n_transfers_bound(const ref::Model& m, int R) {
    return m.roe.type == 2 ? m.roe.n_pumps + m.offset : R + m.offset + m.roe.prescan + std::max(0, m.roe.overscan);
}
double img_tol(const ref::Model& m, const ref::Img& im) {
    double s = img_max(im) + model_rho(m) * n_transfers_bound(m, (int)im.size());
    return (has_continuum(m) ? 2e-7 : 1e-9) * s + 1e-12;
}

ImgCase gen_case(Rng& r, const GenOpt& o0, int force_type) {
    ImgCase c;
    GenOpt o = o0;
    c.R = r.chance(0.08) ? 1 : r.chance(0.08) ? (o.tall ? r.range(15, 40) : o.max_rows) : r.range(2, o.max_rows);
    c.C = r.chance(0.3) ? 1 : r.range(1, o.max_cols);
    // now and then something far larger than usual
    int big = o.big && (o.kinds[0] || o.kinds[1]) && r.chance(0.025) ? r.range(1, 7) : 0;
    if (big) {
        if (o.kinds[0] || o.kinds[1]) { o.p_kind[2] = o.p_kind[3] = 0; }
        if (big == 1) { c.R = r.range(41, 120); c.C = r.range(1, 2); o.max_phases = 2; }
        if (big == 2) { c.C = r.range(9, 70); c.R = std::min(c.R, 8); o.max_phases = 2; }
        if (big == 3) { o.max_species = 14; c.R = std::min(c.R, 8); o.max_phases = 2; }
        if (big >= 4) c.R = std::min(c.R, 8);
    }
    int type = force_type;
    if (type == -2) type = r.chance(0.6) ? 0 : r.chance(0.6) ? 1 : 2;
    c.m = gen_model(r, o, c.R, type);
    if (big == 4 && c.m.roe.type == 2) c.m.roe.n_pumps = r.range(9, 90);
    if (big == 5 && c.m.roe.type != 2) c.m.roe.prescan = r.range(7, 120);
    if (big == 6) c.m.offset = r.range(7, 70);
    if (big == 7 && c.m.roe.type != 2) c.m.roe.overscan = r.range(c.R, c.R + 100);
    double full = 0; for (auto& w : c.m.wells) full = std::max(full, w.full);
    c.im = gen_image(r, c.R, c.C, full);
    if (c.m.roe.type == 2) {
        c.m.r0 = r.range(0, c.R - 1); c.m.r1 = c.m.r0 + 1;
        if (c.m.express > c.m.roe.n_pumps + 2) c.m.express = r.range(0, c.m.roe.n_pumps + 2);
    } else if (r.chance(0.25)) {
        c.m.r0 = r.range(0, c.R - 1); c.m.r1 = r.chance(0.2) ? -1 : r.range(c.m.r0 + 1, c.R);
    }
    if (r.chance(0.2)) { c.m.c0 = r.range(0, c.C - 1); c.m.c1 = r.chance(0.2) ? -1 : r.range(c.m.c0 + 1, c.C); }
    return c;
}
std::string show_case(const ImgCase& c) { return show_model(c.m) + " image " + show_img(c.im); }
uint64_t hash_case(const ImgCase& c) { return hash_img(hash_model(c.m), c.im); }

ref::Img par_add(const ref::Img& im, const ref::Model& m, int neg, int prune_f, double prune_n) {
    auto L = lib_model(m, prune_f, prune_n);
    return run_add(im, L.get(), nullptr, neg);
}
static ref::Img column(const ref::Img& a, int c) {
    ref::Img o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = {a[i][c]}; return o;
}

// the same image up to rounding, several times
static std::vector<ref::Img> rounded(const ref::Img& im) {
    std::vector<ref::Img> out;
    Rng q(12345);
    for (int k = 0; k < 30; k++) {
        ref::Img z = im;
        double e = std::pow(10.0, -15 + k % 5 * 0.5) * (k & 1 ? 1 : -1);
        for (auto& row : z) for (auto& v : row) v *= 1 + (k < 10 ? e : e * (2 * q.u() - 1));
        out.push_back(z);
    }
    return out;
}

// How far rounding of the image alone moves the library's result (zero but where rounding decides)
static double unsure_add(const ref::Img& im, const ref::Model& m, const ref::Img& base) {
    double u = 0;
    for (auto& z : rounded(im)) { int a, b; u = std::max(u, img_diff(par_add(z, m, 1), base, a, b)); }
    return u;
}

bool judge_model(Ctx& ctx, const ImgCase& c, int neg, const std::string& key) {
    ref::Model m = c.m;
    attach_model_tables(m, c.R, c.C);
    ref::Stats st; bool amb = false;
    ref::Img want = ref::clock(c.im, m, neg, st, amb);
    if (amb) { ctx.count["skipped_rounding_decides"]++; return false; }
    ref::Img got = par_add(c.im, c.m, neg);
    ctx.count["interactions"] += st.interactions;
    ctx.count["not_enough_captures"] += st.not_enough;
    ctx.count["edge_skips"] += st.edge_skips;
    int wi, wj; double d = img_diff(got, want, wi, wj), tol = img_tol(c.m, c.im);
    if (!(d <= tol)) {
        ctx.desc(show_case(c));
        // Where rounding decides (what remains of a cloud captured whole still has a volume; the functions
        // tabulated for continuous traps jump at the tables' ends) the model itself is as uncertain
        // as its results on images that differ by rounding.
        double unsure = 0;
        Rng jit(777);
        for (auto& z : rounded(c.im)) {
            ref::Stats st2; bool amb2 = false; int a, b;
            ref::jitter() = &jit;
            unsure = std::max(unsure, img_diff(ref::clock(z, m, neg, st2, amb2), want, a, b));
            ref::jitter() = nullptr;
        }
        if (d <= tol + 5 * unsure) { ctx.count["skipped_rounding_decides"]++; return false; }
        ctx.violation(key, strf("pixel (%d,%d): library %.12g, model %.12g (difference %.3g, tolerance %.3g)", wi, wj,
                                wi < 0 ? 0 : got[wi][wj], wi < 0 ? 0 : want[wi][wj], d, tol));
        return false;
    }
    return st.moved > 0;
}

// steps of different duration: dwell_times are "the time between steps in the clocking sequence"
static void steps_of_different_duration(Ctx& ctx) {
    for (int type : {0, 2}) {
        ImgCase c;
        c.R = 6; c.C = 1;
        c.m.roe.type = type;
        c.m.roe.dwell = {1.0, 4.0};
        if (type == 2) { c.m.roe.n_pumps = 3; c.m.roe.away = false; c.m.r0 = 2; c.m.r1 = 3; }
        int P = c.m.roe.n_phases();
        c.m.wells.assign(P, ref::Well()); for (auto& w : c.m.wells) { w.full = 1e4; w.notch = 0; w.power = 0.5; w.fef = 0; }
        c.m.frac.assign(P, 1.0 / P);
        ref::Species s; s.density = 20; s.tau = 2; c.m.t[0].push_back(s);
        c.im = ref::Img(6, std::vector<double>(1, 0.0)); c.im[2][0] = 800;
        ref::Stats st; bool amb = false;
        ref::time_of_step() = true;
        ref::Img want = ref::clock(c.im, c.m, 1, st, amb);
        ref::time_of_step() = false;
        int wi, wj; double d = img_diff(par_add(c.im, c.m, 1), want, wi, wj);
        ctx.desc(type == 2 ? "trap pumping, steps of 1 and 4" : "standard readout with two phases, steps of 1 and 4");
        ctx.count["steps_of_different_duration"]++;
        if (!(d <= img_tol(c.m, c.im))) ctx.violation(type == 2 ? "step-duration-pumping" : "step-duration", strf("the image differs by %.3g electrons from one in which each step lasts its own time for all traps", d));
    }
}

PROP(C04) {
    if (icase == 0) steps_of_different_duration(ctx);
    GenOpt o;
    ImgCase c = gen_case(r, o, -2);
    int neg = !r.chance(0.2);
    ctx.desc(show_case(c));
    static const char* kt[3] = {"standard", "injection", "pumping"};
    ctx.count[kt[c.m.roe.type]]++;
    ctx.count[strf("phases_%d", c.m.roe.n_phases())]++;
    if (!c.m.roe.empty_columns) ctx.count["carry_over"]++;
    if (judge_model(ctx, c, neg, strf("%s", kt[c.m.roe.type]))) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 500));
}

// ------------------------------------------------------------------------------- C08
PROP(C08) {
    (void)icase;
    GenOpt o;
    ImgCase c = gen_case(r, o, r.chance(0.75) ? 0 : 1);
    c.m.c0 = 0; c.m.c1 = -1;
    if (c.C == 1 || r.chance(0.1)) { c.C = r.chance(0.2) ? r.range(6, 14) : r.range(2, 6); ref::Img im(c.R); double full = 0; for (auto& w : c.m.wells) full = std::max(full, w.full);
        c.im = gen_image(r, c.R, c.C, full); }
    if (c.m.roe.n_phases() > 1) c.m.roe.away = true;
    int neg = !r.chance(0.2);
    ctx.desc(show_case(c));
    ref::Img base = par_add(c.im, c.m, neg);
    bool moved = !same_bits(base, c.im);
    if (c.m.roe.empty_columns) {
        ctx.count["independent_columns"]++;
        // each column alone, a permutation of the columns, and other contents around one column
        int j = r.range(0, c.C - 1);
        ref::Img one = par_add(column(c.im, j), c.m, neg);
        if (!same_bits(one, column(base, j)))
            ctx.violation("column-alone", strf("column %d differs when it is the only one: %s, in the image %s", j, show_img(one).c_str(), show_img(column(base, j)).c_str()));
        std::vector<int> p(c.C); for (int i = 0; i < c.C; i++) p[i] = i;
        for (int i = c.C - 1; i > 0; i--) std::swap(p[i], p[r.range(0, i)]);
        ref::Img q = c.im; for (int i = 0; i < c.R; i++) for (int k = 0; k < c.C; k++) q[i][k] = c.im[i][p[k]];
        ref::Img out = par_add(q, c.m, neg);
        for (int k = 0; k < c.C; k++)
            if (!same_bits(column(out, k), column(base, p[k]))) {
                ctx.violation("column-order", strf("column %d differs when moved to %d", p[k], k)); break; }
        // a window of columns gives the same columns, wherever it begins and ends
        {
            ref::Model w = c.m; w.c0 = r.range(0, c.C - 1); w.c1 = r.range(w.c0 + 1, c.C);
            ref::Img z = par_add(c.im, w, neg);
            ctx.count["column_windows"]++;
            if (w.c0 > w.c1 - w.c0) ctx.count["column_windows_beyond_their_width"]++;
            for (int k = w.c0; k < w.c1; k++)
                if (!same_bits(column(z, k), column(base, k))) {
                    ctx.violation("column-window", strf("column %d differs when only columns %d to %d are clocked", k, w.c0, w.c1)); break; }
        }
        ref::Img other = c.im; for (int i = 0; i < c.R; i++) for (int k = 0; k < c.C; k++) if (k != j) other[i][k] = gen_pixel(r, c.m.wells[0].full);
        if (!same_bits(column(par_add(other, c.m, neg), j), column(base, j)))
            ctx.violation("column-neighbours", strf("column %d depends on the other columns", j));
    } else {
        ctx.count["carried_columns"]++;
        int j = r.range(0, c.C - 2 >= 0 ? c.C - 2 : 0);
        ref::Img later = c.im; for (int i = 0; i < c.R; i++) for (int k = j + 1; k < c.C; k++) later[i][k] = gen_pixel(r, c.m.wells[0].full);
        ref::Img out = par_add(later, c.m, neg);
        for (int k = 0; k <= j; k++)
            if (!same_bits(column(out, k), column(base, k))) {
                ctx.violation("column-later", strf("column %d depends on columns read out after it", k)); break; }
    }
    // causality within a column (columns after it may depend on its later pixels when states carry over)
    int row = r.range(0, c.R - 1);
    ref::Img f = c.im;
    for (int i = row + 1; i < c.R; i++) for (int k = 0; k < c.C; k++) if (r.chance(0.7)) f[i][k] = r.chance(0.3) ? 0 : gen_pixel(r, c.m.wells[0].full);
    ref::Img out = par_add(f, c.m, neg);
    int last = c.m.roe.empty_columns ? c.C - 1 : 0;
    for (int i = 0; i <= row; i++) for (int k = 0; k <= last; k++)
        if (out[i][k] != base[i][k]) {
            ctx.violation("causality", strf("pixel (%d,%d) is %.12g, but %.12g after changing pixels beyond row %d", i, k, base[i][k], out[i][k], row));
            i = c.R; break; }
    ctx.count["pairs"] += 4;
    if (moved) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 400));
}

// ------------------------------------------------------------------------------- C09
PROP(C09) {
    (void)icase;
    GenOpt o;
    o.p_kind[2] = 0.04; o.p_kind[3] = 0.03;
    ImgCase c = gen_case(r, o, -2);
    int P = c.m.roe.n_phases();
    // something outside the window
    c.m.r0 = r.range(0, c.R - 1); c.m.r1 = r.range(c.m.r0 + 1, c.R);
    if (c.m.roe.type == 2) c.m.r1 = c.m.r0 + 1;
    c.m.c0 = r.range(0, c.C - 1); c.m.c1 = r.range(c.m.c0 + 1, c.C);
    ctx.desc(show_case(c));
    ref::Img base = par_add(c.im, c.m, 1);
    bool moved = !same_bits(base, c.im);
    for (int i = 0; i < c.R; i++) for (int j = 0; j < c.C; j++) {
        bool in = i >= c.m.r0 && i < c.m.r1 && j >= c.m.c0 && j < c.m.c1;
        if (in) continue;
        bool adjoining = P > 1 && j >= c.m.c0 && j < c.m.c1 && (i == c.m.r1 || (i == c.m.r0 - 1 && !c.m.roe.away));
        if (c.m.roe.type == 2 && j >= c.m.c0 && j < c.m.c1 && (i == c.m.r1 || i == c.m.r0 - 1)) adjoining = true;
        if (adjoining) continue;
        if (base[i][j] != c.im[i][j]) {
            ctx.violation("outside", strf("pixel (%d,%d) outside the window changed from %.12g to %.12g", i, j, c.im[i][j], base[i][j]));
            i = c.R; break; }
    }
    ctx.count["windows"]++;
    // negative pixels outside stay as they are also when the result may not be negative
    {
        ImgCase q = c;
        for (auto& row : q.im) for (auto& v : row) if (r.chance(0.4)) v = -gen_pixel(r, c.m.wells[0].full) * 0.1;
        ref::Img z = par_add(q.im, q.m, 0);
        for (int i = 0; i < c.R; i++) for (int j = 0; j < c.C; j++) {
            bool jin = j >= c.m.c0 && j < c.m.c1, in = i >= c.m.r0 && i < c.m.r1 && jin;
            bool adjoining = jin && (P > 1 || c.m.roe.type == 2) && (i == c.m.r1 || i == c.m.r0 - 1);
            if (in || adjoining) continue;
            ctx.count["outside_not_clamped"] += q.im[i][j] < 0;
            if (z[i][j] != q.im[i][j]) {
                ctx.violation("outside-negative", strf("pixel (%d,%d) outside the window changed from %.12g to %.12g", i, j, q.im[i][j], z[i][j]));
                i = c.R; break; }
        }
    }
    if (c.m.roe.type != 2 && c.m.roe.empty_columns && (P == 1 || c.m.roe.away) && !has_continuum(c.m)) {
        ImgCase f = c; f.m.r0 = 0; f.m.r1 = -1; f.m.c0 = 0; f.m.c1 = -1;
        for (int i = 0; i < c.m.r0; i++) for (int j = 0; j < c.C; j++) f.im[i][j] = 0;
        ref::Img full = par_add(f.im, f.m, 1);
        double tol = img_tol(c.m, c.im) * 1e-2, most = 0;
        for (int i = c.m.r0; i < c.m.r1; i++) for (int j = c.m.c0; j < c.m.c1; j++) most = std::max(most, std::fabs(full[i][j] - base[i][j]));
        if (most > tol) tol += 5 * (unsure_add(f.im, f.m, full) + unsure_add(c.im, c.m, base));
        for (int i = c.m.r0; i < c.m.r1; i++) for (int j = c.m.c0; j < c.m.c1; j++)
            if (!(std::fabs(full[i][j] - base[i][j]) <= tol)) {
                ctx.violation("inside", strf("pixel (%d,%d) is %.12g in the window, %.12g in the full calculation", i, j, base[i][j], full[i][j]));
                i = c.R; break; }
        ctx.count["windows_vs_full"]++;
    }
    // windows of a serial calculation bound the other direction: both windows through add_cti
    {
        ImgCase s = c; LibModel* none = nullptr;
        auto L = lib_model(s.m);
        ref::Img t = run_add(transposed(s.im), none, L.get(), 1);
        if (!same_bits(transposed(t), base)) ctx.violation("serial-window", "the same windows in serial readout of the transposed image give another result");
    }
    if (c.m.roe.type != 2) {
        // offset and prescan
        int d = r.range(1, 8);
        ImgCase a = c, b = c; a.m.offset = d; b.m.offset = 0; b.m.roe.prescan = c.m.roe.prescan + d;
        a.m.r0 = b.m.r0 = 0; a.m.r1 = b.m.r1 = -1; a.m.c0 = b.m.c0 = 0; a.m.c1 = b.m.c1 = -1;
        bool ok = true;
        if (c.m.roe.overscan > 0) { if (c.m.roe.type == 1) { a.m.roe.overscan = b.m.roe.overscan = -1; } else { a.m.roe.overscan = c.m.roe.overscan + d; } }
        if (ok) {
            ref::Img x = par_add(a.im, a.m, 1), y = par_add(b.im, b.m, 1);
            int wi, wj; double df = img_diff(x, y, wi, wj);
            if (!(df <= img_tol(c.m, c.im) * 1e-2) && !(df <= img_tol(c.m, c.im) * 1e-2 + 5 * (unsure_add(a.im, a.m, x) + unsure_add(b.im, b.m, y))))
                ctx.violation("offset-prescan", strf("offset %d: pixel (%d,%d) is %.12g, with a prescan instead %.12g", d, wi, wj, x[wi][wj], y[wi][wj]));
            ctx.count["offset_vs_prescan"]++;
        }
        // padding
        ImgCase p = c; p.m.roe.overscan = -1; p.m.r0 = 0; p.m.r1 = -1; p.m.c0 = 0; p.m.c1 = -1; p.m.offset = 0;
        p.m.roe.prescan = c.m.roe.prescan;
        if (p.m.roe.type == 0) p.m.roe.empty_first = true;
        if (P > 1) p.m.roe.away = true;
        p.m.roe.empty_columns = true;
        int tot = p.m.roe.prescan + d;
        if (p.m.roe.type == 0) {
            if (r.chance(0.4)) p.m.express = 0; else p.m.express = r.range(1, std::max(1, c.R - 1));
            if (p.m.express >= c.R) p.m.express = 0;
        }
        (void)tot;
        ImgCase q = p; q.m.offset = d;
        q.m.roe.prescan = p.m.roe.prescan;
        ImgCase z = p; z.im.insert(z.im.begin(), d, std::vector<double>(c.C, 0.0));
        ref::Img x = par_add(q.im, q.m, 1), y = par_add(z.im, z.m, 1);
        ref::Img y_all = y;
        y.erase(y.begin(), y.begin() + d);
        int wi, wj; double df = img_diff(x, y, wi, wj);
        if (!(df <= img_tol(c.m, c.im)) && !(df <= img_tol(c.m, c.im) + 5 * (unsure_add(q.im, q.m, x) + unsure_add(z.im, z.m, y_all))))
            ctx.violation("offset-padding", strf("offset %d express %d: pixel (%d,%d) is %.12g, padded instead %.12g", d, p.m.express, wi, wj, x[wi][wj], y[wi][wj]));
        ctx.count["offset_vs_padding"]++;
    }
    if (moved) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 400));
}

// ------------------------------------------------------------------------------- C10
PROP(C10) {
    (void)icase;
    GenOpt o; o.surface = true;
    ImgCase c = gen_case(r, o, r.chance(0.8) ? 0 : 1);
    bool both = r.chance(0.3);
    ImgCase d = c; if (both) { d.m = gen_model(r, o, c.C, 0); d.m.r0 = 0; d.m.r1 = -1; }
    // each direction prunes at a frequency and threshold of its own, which removal passes on
    auto prunes = [&](const ref::Model& m) {
        return r.chance(0.5) ? lib_model(m) : lib_model(m, r.pick({0, 1, 2, 5, 20}), r.pick({-1., 1., 1.}) * model_rho(m) * r.loguni(1e-8, 0.3)); };
    auto P = prunes(c.m), S = both ? prunes(d.m) : nullptr;
    bool ser_only = !both && r.chance(0.3);
    if (both) { S->r0 = c.m.c0; S->r1 = c.m.c1; }
    if (ser_only) { c.im = transposed(c.im); std::swap(c.R, c.C); }
    int neg = !r.chance(0.15), n = r.range(0, 4);
    ctx.desc(show_case(c) + (both ? " serial " + show_model(d.m) : std::string()) + strf(" iterations=%d neg=%d serial_only=%d prune=%d,%g,%d,%g", n, neg, ser_only, P->prune_f, P->prune_n, S ? S->prune_f : 0, S ? S->prune_n : 0.0));
    LibModel *p = ser_only ? nullptr : P.get(), *s = ser_only ? P.get() : (both ? S.get() : nullptr);
    ref::Img got = run_remove(c.im, n, p, s, neg);
    // the documented iteration, using the forward model
    ref::Img want = c.im, last;
    for (int k = 0; k < n; k++) {
        ref::Img a = run_add(want, p, s, neg);
        for (int i = 0; i < c.R; i++) for (int j = 0; j < c.C; j++) {
            want[i][j] += c.im[i][j] - a[i][j];
            if (!neg && want[i][j] < 0) want[i][j] = 0;
        }
    }
    int wi, wj; double df = img_diff(got, want, wi, wj);
    double tol = 1e-11 * (img_max(c.im) + img_max(want)) + 1e-300;
    if (!(df <= tol)) ctx.violation(strf("iteration%s", n == 0 ? "-zero" : n == 1 ? "-one" : ""), strf("pixel (%d,%d) after %d iterations is %.12g, expected %.12g", wi, wj, n, got[wi][wj], want[wi][wj]));
    ctx.count["iteration_checks"]++;
    if (n > 0 && !same_bits(got, c.im)) ctx.nontrivial(hash_add(hash_case(c), n));
    ctx.sample(ctx.cur_desc.substr(0, 400));

    // convergence for moderate traps
    if (r.chance(0.35)) {
        GenOpt q; q.notch = false; q.fef = false; q.surface = false; q.p_kind[2] = q.p_kind[3] = 0.1; q.max_species = 2;
        ImgCase e = gen_case(r, q, r.chance(0.8) ? 0 : 1);
        e.m.r0 = 0; e.m.r1 = -1; e.m.c0 = 0; e.m.c1 = -1;
        for (auto& w : e.m.wells) { w.notch = 0; w.power = r.uni(0.6, 1); w.fef = 0; }
        double full = 1e300; for (auto& w : e.m.wells) full = std::min(full, w.full);
        for (auto& w : e.m.wells) w.full = full;
        for (auto& row : e.im) for (auto& v : row) v = full * (0.02 + 0.5 * r.u() * r.u());
        double rho = model_rho(e.m), nt = e.R + e.m.offset + std::max(0, e.m.roe.prescan);
        if (e.m.roe.overscan > 0) nt += e.m.roe.overscan;
        double target = full * 0.02 * r.uni(0.05, 1) / nt;      // traps met over the whole readout: 2% of the well
        for (int k = 0; k < 4; k++) for (auto& x : e.m.t[k]) x.density *= target / rho;
        auto E = lib_model(e.m);
        ctx.desc(show_case(e));
        ref::Img dirty = run_add(e.im, E.get(), nullptr);
        double prev = -1; double scale = img_max(e.im);
        std::string errs;
        for (int k = 0; k <= 6; k++) {
            ref::Img x = run_remove(dirty, k, E.get(), nullptr);
            double err = img_diff(x, e.im, wi, wj) / scale;
            errs += strf(" %.2e", err);
            double floor = 1e-10;
            if (prev >= 0 && !(err <= 0.6 * prev || err <= floor)) {
                ctx.violation("converge", strf("errors after 0,1,.. iterations do not shrink:%s", errs.c_str())); break; }
            prev = err;
            if (k == 6) {
                ref::Img back = run_add(x, E.get(), nullptr);
                double e2 = img_diff(back, dirty, wi, wj) / scale;
                if (!(e2 <= 1e-3 * (img_diff(dirty, e.im, wi, wj) / scale) + 1e-9)) ctx.violation("fixed-point", strf("adding CTI to the corrected image misses the input by %.3g of its peak", e2));
            }
        }
        ctx.count["convergence_checks"]++;
    }
}

// ------------------------------------------------------------------------------- C11
PROP(C11) {
    (void)icase;
    GenOpt o;
    ImgCase c = gen_case(r, o, -2);
    int neg = !r.chance(0.2);
    // the serial model reads along rows: its image is the transpose
    ref::Img im = transposed(c.im);
    auto L = lib_model(c.m), L2 = lib_model(c.m);
    ctx.desc(show_case(c));
    ref::Img par = run_add(c.im, L.get(), nullptr, neg);
    ref::Img ser = run_add(im, nullptr, L2.get(), neg);
    if (!same_bits(transposed(ser), par)) {
        int wi, wj; img_diff(transposed(ser), par, wi, wj);
        ctx.violation("serial-is-transposed", strf("pixel (%d,%d) differs: parallel %.12g, serial on the transpose %.12g", wi, wj, par[wi][wj], ser[wj][wi]));
    }
    ctx.count["serial_vs_parallel"]++;
    // both directions: parallel first
    ImgCase d = c; d.m = gen_model(r, o, c.C, r.chance(0.8) ? 0 : 1);
    auto A = lib_model(c.m), B = lib_model(d.m);
    A->c0 = B->r0 = c.m.c0; A->c1 = B->r1 = c.m.c1;
    B->c0 = A->r0; B->c1 = A->r1;
    if (r.chance(0.5)) { B->r0 = A->c0 = 0; B->r1 = A->c1 = -1; }
    ref::Img both = run_add(c.im, A.get(), B.get(), neg);
    ref::Img first = run_add(c.im, A.get(), nullptr, neg);
    ref::Img second = run_add(first, nullptr, B.get(), neg);
    if (!same_bits(both, second)) ctx.violation("parallel-then-serial", "adding both together differs from parallel, then serial" + std::string(" ") + show_model(d.m));
    // and removal
    int n = r.range(1, 2);
    ref::Img rp = run_remove(c.im, n, L.get(), nullptr, neg), rs = run_remove(im, n, nullptr, L2.get(), neg);
    if (!same_bits(transposed(rs), rp)) ctx.violation("remove-serial-is-transposed", strf("removing serial CTI differs after %d iterations", n));
    ctx.count["both_vs_sequence"]++;
    if (!same_bits(par, c.im)) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 400));
}

// ------------------------------------------------------------------------------- C12
// the image f returns (of the same shape as im), computed in a child process
template <class F> static ref::Img in_child(const ref::Img& im, F f) {
    ref::Img out;
    int p[2];
    if (pipe(p)) return out;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        omp_set_num_threads(1);     // the other threads are not there in a child
        ref::Img o = f();
        FILE* w = fdopen(p[1], "w");
        for (auto& row : o) fwrite(row.data(), sizeof(double), row.size(), w);
        fflush(w);
        _exit(0);
    }
    close(p[1]);
    FILE* rd = fdopen(p[0], "r");
    out.assign(im.size(), std::vector<double>(im[0].size()));
    for (auto& row : out) if (fread(row.data(), sizeof(double), row.size(), rd) != row.size()) { out.clear(); break; }
    fclose(rd);
    int st; waitpid(pid, &st, 0);
    return out;
}
// a case that is another but for one thing
static ImgCase relative_of(Rng& r, const GenOpt& o, const ImgCase& a) {
    ImgCase c = a;
    int kinds[4], nk = 0;
    for (int k = 0; k < 4; k++) if (!c.m.t[k].empty()) kinds[nk++] = k;
    int k = kinds[r.range(0, nk - 1)], q = r.range(0, (int)c.m.t[k].size() - 1);
    double full = 0; for (auto& w : c.m.wells) full = std::max(full, w.full);
    switch (r.range(0, 9)) {
        case 0: case 1: c.m.t[k][q] = gen_relative(r, k, o, c.m.roe.dwell[0], c.m.t[k][q]); break;
        case 2: c.m.t[k].push_back(gen_relative(r, k, o, c.m.roe.dwell[0], c.m.t[k][q])); break;
        case 3: {   // twice as fast, in the same time overall
            for (auto& d : c.m.roe.dwell) d /= 2;
            if (c.m.roe.type != 2) c.m.offset += (c.m.r1 == -1 ? c.R : c.m.r1) - c.m.r0 + c.m.offset + c.m.roe.prescan;
            else c.m.roe.n_pumps *= 2;
            break;
        }
        case 4: { double f = r.loguni(0.3, 3); for (auto& d : c.m.roe.dwell) d *= f; break; }
        case 5: c.m.wells[r.range(0, (int)c.m.wells.size() - 1)] = gen_well(r, o); break;
        case 6: c.im = gen_image(r, c.R, c.C, full); break;
        case 7: c.m.express = c.m.roe.type == 2 ? r.range(0, c.m.roe.n_pumps) : r.range(0, c.R + 3); break;
        case 8: if (c.m.roe.type == 0) c.m.roe.away ^= 1; else c.m.roe.integer ^= 1; break;
        case 9: if (c.m.roe.type != 2) c.m.roe.prescan = r.range(0, 6); else c.m.roe.empty_first ^= 1; break;
    }
    return c;
}
PROP(C12) {
    GenOpt o; o.max_rows = 9; o.p_kind[2] = o.p_kind[3] = 0.03;
    bool family = r.chance(0.5);
    if (family && r.chance(0.1)) { o.max_phases = 2; o.max_rows = 5; o.max_cols = 2; o.p_kind[2 + r.range(0, 1)] = 0.9; o.big = false; }
    int n = family ? r.range(2, 5) : r.range(2, 4);
    struct Item { ImgCase c; int what, n_it, neg; ref::Img first; std::shared_ptr<LibModel> L; VImg image; int serial; };
    std::vector<Item> items;
    std::string d;
    for (int i = 0; i < n; i++) {
        Item t; t.c = family && i && r.chance(0.7) ? relative_of(r, o, items[r.range(0, i - 1)].c) : gen_case(r, o, -2); t.what = r.range(0, 2); t.n_it = r.range(1, 2); t.neg = !r.chance(0.2); t.serial = r.chance(0.3);
        t.L = lib_model(t.c.m, r.chance(0.5) ? 0 : 3);
        d += strf("[%d what=%d serial=%d] ", i, t.what, t.serial) + show_case(t.c) + " ";
        items.push_back(t);
    }
    for (auto& t : items) { if (t.serial) t.c.im = transposed(t.c.im); t.image = to_v(t.c.im); }
    ctx.desc(d);
    auto call = [&](Item& t, LibModel* L) {
        LibModel *p = t.serial ? nullptr : L, *s = t.serial ? L : nullptr;
        return t.what ? run_add(t.c.im, p, s, t.neg) : run_remove(t.c.im, t.n_it, p, s, t.neg);
    };
    bool any = false;
    if (family) ctx.count["related_calls"]++;
    // what each call gives in a process that has made no other of these calls
    std::vector<ref::Img> alone(n);
    bool apart = family ? r.chance(0.5) : r.chance(0.1);
    if (apart)
        for (int i = 0; i < n; i++) {
            auto F = lib_model(items[i].c.m, items[i].L->prune_f);
            alone[i] = in_child(items[i].c.im, [&] { return call(items[i], F.get()); });
            ctx.count["calls_alone_in_a_process"]++;
        }
    for (auto& t : items) {
        auto F = lib_model(t.c.m, t.L->prune_f);
        t.first = call(t, F.get());
        any |= !same_bits(t.first, t.c.im);
        size_t i = &t - &items[0];
        if (apart && !same_bits(t.first, alone[i])) {
            int wi = 0, wj = 0; if (!alone[i].empty()) img_diff(t.first, alone[i], wi, wj);
            ctx.violation("other-calls-before", strf("call %zu after the others: pixel (%d,%d) is %.12g, alone in a process %.12g", i, wi, wj, t.first[wi][wj], alone[i].empty() ? NAN : alone[i][wi][wj]));
            return;
        }
    }
    // a history of calls sharing objects, copying and assigning them, at any verbosity
    std::string hist;
    int n_ops = r.range(6, 12);
    for (int k = 0; k < n_ops; k++) {
        int i = r.range(0, n - 1);
        Item& t = items[i];
        int v = icase % 8 == 0 && r.chance(0.2) ? 2 : r.chance(0.15) ? 1 : 0;
        int how = r.range(0, 4);
        hist += strf(" %d:%d(v%d)", i, how, v);
        set_verbosity(v);
        ref::Img got;
        if (how <= 1) got = call(t, t.L.get());                        // shared objects
        else if (how == 2) { auto F = lib_model(t.c.m, t.L->prune_f); got = call(t, F.get()); }  // fresh
        else if (how == 3) {                                           // a copy, whose original then changes
            auto F = lib_model(t.c.m, t.L->prune_f);
            std::unique_ptr<ROE> copy;
            if (t.c.m.roe.type == 0) copy.reset(new ROE(*F->roe));
            else if (t.c.m.roe.type == 1) copy.reset(new ROEChargeInjection(*static_cast<ROEChargeInjection*>(F->roe.get())));
            else copy.reset(new ROETrapPumping(*static_cast<ROETrapPumping*>(F->roe.get())));
            F->roe->dwell_times *= 3.0; F->roe->prescan_offset += 2; F->roe->empty_traps_between_columns ^= 1;
            F->dwell *= 7.0;
            F->roe = std::move(copy);
            std::unique_ptr<CCD> cc(new CCD(*F->ccd));
            for (auto& ph : F->ccd->phases) ph.full_well_depth *= 2;
            F->ccd = std::move(cc);
            got = call(t, F.get());
        } else {                                                       // an assigned object
            auto F = lib_model(t.c.m, t.L->prune_f);
            auto G = lib_model(items[r.range(0, n - 1)].c.m);
            if (t.c.m.roe.type == 0) {
                std::valarray<double> dw(9.0, 3);
                ROE* a = new ROE(dw, 1, 4, false, true, false, true);
                a->set_clock_sequence(); a->set_express_matrix_from_rows_and_express(5, 2, 1); a->set_store_trap_states_matrix();
                *a = *F->roe; F->roe->dwell_times *= 2.0; F->roe.reset(a);
            } else if (t.c.m.roe.type == 2) {
                std::valarray<double> dw(9.0, 2);
                ROETrapPumping* a = new ROETrapPumping(dw, 9, true, true);
                *a = *static_cast<ROETrapPumping*>(F->roe.get()); F->roe.reset(a);
            }
            F->dwell = -1.0;
            got = call(t, F.get());
        }
        set_verbosity(0);
        ctx.count["calls"]++;
        if (!same_bits(got, t.first)) {
            int wi, wj; img_diff(got, t.first, wi, wj);
            ctx.violation(strf("repeat-%d", how), strf("call %d of the history%s: item %d pixel (%d,%d) is %.12g, first %.12g", k, hist.c_str(), i, wi, wj, got[wi][wj], t.first[wi][wj]));
            return;
        }
    }
    // inputs are unchanged
    for (auto& t : items) {
        VImg in = to_v(t.c.im);
        LibModel* L = t.L.get();
        auto F = lib_model(t.c.m);
        if (!t.serial)
            (void)(t.what ? add_cti(in, L->roe.get(), L->ccd.get(), &L->ic, &L->sc, &L->icco, &L->scco, L->express, L->offset, L->r0, L->r1)
                          : remove_cti(in, t.n_it, L->roe.get(), L->ccd.get(), &L->ic, &L->sc, &L->icco, &L->scco, L->express, L->offset, L->r0, L->r1));
        else
            (void)(t.what ? add_cti(in, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, 0, 0, L->c0, L->c1, 0, -1, 1e-10, 20,
                                    L->roe.get(), L->ccd.get(), &L->ic, &L->sc, &L->icco, &L->scco, L->express, L->offset, L->r0, L->r1)
                          : remove_cti(in, t.n_it, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, 0, 0, L->c0, L->c1, 0, -1, 1e-10, 20,
                                    L->roe.get(), L->ccd.get(), &L->ic, &L->sc, &L->icco, &L->scco, L->express, L->offset, L->r0, L->r1));
        if (!same_bits(from_v(in), t.c.im)) { ctx.violation("input-image", "the input image was modified"); return; }
        bool same = L->ic.size() == F->ic.size() && L->sc.size() == F->sc.size();
        for (size_t i = 0; same && i < L->ic.size(); i++) same = L->ic[i].density == F->ic[i].density && L->ic[i].release_timescale == F->ic[i].release_timescale &&
            L->ic[i].release_rate == F->ic[i].release_rate && L->ic[i].fractional_volume_full_exposed == F->ic[i].fractional_volume_full_exposed;
        for (size_t i = 0; same && i < L->sc.size(); i++) same = L->sc[i].density == F->sc[i].density && L->sc[i].capture_rate == F->sc[i].capture_rate;
        for (size_t i = 0; same && i < L->icco.size(); i++) same = L->icco[i].density == F->icco[i].density;
        for (size_t i = 0; same && i < L->scco.size(); i++) same = L->scco[i].density == F->scco[i].density;
        if (!same) ctx.violation("traps", "the caller's traps were modified");
        bool sr = L->roe->dwell_times.size() == F->roe->dwell_times.size() && (L->roe->dwell_times == F->roe->dwell_times).min() &&
            L->roe->prescan_offset == F->roe->prescan_offset && L->roe->overscan_start == F->roe->overscan_start &&
            L->roe->empty_traps_between_columns == F->roe->empty_traps_between_columns && L->roe->n_steps == F->roe->n_steps && L->roe->n_phases == F->roe->n_phases;
        if (!sr) ctx.violation("roe", "the caller's readout description was modified");
        bool sc = L->ccd->n_phases == F->ccd->n_phases;
        for (int i = 0; sc && i < L->ccd->n_phases; i++) sc = L->ccd->phases[i].full_well_depth == F->ccd->phases[i].full_well_depth && L->ccd->fraction_of_traps_per_phase[i] == F->ccd->fraction_of_traps_per_phase[i];
        if (!sc) ctx.violation("ccd", "the caller's CCD description was modified");
    }
    ctx.count["histories"]++;
    if (any) ctx.nontrivial(hash_str(d + hist));
    ctx.sample((hist + " over " + d).substr(0, 400));
}

// ------------------------------------------------------------------------------- C15, whole images
PROP(C15I) {
    (void)icase;
    GenOpt o;
    ImgCase c = gen_case(r, o, -2);
    ctx.desc(show_case(c));
    ref::Img none = par_add(c.im, c.m, 1, 0);
    int f = r.pick({1, 2, 5, 20});
    // a frequency of zero disables pruning whatever the threshold
    if (!same_bits(par_add(c.im, c.m, 1, 0, 1e9), none)) ctx.violation("frequency-zero", "a pruning frequency of zero still prunes");
    ref::Img def = par_add(c.im, c.m, 1, f, 1e-10);
    int wi, wj; double d = img_diff(def, none, wi, wj);
    double n_int = n_transfers_bound(c.m, c.R) * c.R * c.m.roe.n_steps();
    // dropping at most ~1e-10 electrons (per region and prune) can lower the cloud by that much; the
    // well's volume magnifies it when clouds are near its notch
    double tol = img_tol(c.m, c.im) * 10 + 1e-6 * std::max(1.0, model_rho(c.m)) + 1e-9 * n_int;
    if (has_continuum(c.m)) tol += 1e-5 * model_rho(c.m);
    double magnified = 0; for (auto& w : c.m.wells) magnified = std::max(magnified, std::pow(1e-9 / w.full, w.power));
    tol += magnified * model_rho(c.m);
    if (!(d <= tol)) {   // no more certain than the results without pruning on images that differ by rounding
        double unsure = 0;
        for (auto& z : rounded(c.im)) { int a, b; unsure = std::max(unsure, img_diff(par_add(z, c.m, 1, 0), none, a, b)); }
        if (d <= tol + 5 * unsure) ctx.count["skipped_rounding_decides"]++;
        else ctx.violation("default-image", strf("pruning every %d pixels at 1e-10 changed pixel (%d,%d) from %.12g to %.12g", f, wi, wj, none[wi][wj], def[wi][wj]));
    }
    if (d > 0) ctx.count["images_changed_by_pruning"]++;
    ctx.count["images"]++;
    if (!same_bits(none, c.im)) ctx.nontrivial(hash_case(c));
}

// ------------------------------------------------------------------------------- C16
PROP(C16) {
    (void)icase;
    GenOpt o; o.dens_hi = r.chance(0.5) ? 30 : 3000;
    ImgCase c = gen_case(r, o, -2);
    bool serial = r.chance(0.3);
    if (r.chance(0.5)) c.m.express = r.range(1, 2);
    auto L = lib_model(c.m, r.chance(0.5) ? 0 : 5);
    auto add = [&](int neg) { auto M = lib_model(c.m, L->prune_f);
        return serial ? transposed(run_add(transposed(c.im), nullptr, M.get(), neg)) : run_add(c.im, M.get(), nullptr, neg); };
    ctx.desc(show_case(c) + strf(" serial=%d prune=%d", serial, L->prune_f));
    ref::Img no = add(0), yes = add(1);
    bool negative = false;
    for (auto& row : yes) for (double v : row) negative |= v < 0;
    if (negative) ctx.count["images_that_would_go_negative"]++;
    for (int i = 0; i < c.R; i++) for (int j = 0; j < c.C; j++)
        if (!(no[i][j] >= 0)) { ctx.violation("add", strf("pixel (%d,%d) is %.12g although negative pixels are forbidden", i, j, no[i][j])); i = c.R; break; }
    ref::Model m = c.m; attach_model_tables(m, c.R, c.C);
    ref::Stats st; bool amb = false;
    ref::clock(c.im, m, 1, st, amb);
    if (!amb && st.min_pix > -1e-12 * (1 + img_max(c.im)) && st.min_pix == 0) {
        ctx.count["never_negative"]++;
        double tol = img_tol(c.m, c.im) * 1e-2;
        int wi, wj; double d = img_diff(no, yes, wi, wj);
        if (!(d <= tol)) ctx.violation("no-effect", strf("no pixel goes negative, yet forbidding it changes pixel (%d,%d) from %.12g to %.12g", wi, wj, yes[wi][wj], no[wi][wj]));
    }
    ref::Express X = ref::express_matrix(c.m.roe, c.R, c.m.express, c.m.offset);
    double mx = 0; for (double v : X.m) mx = std::max(mx, v);
    if (mx <= 1) {
        ctx.count["single_transfers"]++;
        double tol = img_tol(c.m, c.im);
        for (int i = 0; i < c.R; i++) for (int j = 0; j < c.C; j++)
            if (!(yes[i][j] >= -tol)) { ctx.violation("overdraw", strf("pixel (%d,%d) is %.12g with one transfer at a time", i, j, yes[i][j])); i = c.R; break; }
    }
    int n = r.range(1, 3);
    ref::Img rem = serial ? run_remove(transposed(c.im), n, nullptr, L.get(), 0) : run_remove(c.im, n, L.get(), nullptr, 0);
    for (auto& row : rem) for (double v : row) if (!(v >= 0)) { ctx.violation("remove", strf("a pixel is %.12g after %d iterations although negative pixels are forbidden", v, n)); goto done; }
done:
    // pixels that start negative, and are allowed to, give no electrons
    {
        ImgCase g = c; for (auto& row : g.im) for (auto& v : row) v = -std::fabs(v) * r.u() - r.u();
        ref::Img out = par_add(g.im, g.m, 1);
        if (!same_bits(out, g.im)) { int wi, wj; img_diff(out, g.im, wi, wj);
            ctx.violation("negative-input", strf("pixel (%d,%d) went from %.12g to %.12g although no pixel has any electrons", wi, wj, g.im[wi][wj], out[wi][wj])); }
        ctx.count["all_negative_images"]++;
    }
    if (!same_bits(no, c.im)) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 400));
}

// ------------------------------------------------------------------------------- C24
// The elapsed time that describes partly filled traps, extrapolated beyond the tables, is beyond all numbers.
static bool elapsed_overflows(const ImgCase& c) {
    ref::Model m = c.m; attach_model_tables(m, c.R, c.C);
    for (int k = 2; k < 4; k++) for (auto& s : m.t[k]) if (s.density > 0 && s.T && !(s.T(1e-9) < 1e300)) return true;
    return false;
}
// Known finding: there, traps partly filled are met again as if empty, which depends on the unit of time.
static void unit_of_time_overflow(Ctx& ctx) {
    double pix[2];
    for (int k = 0; k < 2; k++) {
        const double f = k ? 0.03125 : 1;
        std::valarray<double> d = {1.1979 * f, 1.1979 * f};
        ROETrapPumping roe(d, 7, false, false);
        CCD ccd(CCDPhase(491.796, 40.5628, 1.237, 0));
        std::valarray<TrapSlowCaptureContinuum> t = {TrapSlowCaptureContinuum(15.1266, 58194.2 * f, 0.001, 0.75278 * f)};
        VImg a(std::valarray<double>(0.0, 1), 6);
        for (int i = 0; i < 6; i++) a[i][0] = 73.7693 * i;
        VImg x = add_cti(a, &roe, &ccd, nullptr, nullptr, nullptr, &t, 0, 0, 0, 1, 0, -1, 1e-10, 0);
        pix[k] = x[1][0];
    }
    ctx.desc("7 pumps of row 0 of [0;73.7693;147.5386;..] with one slow-capture continuum species, release 58194.2, spread 0.001, capture 0.75278, dwell 1.1979, and all times / 32");
    if (!(std::fabs(pix[0] - pix[1]) <= 1e-6)) ctx.violation("time-scale-overflow", strf("row 1 is %.9g, and %.9g when all times are scaled by 1/32", pix[0], pix[1]));
}
PROP(C24) {
    if (icase == 0) unit_of_time_overflow(ctx);
    GenOpt o;
    ImgCase c = gen_case(r, o, -2);
    ctx.desc(show_case(c));
    ref::Img base = par_add(c.im, c.m, 1);
    bool moved = !same_bits(base, c.im);
    // no traps at all: every combination of nullptr and empty lists
    {
        auto L = lib_model(c.m); L->ic = {}; L->sc = {}; L->icco = {}; L->scco = {};
        if (!same_bits(run_add(c.im, L.get(), nullptr), c.im)) ctx.violation("no-traps", "empty trap lists change the image");
        VImg v = to_v(c.im);
        VImg out = add_cti(v, L->roe.get(), L->ccd.get());
        if (!same_bits(from_v(out), c.im)) ctx.violation("null-traps", "no trap lists change the image");
        VImg rem = remove_cti(v, 2, L->roe.get(), L->ccd.get());
        if (!same_bits(from_v(rem), c.im)) ctx.violation("null-traps-remove", "removing CTI without traps changes the image");
    }
    // densities of zero
    {
        ImgCase z = c; for (int k = 0; k < 4; k++) for (auto& s : z.m.t[k]) s.density = 0;
        ref::Img out = par_add(z.im, z.m, 1);
        if (!same_bits(out, c.im)) { int wi, wj; img_diff(out, c.im, wi, wj); ctx.violation("zero-density", strf("traps of zero density change pixel (%d,%d) from %.12g to %.12g", wi, wj, c.im[wi][wj], out[wi][wj])); }
    }
    // no charge
    {
        ImgCase z = c; for (auto& row : z.im) for (auto& v : row) v = 0;
        if (!same_bits(par_add(z.im, z.m, 1), z.im)) ctx.violation("empty-image", "an empty image does not stay empty");
        auto L = lib_model(z.m);
        if (!same_bits(run_remove(z.im, 2, L.get(), nullptr), z.im)) ctx.violation("empty-image-remove", "removing CTI from an empty image gives charge");
    }
    // below the notch, or below the depth at which surface traps begin
    {
        ImgCase z = c; double mx = img_max(z.im);
        for (auto& w : z.m.wells) { w.fef = 0; w.notch = mx * (1 + r.u()) + 1; w.full = w.notch + w.full; }
        if (!same_bits(par_add(z.im, z.m, 1), z.im)) ctx.violation("below-notch", "clouds below the notch lose charge");
        ImgCase y = c; bool any = y.m.t[0].size() > 0;
        for (int k = 1; k < 4; k++) y.m.t[k].clear();
        if (any) {
            double V = 0; for (auto& w : y.m.wells) { w.fef *= 0.3; w.full = std::max(w.full, mx * 2 + 1); V = std::max(V, w.volume(mx)); }
            if (V < 0.95) {
                for (auto& s : y.m.t[0]) { s.none = V + (1 - V) * r.uni(0.01, 0.5); s.full = r.chance(0.3) ? s.none : r.uni(s.none, 1); }
                ref::Img out = par_add(y.im, y.m, 1);
                if (!same_bits(out, c.im)) { int wi, wj; img_diff(out, c.im, wi, wj); ctx.violation("out-of-reach", strf("traps above the clouds change pixel (%d,%d) from %.12g to %.12g; %s", wi, wj, c.im[wi][wj], out[wi][wj], show_model(y.m).c_str())); }
                ctx.count["out_of_reach"]++;
            }
        }
    }
    // scaling of charge (a power of two, so that only rounding of the wells' power differs)
    {
        double f = std::pow(2.0, r.range(-6, 6));
        ImgCase z = c; for (auto& row : z.im) for (auto& v : row) v *= f;
        for (auto& w : z.m.wells) { w.full *= f; w.notch *= f; }
        for (int k = 0; k < 4; k++) for (auto& s : z.m.t[k]) s.density *= f;
        ref::Img out = par_add(z.im, z.m, 1); for (auto& row : out) for (auto& v : row) v /= f;
        int wi, wj; double d = img_diff(out, base, wi, wj);
        if (!(d <= img_tol(c.m, c.im)) && !(d <= img_tol(c.m, c.im) + 5 * unsure_add(c.im, c.m, base))) ctx.violation("charge-scale", strf("scaling charge by %g changes pixel (%d,%d) from %.12g to %.12g", f, wi, wj, base[wi][wj], out[wi][wj]));
        ctx.count["charge_scalings"]++;
    }
    {
        double f = std::pow(2.0, r.range(-6, 6));
        ImgCase z = c; for (auto& x : z.m.roe.dwell) x *= f;
        for (int k = 0; k < 4; k++) for (auto& s : z.m.t[k]) { s.tau *= f; s.tauc *= f; }
        ref::Img out = par_add(z.im, z.m, 1);
        int wi, wj; double d = img_diff(out, base, wi, wj);
        double tol = img_tol(c.m, c.im) + (has_continuum(c.m) ? 1e-4 * model_rho(c.m) * n_transfers_bound(c.m, c.R) : 0);
        if (!(d <= tol) && elapsed_overflows(c)) ctx.count["skipped_elapsed_overflow"]++;   // known finding, below
        else if (!(d <= tol) && !(d <= tol + 5 * unsure_add(c.im, c.m, base))) ctx.violation("time-scale", strf("scaling times by %g changes pixel (%d,%d) from %.12g to %.12g", f, wi, wj, base[wi][wj], out[wi][wj]));
        ctx.count["time_scalings"]++;
    }
    if (moved) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 400));
}

// ------------------------------------------------------------------------------- C25
PROP(C25) {
    (void)icase;
    GenOpt o; o.p_kind[2] = o.p_kind[3] = 0.12;
    ImgCase c = gen_case(r, o, -2);
    ctx.desc(show_case(c));
    ref::Img base = par_add(c.im, c.m, 1);
    bool moved = !same_bits(base, c.im);
    double tol = img_tol(c.m, c.im) * (has_continuum(c.m) ? 1e-1 : 1);
    auto judge = [&](const ImgCase& z, const char* key, const char* what, double t) {
        ref::Img out = par_add(z.im, z.m, 1);
        int wi, wj; double d = img_diff(out, base, wi, wj);
        ctx.count[key]++;
        if (!(d <= t) && d <= t + 5 * unsure_add(c.im, c.m, base)) { ctx.count["skipped_rounding_decides"]++; return; }
        if (!(d <= t)) ctx.violation(key, strf("%s changes pixel (%d,%d) from %.12g to %.12g: %s", what, wi, wj, base[wi][wj], out[wi][wj], show_model(z.m).c_str()));
    };
    {
        ImgCase z = c;
        for (int k = 0; k < 4; k++) {
            std::vector<ref::Species> n;
            for (auto& s : c.m.t[k]) {
                int p = r.range(1, 3); double left = s.density;
                for (int i = 0; i < p; i++) { ref::Species q = s; q.density = i == p - 1 ? left : left * r.u(); left -= q.density; n.push_back(q); }
            }
            z.m.t[k] = n;
        }
        judge(z, "split", "splitting species", tol);
        for (int k = 0; k < 4; k++) for (int i = (int)z.m.t[k].size() - 1; i > 0; i--) std::swap(z.m.t[k][i], z.m.t[k][r.range(0, i)]);
        judge(z, "reorder", "reordering species", tol);
    }
    {
        ImgCase z = c; bool only_present = r.chance(0.5);
        for (int k = 0; k < 4; k++) if (!only_present || !c.m.t[k].empty()) {
            if (k >= 2 && z.m.t[k].empty() && (!r.chance(0.3) || (z.m.roe.dwell != std::vector<double>(z.m.roe.dwell.size(), z.m.roe.dwell[0])))) continue;
            ref::Species q = gen_species(r, k, o, z.m.roe.dwell[0]); q.density = 0;
            z.m.t[k].insert(z.m.t[k].begin() + r.range(0, (int)z.m.t[k].size()), q);
        }
        judge(z, "zero-density", "adding species of zero density", tol);
    }
    {   // empty lists and null pointers are the same
        auto L = lib_model(c.m); VImg v = to_v(c.im);
        VImg out = add_cti(v, L->roe.get(), L->ccd.get(), L->ic.size() ? &L->ic : nullptr, L->sc.size() ? &L->sc : nullptr,
            L->icco.size() ? &L->icco : nullptr, L->scco.size() ? &L->scco : nullptr, L->express, L->offset, L->r0, L->r1, 0, -1, 1e-10, 0,
            nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, 0, 0, L->c0, L->c1);
        if (!same_bits(from_v(out), base)) ctx.violation("null-list", "an empty list differs from none");
        ctx.count["null_lists"]++;
    }
    // reductions to the simpler trap
    {
        ImgCase a = c; for (int k = 1; k < 4; k++) a.m.t[k].clear();
        for (auto& x : a.m.roe.dwell) x = a.m.roe.dwell[0];
        a.m.t[0].clear(); int n = r.range(1, 2);
        for (int i = 0; i < n; i++) { ref::Species s = gen_species(r, ref::IC, o, a.m.roe.dwell[0]); s.none = s.full = 0; s.tau = a.m.roe.dwell[0] * r.loguni(0.5, 20); a.m.t[0].push_back(s); }
        ref::Img ic = par_add(a.im, a.m, 1);
        int wi, wj;
        ImgCase b = a; for (auto& s : b.m.t[0]) { s.none = 0; s.full = 1e-12; }
        ref::Img su = par_add(b.im, b.m, 1); double d = img_diff(su, ic, wi, wj);
        if (!(d <= img_tol(a.m, a.im) * 10) && !(d <= img_tol(a.m, a.im) * 10 + 5 * unsure_add(a.im, a.m, ic))) ctx.violation("surface-limit", strf("surface traps exposed everywhere differ at (%d,%d): %.12g, uniform traps %.12g; %s", wi, wj, su[wi][wj], ic[wi][wj], show_model(a.m).c_str()));
        ctx.count["surface_limits"]++;
        // where multipliers overdraw pixels, whether the next cloud holds electrons hangs on the last digits
        bool overdrawn = false;
        for (auto& row : ic) for (double x : row) overdrawn |= x < 0;
        if (!overdrawn && r.chance(0.35)) {
            ImgCase e = a; e.m.t[0].clear(); e.m.t[2] = a.m.t[0]; for (auto& s : e.m.t[2]) s.sigma = 1e-3;
            ref::Img co = par_add(e.im, e.m, 1); d = img_diff(co, ic, wi, wj);
            // times that are long compared with the table's extent are extrapolated
            double nt = n_transfers_bound(a.m, a.R);
            double lim = 2e-3 * model_rho(a.m) * nt + img_tol(a.m, a.im);
            if (!(d <= lim)) ctx.violation("narrow-limit", strf("a narrow continuum differs at (%d,%d): %.12g, single release time %.12g; %s", wi, wj, co[wi][wj], ic[wi][wj], show_model(a.m).c_str()));
            ctx.count["narrow_limits"]++;
        }
    }
    if (moved) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 400));
}

// ------------------------------------------------------------------------------- C26
PROP(C26) {
    (void)icase;
    GenOpt o;
    ImgCase c = gen_case(r, o, r.chance(0.6) ? 0 : 1);
    c.m.r0 = 0; c.m.r1 = -1; c.m.c0 = 0; c.m.c1 = -1;
    c.m.roe.empty_columns = true;
    int P = c.m.roe.n_phases();
    auto sums = [](const ref::Img& a) { std::vector<double> s(a[0].size(), 0); for (auto& q : a) for (size_t j = 0; j < q.size(); j++) s[j] += q[j]; return s; };
    bool moved = false;
    {   // every transfer, each pass from empty traps
        ImgCase f = c; f.m.express = 0; if (f.m.roe.type == 0) f.m.roe.empty_first = true;
        if (P > 1) f.m.roe.away = r.chance(0.5);
        // the furthest row can release beyond the image: keep the charge inside by empty rows at the end
        f.im.push_back(std::vector<double>(f.C, 0.0)); f.im.push_back(std::vector<double>(f.C, 0.0)); f.R += 2;
        ctx.desc(show_case(f));
        ref::Img out = par_add(f.im, f.m, 1);
        moved |= !same_bits(out, f.im);
        auto a = sums(f.im), b = sums(out);
        ref::Express X = ref::express_matrix(f.m.roe, f.R, 0, f.m.offset);
        double tol = img_tol(f.m, f.im) * f.R;
        double hold = model_rho(f.m) * X.n_passes;   // what the traps could hold after every pass
        for (int j = 0; j < f.C; j++) {
            if (!(b[j] <= a[j] + tol)) { ctx.violation("created", strf("column %d went from %.12g to %.12g electrons", j, a[j], b[j])); break; }
            if (P == 1 && !(a[j] - b[j] <= hold + tol)) { ctx.violation("lost", strf("column %d lost %.12g electrons, the traps could hold %.12g", j, a[j] - b[j], hold)); break; }
        }
        ctx.count["totals_bounded"]++;
        // enough empty pixels for the traps to empty
        if (r.chance(0.4)) {
            ImgCase g = f; int tail = 40; double dw = 0; for (double x : g.m.roe.dwell) dw += x;
            g.m.t[2].clear(); g.m.t[3].clear();
            if (!g.m.have_traps()) g.m.t[0].push_back(gen_species(r, 0, o, g.m.roe.dwell[0] / 60));
            for (int k = 0; k < 2; k++) for (auto& s : g.m.t[k]) {
                s.tau = std::min(s.tau, g.m.roe.dwell[0] * r.uni(0.2, 0.8));
                for (double x : g.m.roe.dwell) s.tau = std::min(s.tau, x * 0.8); }
            if (g.m.roe.overscan > 0) g.m.roe.overscan = -1;
            // released electrons mostly stay released: a share of at most 0.2 is captured again
            double well = 1e300, rho = 0;
            for (auto& w : g.m.wells) { w.fef = 0; w.power = 1; well = std::min(well, w.full - w.notch); }
            for (int k = 0; k < 2; k++) for (auto& s : g.m.t[k]) rho += s.full > s.none ? s.density / (s.full - s.none) : s.density;
            // and over all passes an electron is captured again less than once on average
            double lim = std::min(0.2, 0.5 / (g.R + tail + g.m.offset + g.m.roe.prescan)) * well;
            if (rho > lim) for (int k = 0; k < 2; k++) for (auto& s : g.m.t[k]) s.density *= lim / rho;
            for (int i = 0; i < tail; i++) g.im.push_back(std::vector<double>(g.C, 0.0)); g.R += tail;
            ctx.desc(show_case(g));
            ref::Img o2 = par_add(g.im, g.m, 1);
            auto p = sums(g.im), q = sums(o2);
            // trapped electrons decay towards small residues that are recaptured; all within tolerance
            for (int j = 0; j < g.C; j++) {
                double lim = 1e-6 * (p[j] + model_rho(g.m) * g.R) ;
                if (!(std::fabs(p[j] - q[j]) <= lim)) {
                    ctx.violation("not recovered", strf("column %d: %.12g electrons, %.12g after %d empty pixels", j, p[j], q[j], tail)); break; }
                ctx.count["tails"]++;
            }
        }
    }
    {   // single pass: the multiplier-weighted changes are what the traps keep
        ImgCase f = c; f.m.express = 1; if (f.m.roe.type == 0) f.m.roe.empty_first = false;
        f.m.roe.overscan = -1; f.m.roe.integer = r.chance(0.3);
        if (P > 1) f.m.roe.away = true;
        ctx.desc(show_case(f));
        ref::Img out = par_add(f.im, f.m, 1);
        moved |= !same_bits(out, f.im);
        if (P == 1) {
            ref::Model m = f.m; attach_model_tables(m, f.R, f.C);
            auto kept = [&](const ref::Img& im, int j) {
                std::vector<ref::Traps> T(4);
                for (int k = 0; k < 4; k++) { T[k].kind = (ref::Kind)k; T[k].well = m.wells[0]; T[k].dwell = m.roe.dwell[0]; T[k].sp = m.t[k]; }
                for (int i = 0; i < f.R; i++) {
                    double x = 0;
                    for (int k = 0; k < 4; k++) if (!m.t[k].empty()) x += T[k].interact(im[i][j] + x);
                }
                double held = 0;
                for (auto& t : T) held += t.held();
                return held;
            };
            for (int j = 0; j < f.C; j++) {
                double w = 0, held = kept(f.im, j);
                for (int i = 0; i < f.R; i++)
                    w += (out[i][j] - f.im[i][j]) / (f.m.roe.type == 1 ? f.R + f.m.offset + f.m.roe.prescan : i + 1 + f.m.offset + f.m.roe.prescan);
                if (!(std::fabs(w + held) <= img_tol(f.m, f.im))) {
                    double unsure = 0;
                    for (auto& z : rounded(f.im)) unsure = std::max(unsure, std::fabs(kept(z, j) - held));
                    if (std::fabs(w + held) <= img_tol(f.m, f.im) + 5 * unsure) { ctx.count["skipped_rounding_decides"]++; continue; }
                    ctx.violation("ledger", strf("column %d: changes per transfer add up to %.12g, the traps keep %.12g", j, w, held)); break; }
                ctx.count["ledgers"]++;
            }
        }
    }
    if (moved) ctx.nontrivial(hash_case(c));
    ctx.sample(show_case(c).substr(0, 400));
}
