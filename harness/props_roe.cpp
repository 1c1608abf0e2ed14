// Readout electronics: C05 express multipliers, C06 hand-over of trap states, C07 clock sequence,
// C23 rejection of invalid configurations.
#include <functional>
#include <sys/wait.h>
#include <unistd.h>

#include "image.hpp"

struct ExpCase { ref::RoeCfg c; int n_rows, express, offset; };

// the first cases enumerate every small configuration, the rest are random and larger
static bool enum_case(long i, ExpCase& x) {
    auto take = [&](int n) { int v = (int)(i % n); i /= n; return v; };
    x.c = ref::RoeCfg();
    x.c.integer = take(2);
    x.c.type = take(4);
    x.c.empty_first = x.c.type == 3 || (x.c.type == 2 && take(2));
    if (x.c.type == 3) x.c.type = 0;
    x.n_rows = 1 + take(9);
    x.express = take(12);
    x.offset = take(4);
    if (x.c.type == 2) {
        x.c.dwell = {1, 1}; x.c.empty_columns = true; x.c.away = false;
        x.c.n_pumps = 1 + take(9);
        return i == 0;
    }
    x.c.prescan = take(3);
    x.c.overscan = take(14) - 1;
    if (x.c.overscan == 0) x.c.overscan = 14;
    return i == 0;
}
static const long N_ENUM = 2L * 4 * 2 * 9 * 12 * 4 * 42;
static std::string show(const ExpCase& x) {
    return strf("type=%d rows=%d express=%d offset=%d prescan=%d overscan=%d first=%d integer=%d pumps=%d carry=%d", x.c.type, x.n_rows,
                x.express, x.offset, x.c.prescan, x.c.overscan, x.c.empty_first, x.c.integer, x.c.n_pumps, !x.c.empty_columns);
}
static ExpCase gen_exp(Rng& r, long icase) {
    ExpCase x;
    if (enum_case(icase, x)) return x;
    x.c = ref::RoeCfg();
    x.n_rows = r.chance(0.7) ? r.range(1, 60) : r.range(61, 300);
    int t = r.range(0, 9);
    x.c.type = t < 6 ? 0 : t < 8 ? 1 : 2;
    x.offset = r.chance(0.5) ? 0 : r.chance(0.5) ? r.range(1, 20) : r.range(20, 200);
    x.c.integer = r.chance(0.5);
    if (x.c.type == 2) {
        x.c.dwell = {1, 1}; x.c.away = false; x.c.empty_first = r.chance(0.5);
        x.c.n_pumps = r.range(1, x.n_rows); x.n_rows = r.range(1, 5);
        int n = x.c.n_pumps;
        x.express = r.chance(0.2) ? 0 : r.chance(0.3) ? std::max(1, n - r.range(-2, 3)) : r.range(1, n + 3);
        if (r.chance(0.7)) x.offset = 0;
    } else {
        if (x.c.type == 0) x.c.empty_first = r.chance(0.5);
        if (r.chance(0.4)) x.c.prescan = r.range(1, 30);
        int n = x.n_rows + x.offset + x.c.prescan;
        if (r.chance(0.4)) x.c.overscan = r.range(1, n + 10);
        x.c.empty_columns = r.chance(0.5);
        x.express = r.chance(0.2) ? 0 : r.chance(0.3) ? std::max(1, (r.chance(0.5) ? n : x.n_rows) - r.range(-2, 3)) : r.range(1, n + 3);
        if (r.chance(0.4)) x.express = r.range(1, 8);
    }
    return x;
}
// calls the object has seen before leave no trace
static void stale_use(Rng& r, ROE* roe) {
    if (!r.chance(0.3)) return;
    roe->set_express_matrix_from_rows_and_express(r.range(1, 12), r.range(0, 12), r.range(0, 3));
    roe->set_store_trap_states_matrix();
    roe->set_clock_sequence();
}

PROP(C05) {
    for (int rep = 0; rep < 50; rep++) {
        long sub = icase * 50 + rep;
        ExpCase x = gen_exp(r, sub);
        const ref::RoeCfg& c = x.c;
        ctx.desc(show(x));
        std::valarray<double> dwell(c.dwell.data(), c.dwell.size());
        std::unique_ptr<ROE> roe = lib_roe(c, dwell);
        stale_use(r, roe.get());
        roe->set_express_matrix_from_rows_and_express(x.n_rows, x.express, x.offset);
        int P = roe->n_express_passes;
        std::valarray<double>& M = roe->express_matrix;
        ctx.count["matrices"]++;
        if (sub < N_ENUM) ctx.count["matrices_enumerated"]++;
        // transfers by the furthest pixel, and how many one pass stands for
        int n, k;
        bool sep = false;
        if (c.type == 2) n = c.n_pumps + x.offset;
        else if (c.type == 1 && c.overscan >= 0) n = c.prescan + c.overscan - 1;
        else n = c.prescan + x.offset + x.n_rows;
        if (n <= 0 && M.size() == 0) { ctx.count["no_transfers"]++; continue; }   // injection whose overscan leaves no transfer
        if (P < 1 || (size_t)P * x.n_rows != M.size()) {
            ctx.violation("shape", strf("%d passes of %d rows, matrix of %zu entries", P, x.n_rows, M.size()));
            continue;
        }
        int kmax = c.type == 2 ? c.n_pumps : n;
        k = x.express == 0 ? kmax : std::min(x.express, kmax);
        sep = c.type != 1 && c.empty_first && (c.type == 2 ? k < c.n_pumps : k < x.n_rows);
        double q = (double)(sep ? n - 1 : n) / k;
        if (c.integer) q = std::ceil(q);
        if (c.type == 1 && c.integer) q = std::ceil((double)n / k);
        if (q < 1) q = 1;
        double eps = 1e-9 * (n + 1);
        bool bad = false;
        for (size_t e = 0; e < M.size() && !bad; e++) {
            if (!std::isfinite(M[e])) { ctx.violation("finite", strf("multiplier %zu is %g", e, M[e])); bad = true; }
            else if (M[e] < 0) { ctx.violation("negative", strf("multiplier %zu is %g", e, M[e])); bad = true; }
            else if (M[e] > q + eps) { ctx.violation("too-large", strf("multiplier %zu is %.9g, a pass stands for %.9g transfers", e, M[e], q)); bad = true; }
            else if (c.integer && M[e] != std::floor(M[e])) { ctx.violation("integer", strf("multiplier %zu is %.12g", e, M[e])); bad = true; }
        }
        for (int i = 0; i < x.n_rows && !bad; i++) {
            double sum = 0, want = n;
            for (int e = 0; e < P; e++) sum += M[(size_t)e * x.n_rows + i];
            if (c.type == 0) {
                want = i + 1 + x.offset + c.prescan;
                // a pixel at or beyond the start of the overscan makes only the transfers up to it
                if (c.overscan >= 0) want -= std::max(0, i + 2 + x.offset - c.overscan);
                if (want < 0) want = 0;
            }
            if (std::fabs(sum - want) > eps) {
                ctx.violation("sum", strf("row %d: multipliers add up to %.12g, transfers %.12g", i, sum, want)); bad = true;
            }
            if (c.type != 1 && c.empty_first) {
                for (int e = 0; e < P; e++) {
                    double v = M[(size_t)e * x.n_rows + i];
                    if (v == 0) continue;
                    if (v > 1 + eps) { ctx.violation("first-transfer", strf("row %d: the first transfer has weight %.9g", i, v)); bad = true; }
                    break;
                }
            }
        }
        // the number of passes is what was asked for
        if (!bad && (c.type == 1 || !c.empty_first) && P != k) ctx.violation("passes", strf("%d passes, asked for %d", P, k));
        if (!bad && M.max() > 0) ctx.nontrivial(hash_str(show(x)));
        if (rep == 0) ctx.sample(show(x));
    }
}

// ------------------------------------------------------------------------------- C06
PROP(C06) {
    for (int rep = 0; rep < 25; rep++) {
        long sub = icase * 25 + rep;
        ExpCase x = gen_exp(r, sub);
        const ref::RoeCfg& c = x.c;
        ctx.desc(show(x));
        std::valarray<double> dwell(c.dwell.data(), c.dwell.size());
        std::unique_ptr<ROE> roe = lib_roe(c, dwell);
        stale_use(r, roe.get());
        roe->set_express_matrix_from_rows_and_express(x.n_rows, x.express, x.offset);
        roe->set_store_trap_states_matrix();
        int P = roe->n_express_passes, n = x.n_rows;
        const std::valarray<double>& M = roe->express_matrix;
        const std::valarray<bool>& S = roe->store_trap_states_matrix;
        ctx.count["matrices"]++;
        if (S.size() != M.size() || (size_t)P * n != M.size()) {
            ctx.violation("shape", strf("%zu entries for %d passes of %d rows (%zu multipliers)", S.size(), P, n, M.size()));
            continue;
        }
        auto row = [&](int e) {
            std::string t; for (int i = 0; i < n && i < 40; i++) t += strf("%s%.4g%s", i ? "," : "", M[(size_t)e * n + i], S[(size_t)e * n + i] ? "*" : ""); return t;
        };
        bool any = false, bad = false;
        for (int e = 0; e < P && !bad; e++) {
            std::vector<int> at;
            for (int i = 0; i < n; i++) if (S[(size_t)e * n + i]) at.push_back(i);
            any |= !at.empty();
            ctx.count["saves"] += at.size();
            if (c.type == 2) {
                for (int i = 0; i < n; i++) {
                    bool want = e + 1 < P && M[(size_t)e * n + i] != 0;
                    if (S[(size_t)e * n + i] != want) { ctx.violation("pumping", strf("pass %d of %d: %s", e, P, row(e).c_str())); bad = true; break; }
                }
                continue;
            }
            if (c.type == 1 || c.empty_first || e + 1 == P) {
                if (!at.empty()) { ctx.violation("unwanted", strf("pass %d of %d saves: %s", e, P, row(e).c_str())); bad = true; }
                continue;
            }
            if (at.size() != 1) { ctx.violation("count", strf("pass %d of %d saves %zu times: %s, next pass %s", e, P, at.size(), row(e).c_str(), row(e + 1).c_str())); bad = true; break; }
            int f = 0;
            while (f < n && !(M[(size_t)(e + 1) * n + f] > 0)) f++;
            // multipliers that are zero but for rounding: the schedule is not determined
            bool amb = false;
            for (int i = 0; i < n; i++) { double v = M[(size_t)(e + 1) * n + i], w = M[(size_t)e * n + i]; amb |= (v > 0 && v < 1e-9) || (w > 0 && w < 1e-9); }
            if (amb) { ctx.count["rounding_decides"]++; continue; }
            if (f == n) continue;   // the next pass has nothing to transfer
            if (at[0] != std::max(0, f - 1)) { ctx.violation("where", strf("pass %d of %d saves at row %d but the next pass starts at row %d", e, P, at[0], f)); bad = true; }
            // the save must take place: the pass must transfer that pixel
            else if (!(M[(size_t)e * n + at[0]] > 0)) { ctx.violation("skipped", strf("pass %d of %d saves at row %d, which it does not transfer", e, P, at[0])); bad = true; }
            else ctx.count["hand_overs"]++;
        }
        if (any) ctx.nontrivial(hash_str(show(x)));
        if (rep == 0) ctx.sample(show(x));
    }
    // the effect of the schedule: images over several passes agree with the model, which keeps its own schedule
    if (icase % 2 == 0 && icase < 4000) {
        GenOpt o;
        ImgCase c;
        do c = gen_case(r, o, r.chance(0.8) ? 0 : 2); while (c.R < 3);
        if (c.m.roe.type == 0) { c.m.express = r.range(2, c.R); c.m.roe.empty_first = r.chance(0.15); }
        else c.m.roe.n_pumps = r.range(2, 8), c.m.express = r.range(0, c.m.roe.n_pumps);
        ctx.desc(show_case(c));
        ctx.count["images"]++;
        if (judge_model(ctx, c, 1, "image")) { ctx.nontrivial(hash_case(c)); ctx.count["images_judged"]++; }
    }
}

// ------------------------------------------------------------------------------- C07
PROP(C07) {
    // every number of phases for each kind of readout, the objects having been used before or not
    int P = icase < 96 ? 1 + (int)(icase / 4 % 24) : r.range(1, 40);
    ref::RoeCfg c;
    c.type = icase < 96 ? (icase % 4 == 3 ? 2 : icase % 2) : r.range(0, 2);
    c.away = icase < 96 ? icase % 4 < 2 : r.chance(0.5);
    if (c.type == 2) c.away = false;
    int S = c.type == 2 ? 2 * P : P;
    c.dwell.assign(S, 1.0);
    for (auto& d : c.dwell) d = r.uni(0.1, 2);
    std::valarray<double> dwell(c.dwell.data(), c.dwell.size());
    std::unique_ptr<ROE> roe = lib_roe(c, dwell);
    if (c.type == 2 && r.chance(0.3)) { roe->force_release_away_from_readout = true; c.away = true; }
    int uses = r.range(1, 3);
    for (int u = 0; u < uses; u++) {
        stale_use(r, roe.get());
        roe->set_clock_sequence();
    }
    std::string d = strf("type=%d phases=%d steps=%d away=%d", c.type, P, S, c.away);
    ctx.desc(d);
    if (roe->n_phases != P || roe->n_steps != S || (int)roe->clock_sequence.size() != S) {
        ctx.violation("size", strf("%d phases, %d steps, sequence of %zu", roe->n_phases, roe->n_steps, roe->clock_sequence.size()));
        return;
    }
    std::vector<std::vector<ref::StepPhase>> want = ref::clock_sequence(c);
    auto norm = [](const std::valarray<int>& px, const std::valarray<double>& sh) {
        std::map<int, double> m; for (size_t i = 0; i < px.size(); i++) m[px[i]] += i < sh.size() ? sh[i] : 1e9; return m;
    };
    int prev_high = -1;
    for (int s = 0; s < S; s++) {
        if ((int)roe->clock_sequence[s].size() != P) { ctx.violation("size", strf("step %d has %zu phases", s, roe->clock_sequence[s].size())); return; }
        int high = 0, i_high = -1;
        for (int i = 0; i < P; i++) {
            ROEStepPhase& q = roe->clock_sequence[s][i];
            ref::StepPhase& w = want[s][i];
            std::string where = strf("step %d phase %d", s, i);
            ctx.count["step_phases"]++;
            if ((int)q.capture_from_which_pixels.size() != q.n_capture_pixels || (int)q.release_to_which_pixels.size() != q.n_release_pixels ||
                q.release_fraction_to_pixels.size() != q.release_to_which_pixels.size() || q.n_release_pixels < 1) {
                ctx.violation("lists", strf("%s: capture %zu (%d) release %zu (%d) shares %zu", where.c_str(), q.capture_from_which_pixels.size(),
                              q.n_capture_pixels, q.release_to_which_pixels.size(), q.n_release_pixels, q.release_fraction_to_pixels.size()));
                return;
            }
            if (q.is_high) { high++; i_high = i; }
            if (q.n_capture_pixels != (q.is_high ? 1 : 0)) ctx.violation("capture", strf("%s (high=%d) captures from %d pixels", where.c_str(), q.is_high, q.n_capture_pixels));
            double sum = 0;
            for (int j = 0; j < q.n_release_pixels; j++) {
                sum += q.release_fraction_to_pixels[j];
                if (c.away && q.release_to_which_pixels[j] < 0) ctx.violation("towards", strf("%s releases to pixel %d", where.c_str(), q.release_to_which_pixels[j]));
            }
            if (c.away && q.n_capture_pixels && q.capture_from_which_pixels.min() < 0) ctx.violation("towards", strf("%s captures from %d", where.c_str(), q.capture_from_which_pixels.min()));
            if (std::fabs(sum - 1) > 1e-12) ctx.violation("shares", strf("%s: shares add to %.12g", where.c_str(), sum));
            // against the geometry
            if (q.is_high != w.high) ctx.violation("high", strf("%s: high %d, expected %d", where.c_str(), q.is_high, w.high));
            else if (q.is_high && q.capture_from_which_pixels[0] != w.from[0]) ctx.violation("capture-pixel", strf("%s captures from %d, expected %d", where.c_str(), q.capture_from_which_pixels[0], w.from[0]));
            std::map<int, double> a = norm(q.release_to_which_pixels, q.release_fraction_to_pixels), b;
            for (size_t j = 0; j < w.to.size(); j++) b[w.to[j]] += w.share[j];
            bool eq = a.size() == b.size();
            for (auto& kv : b) eq = eq && a.count(kv.first) && std::fabs(a[kv.first] - kv.second) < 1e-12;
            if (!eq) {
                std::string t; for (auto& kv : a) t += strf(" %d:%g", kv.first, kv.second);
                t += " expected"; for (auto& kv : b) t += strf(" %d:%g", kv.first, kv.second);
                ctx.violation("release", where + " releases to" + t);
            }
            if (q.n_release_pixels == 2) ctx.count["split_releases"]++;
        }
        if (high != 1) ctx.violation("one-high", strf("step %d: %d phases are high", s, high));
        // the cloud moves by one phase from step to step
        if (prev_high >= 0 && P > 1 && i_high >= 0) {
            int dlt = ((i_high - prev_high) % P + P) % P;
            if (dlt != 1 && dlt != P - 1) ctx.violation("jump", strf("step %d: the cloud moves from phase %d to %d", s, prev_high, i_high));
        }
        prev_high = i_high;
    }
    // a pumping sequence goes out and comes back: step s and step S-s are the same
    if (c.type == 2)
        for (int s = 1; s < S; s++)
            for (int i = 0; i < P; i++) {
                ROEStepPhase &a = roe->clock_sequence[s][i], &b = roe->clock_sequence[S - s][i];
                if (a.is_high != b.is_high || norm(a.release_to_which_pixels, a.release_fraction_to_pixels) != norm(b.release_to_which_pixels, b.release_fraction_to_pixels) ||
                    a.n_capture_pixels != b.n_capture_pixels || (a.n_capture_pixels && a.capture_from_which_pixels[0] != b.capture_from_which_pixels[0]))
                    ctx.violation("symmetry", strf("steps %d and %d differ in phase %d", s, S - s, i));
                ctx.count["mirrored"]++;
            }
    ctx.nontrivial(hash_str(d + strf(" uses=%d", uses)));
    ctx.sample(d);
    // and its effect on images
    if (icase % 2 == 0) {
        GenOpt o; o.max_phases = 7;
        ImgCase k;
        do k = gen_case(r, o, -2); while (k.m.roe.n_phases() < 2);
        ctx.desc(show_case(k));
        ctx.count["images"]++;
        if (judge_model(ctx, k, 1, "image")) { ctx.nontrivial(hash_case(k)); ctx.count["images_judged"]++; }
    }
}

// ------------------------------------------------------------------------------- C23
// Runs fn in a child; what: 'r' it returned an image, 'e' exception, 'x' exit status 1 with a message,
// 'f' it returned something non-finite, '?' anything else
static char in_child(const std::function<bool()>& fn, std::string& msg) {
    int po[2], pe[2];
    if (pipe(po) || pipe(pe)) return '?';
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(pe[1], 2); close(pe[0]); close(po[0]);
        int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 1);
        char c = '?';
        try { c = fn() ? 'r' : 'f'; }
        catch (std::exception& ex) { c = 'e'; fprintf(stderr, "%s\n", ex.what()); }
        (void)!write(po[1], &c, 1);
        fflush(stderr);
        _exit(c == 'e' ? 1 : 0);
    }
    close(po[1]); close(pe[1]);
    char c = 0; std::string e; char b[512]; ssize_t k;
    while ((k = read(pe[0], b, sizeof b)) > 0) if (e.size() < 4000) e.append(b, k);
    bool got = read(po[0], &c, 1) == 1;
    close(po[0]); close(pe[0]);
    int st = 0; waitpid(pid, &st, 0);
    msg = e;
    if (got) return c;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !e.empty()) return 'x';
    msg += WIFSIGNALED(st) ? strf(" (signal %d)", WTERMSIG(st)) : strf(" (status %d)", WEXITSTATUS(st));
    return '?';
}

PROP(C23) {
    GenOpt o; o.p_kind[2] = o.p_kind[3] = 0.02; o.max_rows = 8;
    ImgCase c = gen_case(r, o, -2);
    int how = r.range(0, 9);
    // 0-2 and 9: nothing wrong
    int fr = -1; bool serial = r.chance(0.4), rem = r.chance(0.3);
    std::string what;
    bool valid = false;
    int extra_phases = 0;
    ref::RoeCfg& q = c.m.roe;
    switch (how) {
        case 3: if (q.type == 2) { q.type = 0; q.dwell.resize(q.n_steps() / 2); q.away = true; } q.prescan = -r.range(1, 50); what = "negative prescan"; break;
        case 4: if (q.type == 2) { q.type = 0; q.dwell.resize(q.n_steps() / 2); q.away = true; } q.overscan = r.chance(0.4) ? 0 : -r.range(2, 30); what = "overscan start not positive"; break;
        case 5: q.type = 2; q.dwell.assign(2 * r.range(0, 4) + 1, 1.0); q.n_pumps = std::max(1, q.n_pumps); q.overscan = -1; q.prescan = 0; what = "odd pumping steps"; break;
        case 6: extra_phases = r.chance(0.5) && c.m.wells.size() > 1 ? -r.range(1, (int)c.m.wells.size() - 1) : r.range(1, 3); what = "phases of CCD and readout differ"; break;
        case 7: fr = r.range(0, 5); if (fr == (int)c.m.wells.size()) fr++; what = "trap fractions do not match the phases"; break;
        case 8: if (q.type != 2) { int P = q.n_phases(); q.type = 2; q.dwell.resize(2 * P, q.dwell[0]); q.away = false; q.empty_columns = true; q.n_pumps = r.range(1, 5); q.overscan = -1; q.prescan = 0; }
                if (c.R < 2) { c.R = 2; c.im.push_back(c.im[0]); }
                c.m.r0 = r.range(0, c.R - 2); c.m.r1 = r.range(c.m.r0 + 2, c.R); if (r.chance(0.3)) { c.m.r0 = 0; c.m.r1 = -1; }
                what = "pumping more than one row"; break;
        default: valid = true; what = "valid";
    }
    ctx.desc(what + ": " + show_case(c) + strf(" fractions=%d extra=%d serial=%d remove=%d", fr, extra_phases, serial, rem));
    ctx.count[what]++;
    std::string msg;
    auto go = [&]() -> bool {
        std::valarray<double> dwell(q.dwell.data(), q.dwell.size());
        auto L = std::make_shared<LibModel>();
        ref::Model good = c.m;
        good.roe = ref::RoeCfg(); good.roe.dwell.assign(c.m.wells.size(), 1.0);
        L = lib_model(good);
        L->express = c.m.express;
        L->dwell.resize(dwell.size()); L->dwell = dwell;
        if (q.prescan < 0 || (q.overscan <= 0 && q.overscan != -1)) {
            // only the constructor is called: it must refuse
        }
        L->roe = lib_roe(q, L->dwell);
        std::vector<ref::Well> ws = c.m.wells;
        for (int i = 0; i < extra_phases; i++) ws.push_back(ws[0]);
        for (int i = 0; i > extra_phases; i--) ws.pop_back();
        std::valarray<CCDPhase> ph(ws.size());
        for (size_t i = 0; i < ws.size(); i++) ph[i] = CCDPhase(ws[i].full, ws[i].notch, ws[i].power, ws[i].fef);
        int nf = fr >= 0 ? fr : (int)ws.size();
        std::valarray<double> f(nf ? 1.0 / nf : 0.0, nf);
        L->ccd.reset(new CCD(ph, f));
        ref::Img im = serial ? transposed(c.im) : c.im;
        ref::Img out = rem ? run_remove(im, 2, serial ? nullptr : L.get(), serial ? L.get() : nullptr)
                           : run_add(im, serial ? nullptr : L.get(), serial ? L.get() : nullptr);
        return all_finite(out) && out.size() == im.size();
    };
    char g = in_child(go, msg);
    ctx.count[strf("outcome_%c", g)]++;
    if (valid && g != 'r') ctx.violation("valid-rejected", strf("outcome %c for a valid configuration: %s", g, msg.c_str()));
    if (!valid && g != 'e' && g != 'x') ctx.violation("invalid-accepted", strf("%s: outcome %c: %s", what.c_str(), g, msg.c_str()));
    ctx.nontrivial(hash_str(ctx.cur_desc));
    ctx.sample(ctx.cur_desc.substr(0, 400));
}
