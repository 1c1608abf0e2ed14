// Properties of one population of traps meeting a history of clouds: C01 C02 C03 C15(part) and
// the scalar functions C17 C18.
#include "props.hpp"

namespace {
template <class M> struct Adapt;
template <> struct Adapt<TrapManagerInstantCapture> {
    static const int kind = ref::IC;
    static TrapManagerInstantCapture make(const std::vector<ref::Species>& s, int n, CCDPhase p, double d) {
        std::vector<TrapInstantCapture> v; for (auto& x : s) v.push_back(lib_ic(x));
        return TrapManagerInstantCapture(to_va(v), n, p, d);
    }
    static void attach(TrapManagerInstantCapture&, std::vector<ref::Species>&, bool) {}
};
template <> struct Adapt<TrapManagerSlowCapture> {
    static const int kind = ref::SC;
    static TrapManagerSlowCapture make(const std::vector<ref::Species>& s, int n, CCDPhase p, double d) {
        std::vector<TrapSlowCapture> v; for (auto& x : s) v.push_back(lib_sc(x));
        return TrapManagerSlowCapture(to_va(v), n, p, d);
    }
    static void attach(TrapManagerSlowCapture&, std::vector<ref::Species>&, bool) {}
};
template <> struct Adapt<TrapManagerInstantCaptureContinuum> {
    static const int kind = ref::ICCO;
    static TrapManagerInstantCaptureContinuum make(const std::vector<ref::Species>& s, int n, CCDPhase p, double d) {
        std::vector<TrapInstantCaptureContinuum> v; for (auto& x : s) v.push_back(lib_icco(x));
        return TrapManagerInstantCaptureContinuum(to_va(v), n, p, d);
    }
    static void attach(TrapManagerInstantCaptureContinuum& m, std::vector<ref::Species>& s, bool own_tables) {
        for (size_t i = 0; i < s.size(); i++) {
            auto t = std::make_shared<TrapInstantCaptureContinuum>(own_tables ? lib_icco(s[i]) : m.traps[i]);
            if (own_tables) t->prep_fill_fraction_and_time_elapsed_tables(m.time_min, m.time_max, m.n_intp);
            s[i].F = [t](double x) { return t->fill_fraction_from_time_elapsed_table(x); };
            s[i].T = [t](double f) { return t->time_elapsed_from_fill_fraction_table(f); };
        }
    }
};
template <> struct Adapt<TrapManagerSlowCaptureContinuum> {
    static const int kind = ref::SCCO;
    static TrapManagerSlowCaptureContinuum make(const std::vector<ref::Species>& s, int n, CCDPhase p, double d) {
        std::vector<TrapSlowCaptureContinuum> v; for (auto& x : s) v.push_back(lib_scco(x));
        return TrapManagerSlowCaptureContinuum(to_va(v), n, p, d);
    }
    static void attach(TrapManagerSlowCaptureContinuum& m, std::vector<ref::Species>& s, bool own_tables) {
        for (size_t i = 0; i < s.size(); i++) {
            auto t = std::make_shared<TrapSlowCaptureContinuum>(own_tables ? lib_scco(s[i]) : m.traps[i]);
            if (own_tables) {
                t->prep_fill_fraction_and_time_elapsed_tables(m.time_min, m.time_max, m.n_intp);
                t->prep_fill_fraction_after_slow_capture_tables(m.dwell_time, m.time_min, m.time_max, m.n_intp);
            }
            s[i].F = [t](double x) { return t->fill_fraction_from_time_elapsed_table(x); };
            s[i].T = [t](double f) { return t->time_elapsed_from_fill_fraction_table(f); };
            s[i].Fcap = [t](double x) { return t->fill_fraction_after_slow_capture_table(x); };
        }
    }
};

// the occupancy recorded by a trap manager
struct View {
    std::vector<double> vol; std::vector<std::vector<double>> fill;
    double total_vol() const { double s = 0; for (double v : vol) s += v; return s; }
    double fill_at(int s, double v) const {
        double hi = 0;
        for (size_t i = 0; i < vol.size(); i++) { hi += vol[i]; if (v < hi) return fill[i][s]; }
        return 0;
    }
    double held(const std::vector<ref::Species>& sp) const {
        double t = 0, lo = 0;
        for (size_t i = 0; i < vol.size(); i++) {
            double hi = lo + vol[i];
            for (size_t s = 0; s < sp.size(); s++)
                t += fill[i][s] * (sp[s].full > 0 ? sp[s].E(hi) - sp[s].E(lo) : vol[i]);
            lo = hi;
        }
        return t;
    }
};
template <class M> View view(M& m) {
    View v;
    for (int i = m.i_first_active_wmk; i < m.i_first_active_wmk + m.n_active_watermarks; i++) {
        v.vol.push_back(m.watermark_volumes[i]);
        v.fill.emplace_back();
        for (int s = 0; s < m.n_traps; s++) v.fill.back().push_back(m.watermark_fills[i * m.n_traps + s]);
    }
    return v;
}

struct Hist {  // one operation of a history
    char op; double n;  // 'c' cloud, 's' store, 'r' restore, 'x' reset, 'p' prune
};
std::string show_hist(const std::vector<Hist>& h) {
    std::string s;
    for (auto& e : h) s += e.op == 'c' ? strf(" %.9g", e.n) : e.op == 'p' ? strf(" prune(%.3g)", e.n) : strf(" %s", e.op == 's' ? "store" : e.op == 'r' ? "restore" : "reset");
    return s;
}

double gen_cloud(Rng& r, const ref::Well& w, double last, double rho_tot, int mode) {
    switch (mode) {
        case 0:  // wander over decades
            return r.chance(0.15) ? 0 : w.full * r.loguni(1e-7, 1.3);
        case 1:  // falling
            return last * r.uni(0.3, 1);
        case 2:  // rising
            return std::max(last, w.full * 1e-4) * r.uni(1, 2.2);
        case 3:  // tiny: too few electrons to fill the traps
            return r.chance(0.2) ? w.full * r.loguni(1e-3, 1) : w.notch + std::min(rho_tot, w.full) * r.loguni(1e-9, 0.3);
        case 4:  // peaks and nothing
            return r.chance(0.25) ? w.full * r.uni(0.05, 1.1) : 0;
        case 5:  // just at the bottom, or at the same height again, where heights differ by rounding
            return r.chance(0.3) ? last : r.chance(0.3) ? last * r.uni(1 - 1e-15, 1 + 1e-15) : w.notch + w.full * r.loguni(1e-22, 1e-6);
        default:
            return r.chance(0.5) ? w.notch * r.uni(0, 2) : w.full * r.u();
    }
}

enum What { CONSERVE, PHYSICAL, PHYSICS, PRUNE };

// Drives one trap manager and the reference with the same history, and judges each step.
template <class M>
void drive(Ctx& ctx, Rng& r, What what, bool allow_prune) {
    const int kind = Adapt<M>::kind;
    GenOpt o; o.dens_lo = 0.05; o.dens_hi = 100; o.surface = kind == ref::IC;
    ref::Well w = gen_well(r, o);
    if (kind == ref::ICCO || kind == ref::SCCO) { if (r.chance(0.7)) w.fef = 0; }
    double dwell = r.chance(0.5) ? 1.0 : r.loguni(0.01, 100);
    int n_sp = kind >= 2 ? r.range(1, 2) : r.range(1, 3);
    std::vector<ref::Species> sp;
    for (int i = 0; i < n_sp; i++) sp.push_back(i && r.chance(0.35) ? gen_relative(r, kind, o, dwell, sp.back()) : gen_species(r, kind, o, dwell));
    double rho = 0; for (auto& s : sp) rho += s.density;
    int n_ops = r.range(4, kind >= 2 ? 40 : 60);
    const bool regular = allow_prune && r.chance(0.2);   // pruned as a readout is
    if (regular) { n_ops *= 3; if (r.chance(0.5)) { w.fef = r.loguni(1e-3, 0.3); if (r.chance(0.5)) w.notch = 0; } }
    CCDPhase phase(w.full, w.notch, w.power, w.fef);
    M m = Adapt<M>::make(sp, n_ops, phase, dwell);
    m.setup();
    Adapt<M>::attach(m, sp, n_sp > 1 || r.chance(0.25));   // tables of each species alone, or the manager's
    ref::Traps T; T.kind = (ref::Kind)kind; T.well = w; T.dwell = dwell; T.sp = sp;
    std::string head = show_well(w) + strf(" dwell=%.5g", dwell);
    for (auto& s : sp) head += " " + show_species(kind, s);
    std::vector<Hist> H;
    double last = w.full * r.u(), biggest = 0, stored_biggest = 0;
    double vtol = 1e-12, ftol = 1e-9 * rho;
    const char* kn[4] = {"ic", "sc", "icco", "scco"};
    std::string K = kn[kind];
    int mode = r.range(0, 6), n_not_enough = 0, n_clouds = 0; double moved = 0;
    size_t max_seg = 0; bool pruned = false;
    double max_hold = 0; for (auto& s : sp) max_hold += s.density * s.E(1);
    // magnitude below which differences are rounding
    for (int k = 0; k < n_ops; k++) {
        if (r.chance(0.1)) mode = r.range(0, 6);
        Hist h{'c', 0};
        double x = r.u();
        if (x < 0.04) h.op = 's';
        else if (x < 0.08) h.op = 'r';
        else if (x < 0.10) h.op = 'x';
        else if (regular ? k % 20 == 19 : allow_prune && x < 0.22) {
            h.op = 'p'; h.n = regular || r.chance(0.4) ? 1e-10 : r.chance(0.1) ? 0 : max_hold * r.loguni(1e-8, 0.3);
            if (!regular && r.chance(0.25)) h.n = -h.n;   // what would be released next decides
        }
        if (h.op == 'c') { h.n = gen_cloud(r, w, last, rho, mode); last = h.n; }
        H.push_back(h);
        View before = view(m);
        if (h.op == 's') { m.store_trap_states(); T.store(); stored_biggest = biggest; continue; }
        if (h.op == 'r') {
            m.restore_trap_states(); T.restore(); biggest = stored_biggest;
            if (what == PHYSICAL || what == PHYSICS) {
                View v = view(m);
                for (auto& g : T.segs) (void)g;
                if (std::fabs(v.held(sp) - (pruned ? v.held(sp) : T.held())) > ftol)
                    ctx.violation(K + ":restore", strf("restored state holds %.12g, the stored state held %.12g", v.held(sp), T.held()));
            }
            continue;
        }
        if (h.op == 'x') {
            m.reset_trap_states(); T.reset(); biggest = 0;
            if (what == PHYSICAL && (view(m).held(sp) != 0 || m.n_active_watermarks != 0 || m.n_trapped_electrons_total() != 0))
                ctx.violation(K + ":reset", "reset traps still hold electrons");
            if (what == PHYSICAL) {  // an empty set of traps releases nothing to an empty pixel
                double y = w.fef > 0 ? 0 : m.n_electrons_released_and_captured(0.0);
                if (y != 0) ctx.violation(K + ":reset-release", strf("reset traps released %.12g", y));
                m.reset_trap_states();
            }
            continue;
        }
        if (h.op == 'p') {
            m.prune_watermarks(h.n);
            View after = view(m);
            pruned = true;
            ctx.count["prunes"]++;
            if (after.vol.size() < before.vol.size()) ctx.count["regions_merged"] += before.vol.size() - after.vol.size();
            if (what == PRUNE) {
                ctx.desc(head + " | " + show_hist(H));
                if (after.vol.size() > before.vol.size())
                    ctx.violation(K + ":prune-count", strf("pruning grew the number of regions from %zu to %zu", before.vol.size(), after.vol.size()));
                double a = 0, b = 0;
                bool bad = false;
                for (size_t i = 0; i < before.vol.size(); i++) for (double f : before.fill[i]) b += f * before.vol[i];
                for (size_t i = 0; i < after.vol.size(); i++)
                    for (double f : after.fill[i]) {
                        a += f * after.vol[i];
                        if (!std::isfinite(f) || !(after.vol[i] >= -vtol)) bad = true;
                    }
                double merged = (double)before.vol.size() - (double)after.vol.size();
                double tol = 1e-9 * (b + 1e-300) + 1e-13 * rho;
                if (bad || !(std::fabs(a - b) <= tol))
                    ctx.violation(K + ":prune-conserve", strf("pruning at %.3g (%g regions merged) changed the trapped total from %.12g to %.12g%s", h.n, merged, b, a, bad ? ", with an invalid region" : ""));
                // regions at or above the threshold are left alone; those below it are merged wherever they fit
                auto in = [&](const View& v, size_t i) { double n = 0; for (double f : v.fill[i]) n += f * v.vol[i]; return n; };
                auto judged = [&](const View& v, size_t i) {
                    if (h.n > 0) return in(v, i);
                    double n = 0; for (size_t s = 0; s < sp.size(); s++) n += (v.fill[i][s] - T.release_one(s, v.fill[i][s])) * v.vol[i];
                    return n;
                };
                const double thr = std::fabs(h.n);
                auto slack = [&](const View& v, size_t i) { return 1e-9 * in(v, i) + (h.n <= 0 && kind >= 2 ? 1e-3 * rho * v.vol[i] : 0); };
                bool all_above = true;
                for (size_t i = 1; i < before.vol.size(); i++) if (!(judged(before, i) > thr + slack(before, i))) all_above = false;
                if (all_above && before.vol.size() > 1) {
                    ctx.count["prunes_leaving_all"]++;
                    if (before.vol != after.vol || before.fill != after.fill)
                        ctx.violation(K + ":prune-above", strf("pruning at %.3g changed regions that all lie above it", h.n));
                }
                if (before.vol.size() > 1 && in(before, 0) > 0)
                    for (size_t i = 1; i < after.vol.size(); i++) {
                        double n = in(after, i), below = in(after, i - 1);
                        if (!(judged(after, i) < thr - slack(after, i))) continue;
                        ctx.count["small_regions_kept"]++;
                        if (n == 0 || (below > 0 && after.vol[i - 1] * n / below < after.vol[i] * (1 - 1e-9) - 1e-15))
                            ctx.violation(K + ":prune-below", strf("pruning at %.3g kept region %zu with %.6g electrons (%.6g decides)", h.n, i, n, judged(after, i)));
                    }
                if (h.n < 0) ctx.count["prunes_by_release"]++;
            }
            // follow the pruned state in the reference
            T.segs.clear(); double hi = 0;
            for (size_t i = 0; i < after.vol.size(); i++) {
                hi += after.vol[i];
                ref::Seg g; g.hi = hi; g.f = after.fill[i]; T.segs.push_back(g);
            }
            continue;
        }
        // a cloud
        double held0 = before.held(sp);
        double ref_held0 = T.held();
        double x_ref = T.interact(h.n);
        double x_lib = m.n_electrons_released_and_captured(h.n);
        View after = view(m);
        double held1 = after.held(sp);
        n_clouds++; moved += std::fabs(x_lib); n_not_enough += T.not_enough;
        max_seg = std::max(max_seg, T.segs.size());
        biggest = std::max(biggest, w.volume(std::max(h.n, h.n + T.last_released)));
        ctx.count["clouds"]++;
        double mag = std::max(held0, held1) + h.n * 1e-3;
        if (what == CONSERVE || (what == PRUNE && pruned)) {
            double tol = 1e-10 * (std::max(held0, held1)) + 1e-12 * rho + 1e-15 * h.n;
            std::string tag = what == PRUNE ? ":after-prune" : ":conserve";
            if (!std::isfinite(x_lib) || !std::isfinite(held1)) {
                ctx.desc(head + " | " + show_hist(H));
                ctx.violation(K + tag + "-nan", strf("op %d: returned %.6g, traps hold %.6g", k, x_lib, held1)); return; }
            if (std::fabs((held0 - held1) - x_lib) > tol) {
                ctx.desc(head + " | " + show_hist(H));
                ctx.violation(K + tag, strf("op %d: cloud of %.12g changed by %+.12g but traps went from %.12g to %.12g (imbalance %.3g)", k, h.n, x_lib, held0, held1, held0 - held1 - x_lib));
                return; }
            // (the integrals of continuum traps have a relative tolerance of 1e-9)
            if (what == CONSERVE && h.n + x_lib < -((kind == ref::ICCO || kind == ref::SCCO ? 1e-9 : 1e-12) * (rho + h.n))) {
                ctx.desc(head + " | " + show_hist(H));
                ctx.violation(K + ":overdraw", strf("op %d: cloud of %.12g left with %.12g", k, h.n, h.n + x_lib)); return; }
        }
        if (what == PHYSICAL) {
            ctx.desc(head + " | " + show_hist(H));
            bool stop = false;
            for (size_t i = 0; i < after.vol.size() && !stop; i++) {
                if (!(after.vol[i] >= -vtol)) { ctx.violation(K + ":volume", strf("op %d: region %zu has extent %.6g", k, i, after.vol[i])); stop = true; }
                for (size_t s = 0; s < sp.size() && !stop; s++)
                    if (!(after.fill[i][s] >= -1e-12 * sp[s].density && after.fill[i][s] <= sp[s].density * (1 + 1e-9))) {
                        ctx.violation(K + ":fill", strf("op %d: region %zu species %zu filled to %.9g of %.9g", k, i, s, after.fill[i][s], sp[s].density)); stop = true; }
            }
            if (!stop && !(after.total_vol() <= 1 + 1e-9)) { ctx.violation(K + ":extent", strf("op %d: regions cover %.12g of the pixel", k, after.total_vol())); stop = true; }
            if (!stop && !(after.total_vol() <= biggest + 1e-9)) { ctx.violation(K + ":extent-cloud", strf("op %d: regions cover %.12g but the largest cloud covered %.12g", k, after.total_vol(), biggest)); stop = true; }
            if (!stop && (m.i_first_active_wmk < 0 || m.n_active_watermarks < 0 || m.i_first_active_wmk + m.n_active_watermarks > m.n_watermarks)) {
                ctx.violation(K + ":capacity", strf("op %d: regions %d+%d of %d", k, m.i_first_active_wmk, m.n_active_watermarks, m.n_watermarks)); stop = true; }
            if (!stop && kind != ref::IC) {
                double t = m.n_trapped_electrons_total();
                if (!(std::fabs(t - held1) <= 1e-9 * held1 + 1e-12 * rho)) { ctx.violation(K + ":total", strf("op %d: reported total %.12g, regions hold %.12g", k, t, held1)); stop = true; }
            }
            if (stop) return;
        }
        if (what == PHYSICS) {
            double tol = 1e-8 * (std::max(ref_held0, T.held())) + 1e-10 * rho + 1e-14 * h.n;
            if (!(std::fabs(x_lib - x_ref) <= tol)) {
                ctx.desc(head + " | " + show_hist(H));
                ctx.violation(K + ":exchange", strf("op %d: cloud of %.12g changed by %+.12g, the model gives %+.12g (held %.9g)", k, h.n, x_lib, x_ref, ref_held0));
                return; }
            // occupancy as a function of depth, at points away from boundaries
            std::vector<double> cuts = {0}; double hi = 0;
            for (double v : after.vol) { hi += v; cuts.push_back(hi); }
            for (auto& g : T.segs) cuts.push_back(g.hi);
            cuts.push_back(1.0);
            std::sort(cuts.begin(), cuts.end());
            for (size_t i = 0; i + 1 < cuts.size(); i++) {
                if (cuts[i + 1] - cuts[i] < 1e-9) continue;
                double v = 0.5 * (cuts[i] + cuts[i + 1]);
                for (size_t s = 0; s < sp.size(); s++) {
                    double a = after.fill_at(s, v), b = T.fill_at(s, v);
                    if (!(std::fabs(a - b) <= 1e-7 * sp[s].density)) {
                        ctx.desc(head + " | " + show_hist(H));
                        ctx.violation(K + ":occupancy", strf("op %d: at depth %.9g species %zu filled to %.12g, the model gives %.12g", k, v, s, a, b));
                        return; }
                }
            }
        }
        (void)mag;
    }
    ctx.count["histories"]++;
    ctx.count["not_enough_captures"] += n_not_enough;
    ctx.count["max_regions"] = std::max<unsigned long long>(ctx.count["max_regions"], max_seg);
    ctx.count[K + "_histories"]++;
    std::string full = head + " | " + show_hist(H);
    if (moved > 0 && n_clouds >= 3 && (what != PRUNE || pruned)) ctx.nontrivial(hash_str(full));
    ctx.sample(full.substr(0, 400));
}

// Continuous distributions of a narrow spread meet a history as single release times do.
template <class M, class S>
void narrow(Ctx& ctx, ref::Well w, ref::Species a, double dwell, const std::vector<double>& clouds, const std::string& key) {
    CCDPhase phase(w.full, w.notch, w.power, w.fef);
    ref::Species b = a; b.sigma = 0;
    M m = Adapt<M>::make({a}, (int)clouds.size(), phase, dwell);
    S s = Adapt<S>::make({b}, (int)clouds.size(), phase, dwell);
    m.setup(); s.setup();
    std::string d = show_well(w) + strf(" dwell=%.5g transfers=%zu ", dwell, clouds.size()) + show_species(Adapt<M>::kind, a) + " |";
    for (double c : clouds) d += strf(" %.6g", c);
    ctx.desc(d);
    for (size_t k = 0; k < clouds.size(); k++) {
        double x = m.n_electrons_released_and_captured(clouds[k]), y = s.n_electrons_released_and_captured(clouds[k]);
        ctx.count["narrow_clouds"]++;
        if (!(std::fabs(x - y) <= 0.0015 * a.density * a.E(1))) {
            ctx.violation(key, strf("op %zu: cloud of %.9g changed by %+.9g; with a single release time, by %+.9g (%.4g traps)", k, clouds[k], x, y, a.density));
            return;
        }
    }
    ctx.count["narrow_histories"]++;
}
void narrow_any(Ctx& ctx, Rng& r) {
    GenOpt o; o.dens_lo = 0.05; o.dens_hi = 100; o.surface = false;
    ref::Well w = gen_well(r, o);
    w.fef = 0;
    double dwell = r.chance(0.5) ? 1.0 : r.loguni(0.01, 100);
    int n = r.range(30, 150), kind = r.chance(0.5) ? ref::ICCO : ref::SCCO;
    ref::Species s = gen_species(r, kind, o, dwell);
    s.sigma = r.loguni(0.003, 0.02);
    s.tau = dwell * r.loguni(0.5, n / 25.0);   // so that the tables reach empty traps
    if (kind == ref::SCCO) s.tauc = dwell * r.loguni(0.05, 10);
    int mode = r.range(0, 6); double last = w.full * r.u();
    std::vector<double> c;
    for (int k = 0; k < n; k++) { if (r.chance(0.1)) mode = r.range(0, 6); last = gen_cloud(r, w, last, s.density, mode); c.push_back(last); }
    if (kind == ref::ICCO) narrow<TrapManagerInstantCaptureContinuum, TrapManagerInstantCapture>(ctx, w, s, dwell, c, "icco:narrow");
    else narrow<TrapManagerSlowCaptureContinuum, TrapManagerSlowCapture>(ctx, w, s, dwell, c, "scco:narrow");
    ctx.nontrivial(hash_str(ctx.cur_desc));
}

void drive_any(Ctx& ctx, Rng& r, What what, bool prune) {
    double x = r.u();
    if (x < 0.42) drive<TrapManagerInstantCapture>(ctx, r, what, prune);
    else if (x < 0.84) drive<TrapManagerSlowCapture>(ctx, r, what, prune);
    else if (x < 0.93) drive<TrapManagerInstantCaptureContinuum>(ctx, r, what, prune);
    else drive<TrapManagerSlowCaptureContinuum>(ctx, r, what, prune);
}
}  // namespace

PROP(C01) { (void)icase; drive_any(ctx, r, CONSERVE, false); }
PROP(C02) { (void)icase; drive_any(ctx, r, PHYSICAL, false); }
PROP(C03) {
    if (icase == 0) {   // partly filled traps whose release lasts longer than the readout that the tables cover
        ref::Well w{1e4, 0, 1, 0}; ref::Species s; s.density = 100; s.tau = 100; s.sigma = 0.01; s.tauc = 1;
        narrow<TrapManagerSlowCaptureContinuum, TrapManagerSlowCapture>(ctx, w, s, 1.0, {1e4, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "scco:narrow-beyond-the-tables");
    }
    if (icase == 1) {   // traps partly filled by a cloud with too few electrons, to more than is left after a dwell time
        ref::Well w{100, 40, 0.3, 0}; ref::Species s; s.density = 100; s.tau = 2; s.sigma = 0.01;
        narrow<TrapManagerInstantCaptureContinuum, TrapManagerInstantCapture>(ctx, w, s, 1.0, {72, 0, 0, 0, 0, 0, 0, 0, 0, 0}, "icco:narrow-before-the-tables");
    }
    if (r.chance(0.01)) { narrow_any(ctx, r); return; }
    drive_any(ctx, r, PHYSICS, false);
}
PROP(C15) { (void)icase; drive_any(ctx, r, PRUNE, true); }
