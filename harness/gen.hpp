// Random models and images, and their conversion to the library's objects.
#pragma once
#include <memory>
#include <string>
#include <valarray>

#include "cti.hpp"
#include "ref.hpp"
#include "report.hpp"
#include "rng.hpp"
#include "trap_managers.hpp"

typedef std::valarray<std::valarray<double>> VImg;

inline VImg to_v(const ref::Img& a) {
    VImg v(std::valarray<double>(0.0, a.empty() ? 0 : a[0].size()), a.size());
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[i].size(); j++) v[i][j] = a[i][j];
    return v;
}
inline ref::Img from_v(const VImg& v) {
    ref::Img a(v.size());
    for (size_t i = 0; i < v.size(); i++) a[i].assign(std::begin(v[i]), std::end(v[i]));
    return a;
}
inline ref::Img transposed(const ref::Img& a) {
    ref::Img t(a[0].size(), std::vector<double>(a.size()));
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[i].size(); j++) t[j][i] = a[i][j];
    return t;
}
inline bool same_bits(const ref::Img& a, const ref::Img& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return false;
        for (size_t j = 0; j < a[i].size(); j++) {
            if (a[i][j] == b[i][j]) continue;
            if (std::isnan(a[i][j]) && std::isnan(b[i][j])) continue;
            return false;
        }
    }
    return true;
}
inline bool all_finite(const ref::Img& a) {
    for (auto& r : a) for (double v : r) if (!std::isfinite(v)) return false;
    return true;
}
inline double img_max(const ref::Img& a) {
    double m = 0; for (auto& r : a) for (double v : r) m = std::max(m, std::fabs(v)); return m;
}
inline double img_sum(const ref::Img& a) {
    double m = 0; for (auto& r : a) for (double v : r) m += v; return m;
}
// largest absolute difference and where
inline double img_diff(const ref::Img& a, const ref::Img& b, int& wi, int& wj) {
    double m = -1; wi = wj = -1;
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[i].size(); j++) {
            double d = std::fabs(a[i][j] - b[i][j]);
            if (!(d <= m)) { m = std::isnan(d) ? INFINITY : d; wi = (int)i; wj = (int)j; }
        }
    return m;
}
inline std::string show_img(const ref::Img& a, size_t max_rows = 8, size_t max_cols = 5) {
    std::string s = strf("%zux%zu[", a.size(), a.empty() ? 0 : a[0].size());
    for (size_t i = 0; i < a.size() && i < max_rows; i++) {
        s += i ? ";" : "";
        for (size_t j = 0; j < a[i].size() && j < max_cols; j++) s += strf("%s%.6g", j ? "," : "", a[i][j]);
    }
    return s + (a.size() > max_rows ? ";..]" : "]");
}
inline uint64_t hash_img(uint64_t h, const ref::Img& a) {
    for (auto& r : a) for (double v : r) h = hash_dbl(h, v);
    return h;
}

// ------------------------------------------------------------------ species and wells

struct GenOpt {
    bool kinds[4] = {true, true, true, true};
    double p_kind[4] = {0.6, 0.45, 0.06, 0.06};  // chance of each kind being present
    int max_species = 3;
    bool surface = true;
    double dens_lo = 0.1, dens_hi = 30;
    double fill_max = 1;       // limits density relative to well (moderate CTI)
    bool fef = true, notch = true;
    bool unit_dwell = false;   // equal dwell for all phases
    int max_phases = 4;
    int max_rows = 14, max_cols = 4;
    bool big = true;           // a few far larger images and settings
    bool tall = true;          // some images of 15-40 rows
};

inline ref::Well gen_well(Rng& r, const GenOpt& o) {
    ref::Well w;
    w.full = r.loguni(50, 1e5);
    w.notch = o.notch && r.chance(0.35) ? w.full * r.loguni(1e-3, 0.3) : 0.0;
    w.power = r.chance(0.3) ? 1.0 : r.uni(0.2, 1.5);
    w.fef = o.fef && r.chance(0.15) ? r.loguni(1e-3, 0.3) : 0.0;
    if (r.chance(0.15)) { w.full = r.round1(w.full); w.notch = r.round1(w.notch); }
    if (r.chance(0.15)) w.power = r.chance(0.5) ? 0.5 : r.round1(w.power);
    return w;
}
inline ref::Species gen_species(Rng& r, int kind, const GenOpt& o, double dwell) {
    ref::Species s;
    s.density = r.loguni(o.dens_lo, o.dens_hi);
    s.tau = dwell * (r.chance(0.1) ? r.loguni(1e-3, 1e5) : r.loguni(0.1, 60));
    if (kind == ref::SC || kind == ref::SCCO) s.tauc = r.chance(0.05) ? 0 : dwell * (r.chance(0.1) ? r.loguni(1e-5, 1e4) : r.loguni(0.005, 10));
    if (kind == ref::ICCO || kind == ref::SCCO) s.sigma = r.pick({0.0, 0.001, 0.05, 0.1, 0.3, 0.5, 1.0, 2.0});
    if (kind == ref::IC && o.surface && r.chance(0.2)) {
        s.none = r.chance(0.3) ? 0 : r.uni(0, 0.6);
        s.full = r.chance(0.15) ? s.none : r.uni(s.none, 1.0);
        if (s.full <= 0) s.full = s.none = 0;
    }
    if (r.chance(0.1)) { s.density = r.round1(s.density); s.tau = r.round1(s.tau); s.tauc = r.round1(s.tauc); }
    return s;
}
// a species that is another but for one parameter
inline ref::Species gen_relative(Rng& r, int kind, const GenOpt& o, double dwell, const ref::Species& a) {
    ref::Species b = a, n = gen_species(r, kind, o, dwell);
    switch (r.range(0, kind == ref::IC ? 2 : kind == ref::SCCO ? 3 : 2)) {
        case 0: b.density = n.density; break;
        case 1: b.tau = n.tau; break;
        case 2: if (kind == ref::SC) b.tauc = n.tauc; else if (kind == ref::IC) { b.none = n.none; b.full = n.full; } else b.sigma = n.sigma; break;
        case 3: b.tauc = n.tauc; break;
    }
    return b;
}
inline std::string show_well(const ref::Well& w) {
    return strf("well(full=%.6g notch=%.6g power=%.4g fef=%.4g)", w.full, w.notch, w.power, w.fef);
}
inline std::string show_species(int k, const ref::Species& s) {
    static const char* nm[4] = {"IC", "SC", "ICco", "SCco"};
    std::string t = strf("%s(rho=%.6g tau=%.6g", nm[k], s.density, s.tau);
    if (k & 1) t += strf(" tauc=%.6g", s.tauc);
    if (k & 2) t += strf(" sigma=%.4g", s.sigma);
    if (s.full > 0) t += strf(" surf=%.4g..%.4g", s.none, s.full);
    return t + ")";
}

// library traps.  For surface traps the library's density argument is the mean over the pixel,
// which it turns into the density of fully exposed traps.
inline TrapInstantCapture lib_ic(const ref::Species& s) {
    if (s.full > 0) return TrapInstantCapture(s.density * (1 - 0.5 * (s.none + s.full)), s.tau, s.none, s.full);
    return TrapInstantCapture(s.density, s.tau);
}
inline TrapSlowCapture lib_sc(const ref::Species& s) { return TrapSlowCapture(s.density, s.tau, s.tauc); }
inline TrapInstantCaptureContinuum lib_icco(const ref::Species& s) {
    return TrapInstantCaptureContinuum(s.density, s.tau, s.sigma);
}
inline TrapSlowCaptureContinuum lib_scco(const ref::Species& s) {
    return TrapSlowCaptureContinuum(s.density, s.tau, s.sigma, s.tauc);
}
template <class T> std::valarray<T> to_va(const std::vector<T>& v) {
    return v.empty() ? std::valarray<T>() : std::valarray<T>(v.data(), v.size());
}

// attach tabulated functions made by the library's own trap objects
inline void attach_tables(ref::Species& s, int kind, double dwell, long max_n) {
    if (kind == ref::ICCO) {
        auto t = std::make_shared<TrapInstantCaptureContinuum>(lib_icco(s));
        t->prep_fill_fraction_and_time_elapsed_tables(dwell, max_n * dwell, 1000);
        s.F = [t](double x) { return t->fill_fraction_from_time_elapsed_table(x); };
        s.T = [t](double f) { return t->time_elapsed_from_fill_fraction_table(f); };
    } else if (kind == ref::SCCO) {
        auto t = std::make_shared<TrapSlowCaptureContinuum>(lib_scco(s));
        t->prep_fill_fraction_and_time_elapsed_tables(dwell / 30, max_n * dwell, 1000);
        t->prep_fill_fraction_after_slow_capture_tables(dwell, dwell / 30, max_n * dwell, 1000);
        s.F = [t](double x) { return t->fill_fraction_from_time_elapsed_table(x); };
        s.T = [t](double f) { return t->time_elapsed_from_fill_fraction_table(f); };
        s.Fcap = [t](double x) { return t->fill_fraction_after_slow_capture_table(x); };
    }
}

// ------------------------------------------------------------------ whole models

struct LibModel {
    std::valarray<double> dwell;
    std::unique_ptr<ROE> roe;
    std::unique_ptr<CCD> ccd;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icco;
    std::valarray<TrapSlowCaptureContinuum> scco;
    int express = 0, offset = 0, r0 = 0, r1 = -1, c0 = 0, c1 = -1;
    double prune_n = 1e-10;
    int prune_f = 0;
};

inline std::unique_ptr<ROE> lib_roe(const ref::RoeCfg& c, std::valarray<double>& dwell) {
    if (c.type == 1)
        return std::unique_ptr<ROE>(new ROEChargeInjection(dwell, c.prescan, c.overscan, c.empty_columns, c.away, c.integer));
    if (c.type == 2)
        return std::unique_ptr<ROE>(new ROETrapPumping(dwell, c.n_pumps, c.empty_first, c.integer));
    return std::unique_ptr<ROE>(new ROE(dwell, c.prescan, c.overscan, c.empty_columns, c.empty_first, c.away, c.integer));
}
inline std::shared_ptr<LibModel> lib_model(const ref::Model& m, int prune_f = 0, double prune_n = 1e-10) {
    auto L = std::make_shared<LibModel>();
    L->dwell = std::valarray<double>(m.roe.dwell.data(), m.roe.dwell.size());
    L->roe = lib_roe(m.roe, L->dwell);
    std::valarray<CCDPhase> ph(m.wells.size());
    for (size_t i = 0; i < m.wells.size(); i++)
        ph[i] = CCDPhase(m.wells[i].full, m.wells[i].notch, m.wells[i].power, m.wells[i].fef);
    std::valarray<double> fr(m.frac.data(), m.frac.size());
    L->ccd.reset(new CCD(ph, fr));
    std::vector<TrapInstantCapture> a; for (auto& s : m.t[0]) a.push_back(lib_ic(s));
    std::vector<TrapSlowCapture> b; for (auto& s : m.t[1]) b.push_back(lib_sc(s));
    std::vector<TrapInstantCaptureContinuum> c; for (auto& s : m.t[2]) c.push_back(lib_icco(s));
    std::vector<TrapSlowCaptureContinuum> d; for (auto& s : m.t[3]) d.push_back(lib_scco(s));
    L->ic = to_va(a); L->sc = to_va(b); L->icco = to_va(c); L->scco = to_va(d);
    L->express = m.express; L->offset = m.offset;
    L->r0 = m.r0; L->r1 = m.r1; L->c0 = m.c0; L->c1 = m.c1;
    L->prune_f = prune_f; L->prune_n = prune_n;
    return L;
}

inline std::string show_model(const ref::Model& m) {
    const ref::RoeCfg& r = m.roe;
    std::string s = strf("roe(type=%d dwell=[", r.type);
    for (size_t i = 0; i < r.dwell.size(); i++) s += strf("%s%.5g", i ? "," : "", r.dwell[i]);
    s += strf("] prescan=%d overscan=%d emptycol=%d first=%d away=%d int=%d pumps=%d) express=%d offset=%d win=%d:%d,%d:%d",
              r.prescan, r.overscan, r.empty_columns, r.empty_first, r.away, r.integer, r.n_pumps, m.express,
              m.offset, m.r0, m.r1, m.c0, m.c1);
    for (size_t i = 0; i < m.wells.size(); i++) s += strf(" %s*%.4g", show_well(m.wells[i]).c_str(), m.frac[i]);
    for (int k = 0; k < 4; k++) for (auto& q : m.t[k]) s += " " + show_species(k, q);
    return s;
}
inline uint64_t hash_model(const ref::Model& m) { return hash_str(show_model(m)); }

inline ref::RoeCfg gen_roe(Rng& r, const GenOpt& o, int n_rows, int force_type = -1) {
    ref::RoeCfg c;
    c.type = force_type >= 0 ? force_type : (r.chance(0.7) ? 0 : 1);
    int P = r.chance(0.6) ? 1 : r.chance(0.85) ? r.range(1, o.max_phases) : r.range(o.max_phases, 2 * o.max_phases);
    int S = c.type == 2 ? 2 * P : P;
    double d = r.chance(0.5) ? 1.0 : r.loguni(1e-3, 1e2);
    if (r.chance(0.1)) d = r.round1(d);
    c.dwell.assign(S, d);
    if (!o.unit_dwell && r.chance(0.3)) for (auto& x : c.dwell) x *= r.uni(0.5, 2);
    if (c.type != 2) {
        if (r.chance(0.3)) c.prescan = r.range(1, 6);
        if (r.chance(0.25)) c.overscan = r.range(1, n_rows + 8);
        c.empty_columns = !r.chance(0.3);
        c.away = !r.chance(0.3);
    } else {
        c.empty_columns = true; c.away = false;
        c.n_pumps = r.range(1, 8);
    }
    if (c.type != 1) c.empty_first = r.chance(c.type == 2 ? 0.5 : 0.3);
    c.integer = r.chance(0.3);
    return c;
}

inline ref::Model gen_model(Rng& r, const GenOpt& o, int n_rows, int force_type = -1) {
    ref::Model m;
    m.roe = gen_roe(r, o, n_rows, force_type);
    int P = m.roe.n_phases();
    bool same = r.chance(0.5);
    for (int p = 0; p < P; p++) m.wells.push_back(p && same ? m.wells[0] : gen_well(r, o));
    double tot = 0;
    for (int p = 0; p < P; p++) { m.frac.push_back(r.chance(0.3) ? 1.0 : r.uni(0.1, 1)); tot += m.frac[p]; }
    for (auto& f : m.frac) f /= tot;
    while (!m.have_traps())
        for (int k = 0; k < 4; k++)
            if (o.kinds[k] && r.chance(o.p_kind[k])) {
                int n = k >= 2 ? (r.chance(0.3) ? 2 : 1) : r.range(1, o.max_species);
                n = std::min(n, o.max_species);
                for (int i = 0; i < n; i++)
                    m.t[k].push_back(i && r.chance(k >= 2 ? 0.6 : 0.15) ? gen_relative(r, k, o, m.roe.dwell[0], m.t[k].back())
                                                                        : gen_species(r, k, o, m.roe.dwell[0]));
            }
    for (size_t i = 1; i < m.t[0].size(); i++)   // species that share some of their parameters
        if (r.chance(0.3)) {
            ref::Species &a = m.t[0][i - 1], &b = m.t[0][i];
            int what = r.range(0, 4);
            if (what == 0) b.tau = a.tau;
            else if (what == 1) b.density = a.density;
            else if (o.surface) {
                if (a.full <= 0) { a.full = r.uni(0.1, 1); a.none = a.full * r.u(); }
                if (what == 2) { b.full = a.full; b.none = a.full * r.u(); }
                else { b.none = a.none; b.full = r.uni(a.none, 1.0); if (b.full <= 0) b.full = b.none = 0; }
            }
        }
    if (m.t[2].size() + m.t[3].size() > 0)
        for (auto& x : m.roe.dwell) x = m.roe.dwell[0];
    m.express = r.chance(0.35) ? 0 : r.range(1, n_rows + 3);
    if (r.chance(0.25)) m.offset = r.range(1, 6);
    return m;
}

// attach tables as the library sizes them; n_rows and n_cols of the image
inline void attach_model_tables(ref::Model& m, int n_rows, int n_cols) {
    if (m.t[2].empty() && m.t[3].empty()) return;
    long n = (m.r1 == -1 ? n_rows : m.r1) - m.r0 + m.offset + (m.roe.type == 2 ? 0 : m.roe.prescan);
    if (!m.roe.empty_columns) n *= n_cols;
    if (m.roe.type == 2) n *= m.roe.n_pumps;
    n *= m.roe.n_steps();
    for (int k = 2; k < 4; k++) for (auto& s : m.t[k]) attach_tables(s, k, m.roe.dwell[0], n);
}

inline double gen_pixel(Rng& r, double full) {
    switch (r.range(0, 9)) {
        case 0: return 0.0;
        case 1: return full * r.uni(1, 1.5);
        case 2: return full * r.loguni(1e-8, 1e-3);
        case 3: return r.range(1, 20) * 1.0;
        case 4: return full;
        default: return full * r.loguni(1e-4, 1);
    }
}
// images that matter: sparse peaks, steps, repeated peaks, ramps, tiny signal
inline ref::Img gen_image(Rng& r, int R, int C, double full) {
    ref::Img a(R, std::vector<double>(C, 0.0));
    double bg = r.chance(0.4) ? full * r.loguni(1e-6, 0.1) : 0.0;
    for (int j = 0; j < C; j++) {
        int kind = r.range(0, 6);
        for (int i = 0; i < R; i++) {
            double v = 0;
            switch (kind) {
                case 0: v = r.chance(0.25) ? gen_pixel(r, full) : 0; break;
                case 1: v = gen_pixel(r, full); break;
                case 2: v = i == R / 3 ? full * r.uni(0.1, 1) : 0; break;
                case 3: v = full * 0.9 * i / R; break;                      // rising
                case 4: v = full * 0.9 * (R - i) / R; break;                // falling
                case 5: v = (i % 4 == 0) ? full * r.loguni(1e-3, 1) : 0; break;
                case 6: v = i < R / 2 ? full * 0.3 : 0; break;
            }
            a[i][j] = v + bg;
        }
    }
    return a;
}

inline int& verbosity_argument() { static int v = 0; return v; }   // add_cti's own argument
inline ref::Img run_add(const ref::Img& im, LibModel* par, LibModel* ser, int allow_negative = 1) {
    VImg v = to_v(im);
    VImg o = add_cti(
        v, par ? par->roe.get() : nullptr, par ? par->ccd.get() : nullptr, par ? &par->ic : nullptr,
        par ? &par->sc : nullptr, par ? &par->icco : nullptr, par ? &par->scco : nullptr, par ? par->express : 0,
        par ? par->offset : 0, par ? par->r0 : (ser ? ser->c0 : 0), par ? par->r1 : (ser ? ser->c1 : -1), 0, -1,
        par ? par->prune_n : 1e-10, par ? par->prune_f : 20, ser ? ser->roe.get() : nullptr,
        ser ? ser->ccd.get() : nullptr, ser ? &ser->ic : nullptr, ser ? &ser->sc : nullptr,
        ser ? &ser->icco : nullptr, ser ? &ser->scco : nullptr, ser ? ser->express : 0, ser ? ser->offset : 0,
        ser ? ser->r0 : (par ? par->c0 : 0), ser ? ser->r1 : (par ? par->c1 : -1), 0, -1,
        ser ? ser->prune_n : 1e-10, ser ? ser->prune_f : 20, allow_negative, verbosity_argument(), 0);
    return from_v(o);
}
inline ref::Img run_remove(const ref::Img& im, int n_it, LibModel* par, LibModel* ser, int allow_negative = 1) {
    VImg v = to_v(im);
    VImg o = remove_cti(
        v, n_it, par ? par->roe.get() : nullptr, par ? par->ccd.get() : nullptr, par ? &par->ic : nullptr,
        par ? &par->sc : nullptr, par ? &par->icco : nullptr, par ? &par->scco : nullptr, par ? par->express : 0,
        par ? par->offset : 0, par ? par->r0 : (ser ? ser->c0 : 0), par ? par->r1 : (ser ? ser->c1 : -1), 0, -1,
        par ? par->prune_n : 1e-10, par ? par->prune_f : 20, ser ? ser->roe.get() : nullptr,
        ser ? ser->ccd.get() : nullptr, ser ? &ser->ic : nullptr, ser ? &ser->sc : nullptr,
        ser ? &ser->icco : nullptr, ser ? &ser->scco : nullptr, ser ? ser->express : 0, ser ? ser->offset : 0,
        ser ? ser->r0 : (par ? par->c0 : 0), ser ? ser->r1 : (par ? par->c1 : -1), 0, -1,
        ser ? ser->prune_n : 1e-10, ser ? ser->prune_f : 20, allow_negative);
    return from_v(o);
}
