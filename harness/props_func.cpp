// Functions: C17 cloud volumes, C18 fill fractions, C21 read noise, C22 files and array utilities.
#include <omp.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <algorithm>
#include <functional>
#include <limits>

#include "capture.hpp"
#include "props.hpp"
#include "read_noise.hpp"
#include "trap_managers.hpp"
#include "util.hpp"
#undef error

// ------------------------------------------------------------------------------- C17
PROP(C17) {
    (void)icase;
    ref::Well w;
    w.full = r.chance(0.3) ? r.loguni(1, 100) : r.loguni(100, 1e6);
    w.notch = r.chance(0.4) ? 0 : r.chance(0.1) ? w.full * (1 - r.loguni(1e-6, 1e-1)) : w.full * r.loguni(1e-5, 0.9);
    w.power = r.chance(0.2) ? 1 : r.chance(0.1) ? r.pick({0.5, 0.25, 2.0, 0.478, 0.58, 0.8}) : r.chance(0.1) ? r.loguni(0.01, 0.1) : r.uni(0.05, 3);
    w.fef = r.chance(0.4) ? 0 : r.chance(0.1) ? 1.0 : r.loguni(1e-6, 1);
    if (r.chance(0.2)) { w.full = r.round1(w.full); w.notch = std::min(r.round1(w.notch), w.full / 2); w.power = r.round1(w.power); w.fef = r.round1(w.fef); }
    CCDPhase ph(w.full, w.notch, w.power, w.fef);
    CCDPhase copy = ph;
    ctx.desc(show_well(w));
    std::vector<double> n = {0.0, -0.0, -1.0, -w.full * 1e3, w.notch, w.full, std::nextafter(w.notch, 1e300), std::nextafter(w.notch, -1.0),
                             std::nextafter(w.full, 0), std::nextafter(w.full, 1e300), w.full * 1e6, 1e300, -1e300, 5e-324, 1e-300};
    for (int i = 0; i < 40; i++) {
        n.push_back(r.uni(0, w.full));
        n.push_back(w.notch + (w.full - w.notch) * r.loguni(1e-12, 1));
        n.push_back(w.full * r.loguni(1e-8, 10));
    }
    for (int i = 0; i < 20; i++) { double a = n[r.range(0, (int)n.size() - 1)]; n.push_back(std::nextafter(a, 1e308)); }
    std::sort(n.begin(), n.end());
    double prev = -1, prev_n = 0;
    for (double x : n) {
        double v = ph.cloud_fractional_volume_from_electrons(x), v2 = copy.cloud_fractional_volume_from_electrons(x);
        ctx.count["volumes"]++;
        double want;
        if (x <= w.notch || x <= 0) want = w.fef;
        else if (x >= w.full) want = 1;
        else want = w.fef + (1 - w.fef) * std::pow((x - w.notch) / (w.full - w.notch), w.power);
        std::string at = strf("electrons %.17g: volume %.17g", x, v);
        if (!(v >= w.fef && v <= 1)) ctx.violation("bounds", at);
        if (!(v >= prev - 4e-16)) ctx.violation("monotonic", at + strf(", but %.17g has %.17g", prev_n, prev));
        if ((x <= w.notch || x <= 0) && v != w.fef) ctx.violation("below-notch", at);
        else if (x >= w.full && v != 1) ctx.violation("above-full", at);
        else if (!(std::fabs(v - want) <= 1e-11 * want + 1e-15)) ctx.violation("formula", at + strf(", formula %.17g", want));
        if (v != v2) ctx.violation("copy", at);
        prev = v; prev_n = x;
        if (v > w.fef && v < 1) ctx.count["interior"]++;
    }
    // one phase or several, the CCD keeps them
    std::valarray<CCDPhase> phs(ph, 2); std::valarray<double> fr(0.5, 2);
    CCD a(phs, fr), b(ph);
    double x = w.full * r.u();
    if (a.phases[1].cloud_fractional_volume_from_electrons(x) != ph.cloud_fractional_volume_from_electrons(x) ||
        b.phases[0].cloud_fractional_volume_from_electrons(x) != ph.cloud_fractional_volume_from_electrons(x) || b.n_phases != 1 || a.n_phases != 2 ||
        b.fraction_of_traps_per_phase.size() != 1 || b.fraction_of_traps_per_phase[0] != 1.0)
        ctx.violation("ccd", "a CCD changes its phases");
    ctx.nontrivial(hash_str(show_well(w)));
    ctx.sample(show_well(w));
}

// ------------------------------------------------------------------------------- C18
// average over the log-normal distribution: trapezoid in x = ln(tau/mu)/sigma, which converges
// faster than any power of the step for such integrands
template <class G> static double lognormal_mean(double mu, double sigma, G g) {
    double h = std::min(0.05, 0.05 / sigma), s = 0;
    for (double x = -14; x <= 14; x += h) s += std::exp(-0.5 * x * x) * g(mu * std::exp(sigma * x));
    return s * h / std::sqrt(2 * M_PI);
}
static double slow_capture_mean(double mu, double sigma, double tauc, double t, double dwell) {
    if (tauc == 0) return 1;
    return lognormal_mean(mu, sigma, [&](double tau) {
        double c = 1 / tauc, e = 1 / tau;
        double f0 = t == 0 ? 1 : std::exp(-t / tau);
        // df/dt = c (1 - f) - e f
        double eq = c / (c + e);
        return eq + (f0 - eq) * std::exp(-(c + e) * dwell);
    });
}
template <class T> static void judge_continuum(Ctx& ctx, Rng& r, T& trap, double mu, double sigma, const std::string& nm) {
    // exact function
    double prev = 1, prev_t = 0;
    std::vector<double> ts;
    for (int i = 0; i < 10; i++) ts.push_back(mu * r.loguni(1e-4, 1e2));
    for (int i = 0; i < 3; i++) ts.push_back(mu * r.loguni(1e-10, 1e6));
    std::sort(ts.begin(), ts.end());
    if (trap.fill_fraction_from_time_elapsed(0.0) != 1.0) ctx.violation(nm + "-zero", "the fraction at time zero is not one");
    if (trap.fill_fraction_from_time_elapsed(std::numeric_limits<double>::max()) != 0.0) ctx.violation(nm + "-end", "the fraction after the longest time is not zero");
    for (double t : ts) {
        double f = trap.fill_fraction_from_time_elapsed(t), want = lognormal_mean(mu, sigma, [&](double tau) { return std::exp(-t / tau); });
        ctx.count["fractions"]++;
        std::string at = strf("%s: fraction after %.12g is %.12g", nm.c_str(), t, f);
        if (!(f >= -1e-12 && f <= 1 + 1e-6)) ctx.violation(nm + "-range", at);
        if (!(std::fabs(f - want) <= 2e-6 * want + 1e-13)) ctx.violation(nm + "-average", at + strf(", average %.12g", want));
        if (f > prev * (1 + 2e-6) + 1e-13) ctx.violation(nm + "-monotonic", at + strf(", after %.12g it is %.12g", prev_t, prev));
        prev = f; prev_t = t;
        // narrow spread: a single release time, to second order in sigma
        if (sigma < 0.2 && std::fabs(f - std::exp(-t / mu)) > 0.3 * sigma * sigma + 1e-6) ctx.violation(nm + "-narrow", at + strf(", single time %.12g", std::exp(-t / mu)));
        if (sigma < 0.2) ctx.count["narrow"]++;
        // inverse
        if (f > 1e-9 && f < 1 - 1e-9) {
            double tm = t * r.loguni(1.01, 1e4);
            double ti = trap.time_elapsed_from_fill_fraction(f, tm);
            double back = lognormal_mean(mu, sigma, [&](double tau) { return std::exp(-ti / tau); });
            ctx.count["inverted"]++;
            if (!(ti >= 0 && ti <= tm * (1 + 1e-9))) ctx.violation(nm + "-inverse-range", at + strf(", time for it %.12g of %.12g", ti, tm));
            else if (!(std::fabs(back - f) <= 1e-5 * f * (1 + t / mu) + 1e-12)) ctx.violation(nm + "-inverse", at + strf(", time for it %.12g, which has %.12g", ti, back));
        }
    }
    if (trap.time_elapsed_from_fill_fraction(1.0, mu) != 0.0 || trap.time_elapsed_from_fill_fraction(0.0, mu) != std::numeric_limits<double>::max())
        ctx.violation(nm + "-inverse-ends", "the times for full and for empty traps");
    // tables
    double tmin = mu * r.loguni(1e-3, 1), tmax = tmin * r.loguni(10, 1e5);
    int n = r.range(50, 400);
    trap.prep_fill_fraction_and_time_elapsed_tables(tmin, tmax, n);
    double d = std::log(tmax / tmin) / (n - 1), tol = 0.1 * d * d + 4e-6;
    double pf = 1;
    for (int i = 0; i < 40; i++) {
        double t = i == 0 ? tmin : i == 39 ? tmax : tmin * std::exp(std::log(tmax / tmin) * (i + r.u() * 0.9) / 40);
        double f = trap.fill_fraction_from_time_elapsed_table(t);
        double want = lognormal_mean(mu, sigma, [&](double tau) { return std::exp(-t / tau); });
        ctx.count["table_values"]++;
        if (!(std::fabs(f - want) <= tol)) ctx.violation(nm + "-table", strf("%s: table of %d from %.9g to %.9g: fraction after %.12g is %.12g, exactly %.12g", nm.c_str(), n, tmin, tmax, t, f, want));
        if (f > pf + 4e-6) ctx.violation(nm + "-table-monotonic", strf("%s: table fraction rises to %.12g at %.9g", nm.c_str(), f, t));
        if (!(f >= 0 && f <= 1)) ctx.violation(nm + "-table-range", strf("%s: table fraction %.12g at %.9g", nm.c_str(), f, t));
        pf = f;
        if (i > 0 && i < 39 && f > 1e-9 && f < 1 - 1e-9) {
            double ti = trap.time_elapsed_from_fill_fraction_table(f), fb = trap.fill_fraction_from_time_elapsed_table(ti);
            if (!(std::fabs(fb - f) <= 1e-9)) ctx.violation(nm + "-table-inverse", strf("%s: fraction %.12g at %.9g; time for it %.12g, which has %.12g", nm.c_str(), f, t, ti, fb));
            ctx.count["table_inverted"]++;
        }
    }
    // beyond the table: still fractions and times
    for (double t : {tmin * 1e-3, tmin * 0.5, tmax * 3, tmax * 1e6, 1e-300}) {
        double f = trap.fill_fraction_from_time_elapsed_table(t);
        if (!(f >= 0 && f <= 1)) ctx.violation(nm + "-extrapolated", strf("%s: table fraction %.12g at %.9g, outside the table", nm.c_str(), f, t));
    }
    // just beyond the table: still inverse of each other, and continuous with it
    for (int k = 0; k < 6; k++) {
        double dt = tmax * d * r.uni(0.05, 1), f0 = trap.fill_fraction_from_time_elapsed_table(tmax);
        double f = trap.fill_fraction_from_time_elapsed_table(tmax + dt), slope = trap.fill_fraction_from_time_elapsed_table(tmax - dt) - f0;
        if (f0 > 1e-9 && !(f <= f0 + 1e-15 && f0 - f <= 2 * slope + 1e-7 * f0))
            ctx.violation(nm + "-table-top", strf("%s: table fraction %.12g at the top %.9g, %.12g just beyond it at %.9g", nm.c_str(), f0, tmax, f, tmax + dt));
        if (f > 1e-6 && f < 0.99) {
            double ti = trap.time_elapsed_from_fill_fraction_table(f);
            if (!(std::fabs(ti - (tmax + dt)) <= 1e-6 * tmax)) ctx.violation(nm + "-table-top-inverse", strf("%s: fraction %.12g at %.9g beyond the table's top %.9g; time for it %.12g", nm.c_str(), f, tmax + dt, tmax, ti));
            ctx.count["beyond_the_table"]++;
        }
    }
    if (trap.fill_fraction_from_time_elapsed_table(0.0) != 1.0 || trap.fill_fraction_from_time_elapsed_table(std::numeric_limits<double>::max()) != 0.0 ||
        trap.time_elapsed_from_fill_fraction_table(1.0) != 0.0 || trap.time_elapsed_from_fill_fraction_table(0.0) != std::numeric_limits<double>::max())
        ctx.violation(nm + "-table-ends", "table values for full and for empty traps");
}

PROP(C18) {
    (void)icase;
    double tau = r.loguni(1e-4, 1e4), dens = r.loguni(1e-3, 1e3);
    int kind = r.range(0, 4);
    if (kind == 0) {  // single release times
        double tc = r.loguni(1e-4, 1e4);
        TrapInstantCapture a(dens, tau); TrapSlowCapture b(dens, tau, tc);
        ctx.desc(strf("IC/SC tau=%.6g tauc=%.6g", tau, tc));
        if (!(std::fabs(a.release_rate * tau - 1) < 1e-14 && std::fabs(b.release_rate * tau - 1) < 1e-14 && std::fabs(b.capture_rate * tc - 1) < 1e-14)) ctx.violation("rates", "rates are not one over the timescales");
        double prev = 1;
        for (int i = 0; i <= 30; i++) {
            double t = i == 0 ? 0 : tau * std::exp(std::log(1e-6) + (std::log(1e9)) * i / 30.0);
            double f = a.fill_fraction_from_time_elapsed(t), g = b.fill_fraction_from_time_elapsed(t), want = std::exp(-t / tau);
            ctx.count["fractions"]++;
            if (i == 0 && (f != 1 || g != 1)) ctx.violation("zero", "the fraction at time zero is not one");
            if (!(f >= 0 && f <= prev) || !(std::fabs(f - want) <= 1e-12 * want + 1e-300) || g != f) ctx.violation("exponential", strf("fraction after %.12g: %.12g and %.12g, expected %.12g", t, f, g, want));
            prev = f;
        }
    } else if (kind == 1) {  // surface traps
        double a = r.chance(0.3) ? 0 : r.uni(0, 0.9), b = r.chance(0.15) ? a : r.uni(a, 1);
        if (b <= 0) b = a = 0;
        TrapInstantCapture t(dens, tau, a, b);
        ctx.desc(strf("surface density=%.6g none=%.6g full=%.6g", dens, a, b));
        // the mean over the range, in a form that is exact however thin it is
        auto mean = [&](long double l, long double h) -> double {
            long double f = 0, vl = std::max(l, (long double)a), vh = std::min(h, (long double)b);
            if (b > a && vh > vl) f += (0.5L * (vl + vh) - a) * (vh - vl) / ((long double)b - a);
            if (h > b) f += h - std::max(l, (long double)b);
            return h > l ? (double)(f / (h - l)) : 0;
        };
        std::vector<double> cut = {0, 1};
        int n = r.range(0, 8);
        for (int i = 0; i < n; i++) {
            cut.push_back(r.chance(0.15) ? a : r.chance(0.15) ? b : r.u());
            // thin volumes, such as between two clouds of nearly the same height
            if (r.chance(0.3)) cut.push_back(std::min(1.0, cut.back() + r.loguni(1e-17, 1e-3)));
        }
        std::sort(cut.begin(), cut.end());
        double tot = 0;
        for (size_t i = 0; i + 1 < cut.size(); i++) {
            double l = cut[i], h = cut[i + 1], e = t.fraction_traps_exposed_per_fractional_volume(l, h);
            ctx.count["exposures"]++;
            if (h - l > 0 && h - l < 1e-6) ctx.count["thin_volumes"]++;
            if (!(e >= 0 && e <= 1 + 1e-12)) ctx.violation("exposure-range", strf("between %.17g and %.17g the exposed fraction is %.12g", l, h, e));
            tot += e * (h - l);
            double tol = 1e-12 + (b > a ? 1e-15 / (b - a) : 0);
            if (h > l && !(std::fabs(e - mean(l, h)) <= tol)) ctx.violation("exposure", strf("between %.17g and %.17g the exposed fraction is %.12g, expected %.12g", l, h, e, mean(l, h)));
        }
        if (!(std::fabs(tot * t.density - dens) <= (1e-10 + (b > a ? 4e-15 * cut.size() / (b - a) : 0)) * dens * 10)) ctx.violation("exposure-total", strf("traps exposed by all volumes: %.12g, advertised %.12g", tot * t.density, dens));
    } else if (r.chance(0.1)) {   // the tables that a readout uses
        double dwell = tau * r.loguni(1e-2, 10), sigma = r.chance(0.1) ? 0 : r.uni(0.05, 2.5), tauc = r.chance(0.05) ? 0 : tau * r.loguni(1e-2, 10);
        int n = r.range(2, 3000);
        CCDPhase ph(1e4, 0, 1);
        ctx.desc(strf("readout tables tau=%.9g sigma=%.9g tauc=%.9g dwell=%.9g transfers=%d", tau, sigma, tauc, dwell, n));
        TrapInstantCaptureContinuum a(dens, tau, sigma); TrapSlowCaptureContinuum b(dens, tau, sigma, tauc);
        TrapManagerInstantCaptureContinuum ma(std::valarray<TrapInstantCaptureContinuum>(a, 1), n, ph, dwell);
        TrapManagerSlowCaptureContinuum mb(std::valarray<TrapSlowCaptureContinuum>(b, 1), n, ph, dwell);
        ma.setup(); mb.setup();
        for (int i = 0; i < 12; i++) {
            double t = dwell * std::exp(std::log((double)n) * r.u());
            double f = ma.traps[0].fill_fraction_from_time_elapsed_table(t), g = mb.traps[0].fill_fraction_from_time_elapsed_table(t);
            double want = lognormal_mean(tau, sigma, [&](double x) { return std::exp(-t / x); });
            double h = mb.traps[0].fill_fraction_after_slow_capture_table(t), wh = slow_capture_mean(tau, sigma, tauc, t, dwell);
            ctx.count["readout_tables"]++;
            if (!(std::fabs(f - want) <= 1e-4 && std::fabs(g - want) <= 1e-4))
                ctx.violation("readout-table", strf("the readout takes %.9g (IC) and %.9g (SC) for the fraction after %.9g, which is %.9g", f, g, t, want));
            if (!(h <= 1)) ctx.violation("readout-table-capture-above-one", strf("the readout takes %.17g for the fraction after slow capture from %.9g", h, t));
            if (!(std::fabs(h - wh) <= 1e-4)) ctx.violation("readout-table-capture", strf("the readout takes %.9g for the fraction after slow capture from %.9g, which is %.9g", h, t, wh));
        }
        // traps less full by any little are what they would be had they been full that little time ago
        for (int i = 0; i < 5; i++) {
            double f = 1 - (i == 0 ? r.pick({2.3e-16, 4.5e-16, 1e-15, 1e-14}) : r.loguni(1e-13, 0.3)), lo = 0, hi = dwell;
            auto F = [&](double t) { return lognormal_mean(tau, sigma, [&](double x) { return std::exp(-t / x); }); };
            if (F(hi) > f) continue;
            for (int k = 0; k < 60; k++) { double mid = k < 40 && lo == 0 ? hi * 0.1 : 0.5 * (lo + hi); (F(mid) > f ? lo : hi) = mid; }
            double t = 0.5 * (lo + hi), want = F(t + dwell);
            double a1 = ma.traps[0].fill_fraction_from_time_elapsed_table(ma.traps[0].time_elapsed_from_fill_fraction_table(f) + dwell);
            double b1 = mb.traps[0].fill_fraction_from_time_elapsed_table(mb.traps[0].time_elapsed_from_fill_fraction_table(f) + dwell);
            double c1 = mb.traps[0].fill_fraction_after_slow_capture_table(mb.traps[0].time_elapsed_from_fill_fraction_table(f)), wc = slow_capture_mean(tau, sigma, tauc, t, dwell);
            ctx.count["nearly_full"]++;
            if (!(std::fabs(a1 - want) <= 0.02 && std::fabs(b1 - want) <= 6e-4))
                ctx.violation("readout-nearly-full", strf("the readout takes %.9g (IC) and %.9g (SC) for the fraction a dwell time after %.17g, which is %.9g", a1, b1, f, want));
            if (!(std::fabs(c1 - wc) <= 6e-4)) ctx.violation("readout-nearly-full-capture", strf("the readout takes %.9g for the fraction after slow capture from %.17g, which is %.9g", c1, f, wc));
        }
    } else {
        double sigma = r.chance(0.3) ? r.loguni(1e-3, 0.2) : r.chance(0.1) ? r.pick({0.0, 0.0, 1e-15, 1e-9, 1e-5}) : r.uni(0.05, 2.5);
        double tauc = kind == 2 || r.chance(0.05) ? 0 : tau * r.loguni(1e-3, 10);
        ctx.desc(strf("%s tau=%.9g sigma=%.9g tauc=%.9g", kind == 2 ? "ICco" : "SCco", tau, sigma, tauc));
        if (kind == 2) {
            TrapInstantCaptureContinuum t(dens, tau, sigma);
            judge_continuum(ctx, r, t, tau, sigma, "ICco");
        } else {
            TrapSlowCaptureContinuum t(dens, tau, sigma, tauc);
            if (kind == 3) judge_continuum(ctx, r, t, tau, sigma, "SCco");
            double dwell = tau * r.loguni(1e-3, 10);
            for (int i = 0; i < 12; i++) {
                double te = i == 0 ? 0 : tau * r.loguni(1e-5, 1e3);
                double f = t.fill_fraction_after_slow_capture(te, dwell), want = slow_capture_mean(tau, sigma, tauc, te, dwell);
                ctx.count["slow_captures"]++;
                if (!(std::fabs(f - want) <= 3e-6 * want + 1e-12) || !(f >= 0 && f <= 1 + 1e-6))
                    ctx.violation("SCco-capture", strf("fraction after slow capture of %.9g from %.9g is %.12g, average %.12g", dwell, te, f, want));
            }
            double tmin = dwell * r.loguni(0.01, 1), tmax = tmin * r.loguni(10, 1e5);
            int n = r.range(50, 300);
            t.prep_fill_fraction_after_slow_capture_tables(dwell, tmin, tmax, n);
            double d = std::log(tmax / tmin) / (n - 1), tol = 0.1 * d * d + 4e-6;
            for (int i = 0; i < 30; i++) {
                double te = i == 0 ? tmin : i == 29 ? tmax : tmin * std::exp(std::log(tmax / tmin) * r.u());
                double f = t.fill_fraction_after_slow_capture_table(te), want = slow_capture_mean(tau, sigma, tauc, te, dwell);
                ctx.count["table_values"]++;
                if (!(std::fabs(f - want) <= tol)) ctx.violation("SCco-capture-table", strf("table of %d from %.9g to %.9g: fraction after slow capture from %.9g is %.12g, exactly %.12g", n, tmin, tmax, te, f, want));
            }
            double z = t.fill_fraction_after_slow_capture_table(0.0), wz = slow_capture_mean(tau, sigma, tauc, 0, dwell);
            if (!(std::fabs(z - wz) <= 3e-6 * wz)) ctx.violation("SCco-capture-full", strf("full traps after slow capture: %.12g, expected %.12g", z, wz));
            double e = t.fill_fraction_after_slow_capture_table(std::numeric_limits<double>::max()), we = slow_capture_mean(tau, sigma, tauc, std::numeric_limits<double>::infinity(), dwell);
            if (!(std::fabs(e - we) <= 3e-6 * we + 1e-12)) ctx.violation("SCco-capture-empty", strf("empty traps after slow capture: %.12g, expected %.12g", e, we));
        }
    }
    ctx.nontrivial(hash_str(ctx.cur_desc));
    ctx.sample(ctx.cur_desc);
}

// ------------------------------------------------------------------------------- C21
PROP(C21) {
    int rows = r.chance(0.3) ? 2 : r.range(2, 40), cols = r.chance(0.3) ? 2 : r.range(2, 40);
    double amp = r.loguni(0.01, 30), frac = r.uni(0.01, 1.5);
    int smooth = r.range(0, 1);
    std::vector<double> in((size_t)rows * cols), out(in.size()), got(in.size(), 777.0);
    int kind = r.range(0, 3);
    for (size_t i = 0; i < in.size(); i++) {
        in[i] = r.uni(0, 100) + (r.chance(0.05) ? r.loguni(1, 1e5) : 0) - (kind == 2 ? 60 : 0);
        out[i] = kind == 0 ? in[i] : in[i] + amp * r.uni(-3, 3) * (r.chance(0.1) ? 30 : 1);
    }
    ctx.desc(strf("%dx%d amp=%.6g frac=%.6g smooth=%d kind=%d", rows, cols, amp, frac, smooth, kind));
    std::vector<double> in0 = in, out0 = out;
    // the documented formula
    double clip = amp * frac, a2 = amp * amp;
    std::vector<double> want(in.size());
    auto cl = [](double v, double m) { return std::max(-m, std::min(m, v)); };
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) {
            double x = in[i * cols + j] - out[i * cols + j], s = 0; int n = 0;
            for (int di = -1; di <= 1; di++) for (int dj = -1; dj <= 1; dj++) {
                int a = i + di, b = j + dj;
                if (a < 0 || b < 0 || a >= rows || b >= cols) continue;
                s += in[a * cols + b] - out[a * cols + b]; n++;
            }
            double m = s / n;
            double v = cl(x, 1.0) * x * x / (x * x + 4 * a2) + cl(m, clip) * m * m / (m * m + 18 * a2);
            auto nb = [&](int a, int b) {
                if (a < 0 || b < 0 || a >= rows || b >= cols) return;
                double g = out[a * cols + b] - out[i * cols + j];
                v += cl(g, clip) * 4 * a2 / (g * g + 4 * a2);
            };
            nb(i - 1, j); nb(i + 1, j);
            if (smooth) { nb(i, j - 1); nb(i, j + 1); }
            want[i * cols + j] = v / (smooth ? 6 : 4);
        }
    std::vector<double> first;
    for (int t : {1, 2, 3, 8}) {
        omp_set_num_threads(t);
        std::fill(got.begin(), got.end(), r.uni(-1e6, 1e6));
        StdoutCapture cap;
        determine_read_noise_model(in.data(), out.data(), rows, cols, amp, frac, smooth, got.data());
        std::string s = cap.stop();
        ctx.count["calls"]++;
        ctx.count["pixels"] += got.size();
        if (cap.total) { ctx.violation("prints", "written to standard output: " + s.substr(0, 300)); return; }
        if (in != in0 || out != out0) { ctx.violation("inputs", "an input array was modified"); return; }
        for (size_t i = 0; i < got.size(); i++)
            if (!(std::fabs(got[i] - want[i]) <= 1e-9 * (1 + clip))) {
                ctx.violation("formula", strf("%d threads: pixel (%zu,%zu) is %.12g, formula %.12g", t, i / cols, i % cols, got[i], want[i]));
                return;
            }
        if (first.empty()) first = got;
        else if (got != first) { ctx.violation("threads", strf("%d threads give other values than 1", t)); return; }
    }
    ctx.nontrivial(hash_str(ctx.cur_desc) + icase);
    ctx.sample(ctx.cur_desc);
}

// ------------------------------------------------------------------------------- C22
static std::string scratch() {
    static std::string d;
    if (d.empty()) {
        char t[] = "/tmp/verif_c22_XXXXXX"; d = mkdtemp(t);
        static pid_t owner = getpid();   // children end through exit() too
        atexit([]() { if (getpid() != owner) return; std::string c = d; ::unlink((c + "/f").c_str()); ::rmdir((c + "/dir").c_str()); ::rmdir(c.c_str()); });
    }
    return d;
}
struct Loaded { bool got = false; int status = -1; std::string err; ref::Img im; };
static Loaded load_in_child(const std::string& path) {
    Loaded L;
    int po[2], pe[2];
    if (pipe(po) || pipe(pe)) return L;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(pe[1], 2); close(po[0]); close(pe[0]);
        VImg v = load_image_from_txt(path.c_str());
        size_t R = v.size(), C = R ? v[0].size() : 0;
        FILE* f = fdopen(po[1], "w");
        fwrite(&R, sizeof R, 1, f); fwrite(&C, sizeof C, 1, f);
        for (size_t i = 0; i < R; i++) for (size_t j = 0; j < v[i].size() && j < C; j++) { double d = v[i][j]; fwrite(&d, 8, 1, f); }
        fflush(f);
        _exit(0);
    }
    close(po[1]); close(pe[1]);
    std::string b; char t[65536]; ssize_t k;
    while ((k = read(po[0], t, sizeof t)) > 0) b.append(t, k);
    while ((k = read(pe[0], t, sizeof t)) > 0) L.err.append(t, k);
    close(po[0]); close(pe[0]);
    waitpid(pid, &L.status, 0);
    if (b.size() >= 16) {
        size_t R, C; memcpy(&R, b.data(), 8); memcpy(&C, b.data() + 8, 8);
        if (b.size() == 16 + R * C * 8) {
            L.got = true; L.im.assign(R, std::vector<double>(C));
            for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) memcpy(&L.im[i][j], b.data() + 16 + 8 * (i * C + j), 8);
        }
    }
    return L;
}
static double any_value(Rng& r) {
    switch (r.range(0, 7)) {
        case 0: return 0; case 1: return -0.0; case 2: return r.uni(-1, 1); case 3: return r.loguni(1e-9, 1e15);
        case 4: return -r.loguni(1e-9, 1e15); case 5: return r.range(-1000, 1000); case 6: return r.loguni(1e-300, 1e300);
        default: return r.uni(0, 1e5);
    }
}
PROP(C22) {
    (void)icase;
    int what = r.range(0, 9);
    int R = r.chance(0.3) ? 1 : r.range(1, 12), C = r.chance(0.3) ? 1 : r.range(1, 12);
    ref::Img im(R, std::vector<double>(C));
    for (auto& row : im) for (auto& v : row) v = any_value(r);
    VImg v = to_v(im);
    std::string path = scratch() + "/f";
    if (what <= 2) {  // round trip, also over the remains of another file
        ctx.desc("round trip " + show_img(im, 20, 20));
        if (r.chance(0.5)) { FILE* f = fopen(path.c_str(), "w"); for (int i = 0; i < r.range(1, 5000); i++) fprintf(f, "%d 7.5 ", i); fclose(f); }
        save_image_to_txt(path.c_str(), v);
        if (!same_bits(from_v(v), im)) ctx.violation("save-modifies", "saving modified the image");
        VImg w = load_image_from_txt(path.c_str());
        ref::Img g = from_v(w);
        bool ok = (int)g.size() == R && (int)g[0].size() == C;
        if (!ok) { ctx.violation("shape", strf("saved %dx%d, loaded %zux%zu", R, C, g.size(), g.empty() ? 0 : g[0].size())); }
        for (int i = 0; ok && i < R; i++) for (int j = 0; j < C; j++)
            if (!(std::fabs(g[i][j] - im[i][j]) <= 0.5000001e-6 + 1e-15 * std::fabs(im[i][j]))) {
                ctx.violation("values", strf("(%d,%d) saved %.17g loaded %.17g", i, j, im[i][j], g[i][j])); ok = false; break;
            }
        // what was written is plain text anyone can read: two integers, then the rows
        FILE* f = fopen(path.c_str(), "r"); int a = 0, b = 0; double d = 0, last = 0; int n = 0;
        if (fscanf(f, "%d %d", &a, &b) == 2) while (fscanf(f, "%lf", &d) == 1) { n++; last = d; }
        fclose(f);
        if (a != R || b != C || n != R * C || std::fabs(last - im[R - 1][C - 1]) > 1e-6 + 1e-15 * std::fabs(last)) ctx.violation("file", strf("the file says %d %d and holds %d values", a, b, n));
        ctx.count["round_trips"]++;
    } else if (what <= 4) {  // bad files
        std::string good = strf("%d %d \n", R, C); std::vector<size_t> ends;
        for (auto& row : im) { for (double x : row) { good += strf("%.6f ", std::fmod(x, 1e6)); ends.push_back(good.size()); } good += "\n"; }
        std::string bad; int how = r.range(0, 9); bool must_fail = true;
        if (how == 0) { path = scratch() + "/none"; bad = "(missing)"; }
        else if (how == 1) bad = "";
        else if (how == 2) { size_t k = r.range(0, (int)ends.size() - 1); bad = good.substr(0, k ? ends[k - 1] : good.find('\n')); }          // whole values missing
        else if (how == 3) { size_t k = r.range(0, (int)ends.size() - 1); bad = good; size_t p = k ? ends[k - 1] : good.find('\n') + 1; bad.insert(p, r.pick({" x", " abc ", " --3 ", " , ", "# "})); }
        else if (how == 4) bad = strf("%d %d \n", r.pick({0, -1, -5, -2147483647}), C) + good.substr(good.find('\n'));
        else if (how == 5) bad = strf("%d %d \n", R, r.pick({0, -1, -7, -2147483647})) + good.substr(good.find('\n'));
        else if (how == 6) bad = strf("rows %d", C);
        else if (how == 7) bad = strf("%d", R);
        else if (how == 8) { path = scratch() + "/dir"; mkdir(path.c_str(), 0700); bad = "(directory)"; }
        else { bad = good; must_fail = false; for (auto& ch : bad) if (ch == ' ' && r.chance(0.3)) ch = r.pick({'\n', '\t', ' '}); if (r.chance(0.5)) bad += " 1 2 3 trailing"; }
        if (bad[0] != '(') { FILE* f = fopen(path.c_str(), "w"); fwrite(bad.data(), 1, bad.size(), f); fclose(f); }
        ctx.desc(strf("file kind %d: ", how) + bad.substr(0, 300));
        Loaded L = load_in_child(path);
        ctx.count["files"]++;
        ctx.count[strf("file_kind_%d", how)]++;
        if (must_fail) {
            if (L.got) ctx.violation("invented", "an image was returned: " + show_img(L.im));
            else if (!WIFEXITED(L.status)) ctx.violation("crash", strf("killed by signal %d: %s", WTERMSIG(L.status), L.err.substr(0, 300).c_str()));
            else if (WEXITSTATUS(L.status) == 0 || L.err.empty()) ctx.violation("silent", strf("status %d, message '%s'", WEXITSTATUS(L.status), L.err.c_str()));
        } else {
            bool ok = L.got && (int)L.im.size() == R && (int)L.im[0].size() == C;
            for (int i = 0; ok && i < R; i++) for (int j = 0; j < C; j++) ok = ok && std::fabs(L.im[i][j] - std::fmod(im[i][j], 1e6)) <= 1e-6;
            if (!ok) ctx.violation("layout", "a good file with other white space was not read: " + L.err.substr(0, 200));
        }
    } else if (what == 5) {  // transpose and flatten
        ctx.desc("transpose " + show_img(im));
        VImg t = transpose(v), tt = transpose(t);
        bool ok = (int)t.size() == C && (int)t[0].size() == R;
        for (int i = 0; ok && i < R; i++) for (int j = 0; j < C; j++) ok = ok && std::signbit(t[j][i]) == std::signbit(im[i][j]) && t[j][i] == im[i][j];
        if (!ok) ctx.violation("transpose", show_img(from_v(t)));
        if (!same_bits(from_v(tt), im)) ctx.violation("transpose-twice", show_img(from_v(tt)));
        std::vector<double> f = flatten(v); size_t k = 0; ok = f.size() == (size_t)R * C;
        for (int i = 0; ok && i < R; i++) for (int j = 0; j < C; j++) ok = ok && f[k++] == im[i][j];
        if (!ok) ctx.violation("flatten", strf("%zu values of %d", f.size(), R * C));
        ctx.count["transposed"]++;
    } else if (what == 6) {  // arange
        double a = r.chance(0.5) ? r.range(-20, 20) : r.uni(-20, 20), st = r.chance(0.4) ? 1 : r.chance(0.5) ? r.pick({0.5, 0.25, 2.0, 3.0}) : r.uni(0.01, 5);
        double b = r.chance(0.5) ? r.range(-25, 60) : r.uni(-25, 60);
        ctx.desc(strf("arange %.17g %.17g %.17g", a, b, st));
        std::valarray<double> g = st == 1 && r.chance(0.5) ? arange(a, b) : arange(a, b, st);
        double q = (b - a) / st; long n = q <= 0 ? 0 : (long)std::ceil(q);
        if (q > 0 && std::fabs(q - std::round(q)) < 1e-9 && !(a == std::floor(a * 4) / 4 && b == std::floor(b * 4) / 4 && st == std::floor(st * 4) / 4)) n = (long)g.size();  // rounding decides
        if ((long)g.size() != n) ctx.violation("arange-size", strf("%zu members, expected %ld", g.size(), n));
        for (size_t i = 0; i < g.size(); i++) if (!(std::fabs(g[i] - (a + st * i)) <= 1e-10)) { ctx.violation("arange", strf("member %zu is %.17g", i, g[i])); break; }
        ctx.count["ranges"]++;
    } else if (what == 7) {  // clamp
        for (int i = 0; i < 20; i++) {
            double lo = any_value(r), hi = any_value(r), x = r.chance(0.3) ? lo : r.chance(0.3) ? hi : any_value(r);
            if (lo > hi) std::swap(lo, hi);
            double c = clamp(x, lo, hi);
            ctx.desc(strf("clamp %.17g to %.17g..%.17g", x, lo, hi));
            if (!(c >= lo && c <= hi) || clamp(c, lo, hi) != c || (x >= lo && x <= hi && c != x) || (x < lo && c != lo) || (x > hi && c != hi)) ctx.violation("clamp", strf("%.17g", c));
            ctx.count["clamped"]++;
        }
    } else {  // elapsed time
        for (int i = 0; i < 20; i++) {
            struct timeval s, e;
            s.tv_sec = r.range(0, 2000000000); s.tv_usec = r.chance(0.2) ? r.pick({0, 1, 999999, 500000}) : r.range(0, 999999);
            e.tv_sec = s.tv_sec + (r.chance(0.6) ? r.range(0, 3) : r.range(0, 100000)); e.tv_usec = r.chance(0.2) ? r.pick({0, 1, 999999, 500000}) : r.range(0, 999999);
            long us = (long)(e.tv_sec - s.tv_sec) * 1000000L + (e.tv_usec - s.tv_usec);
            double g = gettimelapsed(s, e);
            ctx.desc(strf("elapsed %ld.%06ld to %ld.%06ld", (long)s.tv_sec, (long)s.tv_usec, (long)e.tv_sec, (long)e.tv_usec));
            if (!(std::fabs(g - us / 1e6) <= 1e-9 * (1 + std::fabs(us / 1e6)))) ctx.violation("elapsed", strf("%.9g s, true difference %.9g s", g, us / 1e6));
            ctx.count["elapsed"]++;
        }
    }
    ctx.nontrivial(hash_str(ctx.cur_desc));
    ctx.sample(ctx.cur_desc.substr(0, 200));
}
