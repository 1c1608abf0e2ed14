// Independent reference model of the trap physics and of the clocking algorithm.
//
// Traps: for each species a piecewise-constant occupancy as a function of depth (fractional
// volume) in the pixel, kept as sorted breakpoints.  No watermark bookkeeping, no capacity,
// no index arithmetic shared with the implementation.
#pragma once
#include <algorithm>
#include <cmath>
#include <functional>
#include <valarray>
#include <vector>
#include "rng.hpp"

#include "ccd.hpp"
#include "roe.hpp"
#include "traps.hpp"

namespace ref {

struct Well {
    double full, notch, power, fef;
    double volume(double n) const {
        if (n <= 0) return fef;
        double x = (n - notch) / (full - notch);
        if (x < 0) x = 0;
        if (x > 1) x = 1;
        return fef + (1 - fef) * std::pow(x, power);
    }
};

enum Kind { IC = 0, SC = 1, ICCO = 2, SCCO = 3 };

struct Species {
    double density = 0;  // density of uniformly exposed traps, already shared among phases
    double tau = 1;      // release time
    double tauc = 0;     // capture time (SC, SCCO)
    double sigma = 0;    // spread (ICCO, SCCO)
    double none = 0, full = 0;  // exposure thresholds (IC)
    // Continuous distributions: the tabulated functions
    std::function<double(double)> F;    // fill fraction from time
    std::function<double(double)> T;    // time from fill fraction
    std::function<double(double)> Fcap; // fill fraction after slow capture, from time
    // integral of the exposed fraction from 0 to v
    double E(double v) const {
        if (full == 0) return v;
        if (v <= none) return 0;
        if (none == full) return v - full;
        if (v <= full) return 0.5 * (v - none) * (v - none) / (full - none);
        return 0.5 * (full - none) + (v - full);
    }
};

struct Seg {
    double hi;
    std::vector<double> f;
};

struct Traps {
    Kind kind;
    Well well;
    double dwell;
    std::vector<Species> sp;
    std::vector<Seg> segs, stored;
    // observation
    double last_released = 0, last_cap = 0;
    bool not_enough = false;
    double fill_scale = 0;  // largest possible content

    void reset() { segs.clear(); }
    void store() { stored = segs; }
    void restore() { segs = stored; }

    double exposed(int s, double lo, double hi) const { return sp[s].E(hi) - sp[s].E(lo); }

    // electrons held
    double held() const {
        double tot = 0, lo = 0;
        for (auto& g : segs) {
            for (size_t s = 0; s < sp.size(); s++) tot += g.f[s] * exposed(s, lo, g.hi);
            lo = g.hi;
        }
        return tot;
    }
    double capacity() const {
        double c = 0;
        for (size_t s = 0; s < sp.size(); s++) c += sp[s].density * exposed(s, 0, 1);
        return c;
    }
    double fill_at(int s, double v) const {
        for (auto& g : segs)
            if (v < g.hi) return g.f[s];
        return 0;
    }
    // make a boundary at v; all segments with hi <= v are "below"
    void split(double v) {
        if (v <= 0) return;
        double lo = 0;
        for (size_t i = 0; i < segs.size(); i++) {
            if (segs[i].hi == v) return;
            if (v < segs[i].hi) {
                Seg g = segs[i];
                g.hi = v;
                if (v > lo) segs.insert(segs.begin() + i, g);
                return;
            }
            lo = segs[i].hi;
        }
        Seg g; g.hi = v; g.f.assign(sp.size(), 0.0);
        segs.push_back(g);
    }
    // merge neighbours with identical fills, to keep the list short
    void tidy() {
        for (size_t i = 0; i + 1 < segs.size();) {
            if (segs[i].f == segs[i + 1].f) { segs.erase(segs.begin() + i); }
            else i++;
        }
    }
    double release_one(int s, double f) const {
        const Species& q = sp[s];
        if (q.density == 0) return 0;
        if (kind == IC || kind == SC) return f - f * (1.0 - std::exp(-dwell / q.tau));
        const double t = q.T(f / q.density);   // beyond all numbers for traps that do not release at all
        return std::isinf(t) ? f : q.density * q.F(t + dwell);
    }
    double relax_one(int s, double f) const {  // slow capture within the cloud
        const Species& q = sp[s];
        if (q.density == 0) return 0;
        if (kind == SC) {
            if (q.tauc == 0) return q.density;   // captures instantly, and again what it releases
            double rr = 1.0 / q.tau, rc = 1.0 / q.tauc;
            double tot = rr + rc, x = (1 - std::exp(-tot * dwell)) / tot;
            double pe = rc * x, pf = 1.0 - rr * x;
            return pf * f + pe * (q.density - f);
        }
        return q.density * q.Fcap(q.T(f / q.density));
    }

    // n: free electrons; returns released minus captured
    double interact(double n) {
        last_released = last_cap = 0; not_enough = false;
        if (kind == IC || kind == ICCO) {
            double rel = 0, lo = 0;
            for (auto& g : segs) {
                for (size_t s = 0; s < sp.size(); s++) {
                    double nf = release_one(s, g.f[s]);
                    rel += (g.f[s] - nf) * exposed(s, lo, g.hi);
                    g.f[s] = nf;
                }
                lo = g.hi;
            }
            last_released = rel;
            n += rel;
            double V = well.volume(n);
            if (V == 0 || n <= 0) return rel;
            split(V);
            double cap = 0; lo = 0;
            for (auto& g : segs) {
                if (g.hi > V) break;
                for (size_t s = 0; s < sp.size(); s++)
                    cap += (sp[s].density - g.f[s]) * exposed(s, lo, g.hi);
                lo = g.hi;
            }
            if (cap == 0 && n == 0) return rel;
            double enough = std::fabs(n / cap);
            if (enough >= 1) {
                for (auto& g : segs) {
                    if (g.hi > V) break;
                    for (size_t s = 0; s < sp.size(); s++) g.f[s] = sp[s].density;
                }
            } else {
                not_enough = true;
                for (auto& g : segs) {
                    if (g.hi > V) break;
                    for (size_t s = 0; s < sp.size(); s++)
                        g.f[s] = g.f[s] * (1 - enough) + enough * sp[s].density;
                }
                cap *= enough;
            }
            last_cap = cap;
            tidy();
            return rel - cap;
        }
        // slow capture
        double V0 = well.volume(n), rel = 0, lo = 0;
        split(V0);
        for (auto& g : segs) {
            if (g.hi > V0)
                for (size_t s = 0; s < sp.size(); s++) {
                    double nf = release_one(s, g.f[s]);
                    rel += (g.f[s] - nf) * (g.hi - lo);
                    g.f[s] = nf;
                }
            lo = g.hi;
        }
        last_released = rel;
        n += rel;
        double V1 = well.volume(n);
        if (V1 == 0) return rel;
        split(V1);
        double d = 0; lo = 0;
        std::vector<std::vector<double>> nf;
        for (auto& g : segs) {
            if (g.hi > V1) break;
            nf.emplace_back(sp.size());
            for (size_t s = 0; s < sp.size(); s++) {
                nf.back()[s] = relax_one(s, g.f[s]);
                d += (g.f[s] - nf.back()[s]) * (g.hi - lo);
            }
            lo = g.hi;
        }
        double enough = d < 0 ? std::max(n, 0.0) / -d : 1.0;
        if (enough < 1) not_enough = true;
        for (size_t i = 0; i < nf.size(); i++)
            for (size_t s = 0; s < sp.size(); s++)
                segs[i].f[s] = enough < 1 ? enough * nf[i][s] + (1 - enough) * segs[i].f[s] : nf[i][s];
        if (enough < 1) d *= enough;
        last_cap = -d;
        tidy();
        return rel + d;
    }
};

// ---------------------------------------------------------------------------------------
// Readout electronics

struct RoeCfg {
    int type = 0;  // 0 standard, 1 injection, 2 pumping
    std::vector<double> dwell = {1.0};
    int prescan = 0, overscan = -1;
    bool empty_columns = true, empty_first = false, away = true, integer = false;
    int n_pumps = 1;
    int n_steps() const { return (int)dwell.size(); }
    int n_phases() const { return type == 2 ? n_steps() / 2 : n_steps(); }
};

struct StepPhase {
    bool high = false;
    std::vector<int> from, to;
    std::vector<double> share;
};

// Clock sequence from geometry: charge of pixel q sits, at step s, in one phase ("high") of some
// pixel; released electrons go to the nearest high phase, ties shared equally.
// Positions are counted in phases along the direction AWAY from readout: pixel p phase i is at
// x = p*P - i (phase 0 furthest from readout, higher phases nearer).
inline std::vector<std::vector<StepPhase>> clock_sequence(const RoeCfg& r) {
    int P = r.n_phases(), S = r.n_steps();
    std::vector<std::vector<StepPhase>> seq(S, std::vector<StepPhase>(P));
    for (int s = 0; s < S; s++) {
        // the cloud of pixel q is at phase index h counted continuously from phase 0 of pixel q:
        // h in 0..P ; h==P means phase 0 of pixel q-1.
        int h = s;
        if (r.type == 2 && s > P) h = 2 * P - s;
        // clouds at positions x_q = q*P - h
        for (int i = 0; i < P; i++) {
            StepPhase& sp = seq[s][i];
            int x = -i;  // this phase, pixel 0
            // nearest clouds
            int best = 1 << 30;
            for (int q = -3; q <= 3; q++) best = std::min(best, std::abs(q * P - h - x));
            for (int q = -3; q <= 3; q++)
                if (std::abs(q * P - h - x) == best) sp.to.push_back(q);
            for (size_t k = 0; k < sp.to.size(); k++) sp.share.push_back(1.0 / sp.to.size());
            sp.high = best == 0;
            if (sp.high) sp.from = sp.to;
            // forbid moves towards readout: the phases nearer to readout than the cloud of their
            // own pixel act for the following pixel instead
            int hp = h % P;
            if (r.away && i > hp) {
                for (auto& q : sp.from) q += 1;
                for (auto& q : sp.to) q += 1;
            }
        }
    }
    return seq;
}

struct Express {
    int n_passes = 0, n_rows = 0;
    std::vector<double> m;          // n_passes x n_rows
    std::vector<char> store;
    bool ambiguous = false;         // rounding decides a schedule: not judged
    double at(int e, int r) const { return m[(size_t)e * n_rows + r]; }
};

// Standard readout without separate first transfers and without offsets folded in:
// multipliers for n transfers in k passes: pass e takes transfers (e*q, (e+1)*q]
inline Express express_matrix(const RoeCfg& r, int n_rows, int express, int window_offset) {
    Express X; X.n_rows = n_rows;
    auto standard = [](int n_rows, int express, int offset, int overscan_in, bool first, bool integer,
                       int& passes, bool& amb, std::vector<char>* firsts) {
        int nt = n_rows + offset;
        int k = express == 0 ? nt : std::min(express, nt);
        // with separate first transfers, the rest are spread over the k passes
        bool sep = first && k < n_rows;     // row count excludes the first transfer
        int n = sep ? nt - 1 : nt;
        double q = (double)n / k;
        if (integer) q = std::ceil(q);
        std::vector<std::vector<double>> base(k, std::vector<double>(n));
        for (int e = 0; e < k; e++)
            for (int i = 0; i < n; i++) {
                double v = (i + 1) - e * q;
                if (std::fabs(v) < 1e-9 && v != 0) amb = true;
                base[e][i] = std::min(std::max(v, 0.0), q);
            }
        std::vector<std::vector<double>> M;
        if (first && k >= nt) {
            for (int e = k - 1; e >= 0; e--) M.push_back(base[e]);
            n = (int)(M.empty() ? 0 : M[0].size());
        } else if (first) {
            int N = n + 1;
            M.assign(N, std::vector<double>(N, 0.0));
            for (int e = 0; e < N; e++) M[e][N - 1 - e] = 1;
            for (int e = 0; e < k; e++) {
                int nz = 0;
                for (double v : base[e]) if (v > 0) nz++;
                for (int i = 0; i < n; i++) M[nz][i + 1] += base[e][i];
            }
            n = N;
        } else M = base;
        passes = (int)M.size();
        std::vector<std::vector<double>> R(passes, std::vector<double>(n_rows));
        for (int e = 0; e < passes; e++)
            for (int i = 0; i < n_rows; i++) R[e][i] = M[e][i + offset];
        // virtual overscan: the last pixels undergo fewer transfers; take them off the last passes
        for (int i = 0; i < overscan_in && i < n_rows; i++) {
            double rem = overscan_in - i;
            int row = n_rows - 1 - i;
            for (int e = passes - 1; e >= 0 && rem > 0; e--) {
                double t = std::min(rem, R[e][row]);
                R[e][row] -= t; rem -= t;
                if (R[e][row] < 1e-9 && R[e][row] != 0) { amb = true; }
            }
            if (rem > 1e-9) amb = true;
        }
        (void)firsts;
        return R;
    };
    std::vector<std::vector<double>> R;
    bool amb = false; int passes = 0;
    if (r.type == 0) {
        int over = r.overscan >= 0 ? std::max(n_rows + window_offset + 1 - r.overscan, 0) : 0;
        R = standard(n_rows, express, window_offset + r.prescan, over, r.empty_first, r.integer, passes, amb, nullptr);
    } else if (r.type == 1) {
        int n = r.prescan + window_offset + n_rows;
        if (r.overscan >= 0) n = r.prescan + r.overscan - 1;
        int k = express == 0 ? n : std::min(express, n);
        double q = (double)n / k;
        if (r.integer) q = std::ceil(q);
        double left = n;
        for (int e = 0; e < k; e++) {
            double v = r.integer ? std::min(q, left) : q;
            if (v < 0) v = 0;
            left -= v;
            R.push_back(std::vector<double>(n_rows, v));
        }
        passes = k;
    } else {
        int k = express == 0 ? r.n_pumps : std::min(express, r.n_pumps);
        int p0 = 0;
        // the multipliers of the furthest of n_pumps pixels
        std::vector<std::vector<double>> S =
            standard(r.n_pumps, k, window_offset, 0, r.empty_first, r.integer, p0, amb, nullptr);
        std::vector<double> col;
        for (auto& row : S) col.push_back(row[r.n_pumps - 1]);
        if (r.empty_first && k < r.n_pumps) {
            std::vector<double> c2;
            for (double v : col) if (v != 0) c2.push_back(v);
            while ((int)c2.size() < k + 1) c2.push_back(0.0);
            col = c2;
        }
        for (double v : col) R.push_back(std::vector<double>(n_rows, v));
        passes = (int)col.size();
    }
    X.n_passes = passes; X.ambiguous = amb;
    for (auto& row : R) X.m.insert(X.m.end(), row.begin(), row.end());
    X.store.assign(X.m.size(), 0);
    if (r.type == 0 && !r.empty_first) {
        for (int e = 0; e + 1 < passes; e++) {
            int row = 0;
            while (row < n_rows - 1 && !(R[e + 1][row + 1] > 0)) row++;
            X.store[(size_t)e * n_rows + row] = 1;
        }
    } else if (r.type == 2) {
        for (int e = 0; e + 1 < passes; e++)
            for (int i = 0; i < n_rows; i++) X.store[(size_t)e * n_rows + i] = R[e][i] != 0;
    }
    return X;
}

typedef std::vector<std::vector<double>> Img;

struct Stats {
    unsigned long long interactions = 0, not_enough = 0, edge_skips = 0;
    size_t max_segs = 0;
    double moved = 0;
    double min_pix = 0;
};

struct Model {  // one clocking direction
    RoeCfg roe;
    std::vector<Well> wells;
    std::vector<double> frac;
    std::vector<Species> t[4];  // undivided densities
    int express = 0, offset = 0, r0 = 0, r1 = -1, c0 = 0, c1 = -1;
    bool have_traps() const { return t[0].size() + t[1].size() + t[2].size() + t[3].size() > 0; }
};

// prepare(kind, species, phase) may attach the tabulated functions
// when set, sums of charge are perturbed by their rounding error, to see where it matters
inline Rng*& jitter() { static Rng* j = nullptr; return j; }

// when set, a step lasts its own dwell time for the traps of every phase
inline bool& time_of_step() { static bool b = false; return b; }

inline Img clock(const Img& in, const Model& m, bool allow_negative, Stats& st, bool& ambiguous,
                 std::vector<std::vector<double>>* held_after_pass = nullptr) {
    Img im = in;
    int R = (int)in.size(), C = (int)in[0].size();
    int r0 = m.r0, r1 = m.r1 == -1 ? R : m.r1, c0 = m.c0, c1 = m.c1 == -1 ? C : m.c1;
    Express X = express_matrix(m.roe, R, m.express, m.offset);
    if (X.ambiguous) ambiguous = true;
    auto seq = clock_sequence(m.roe);
    int P = m.roe.n_phases(), S = m.roe.n_steps();
    // [phase][kind]
    std::vector<std::vector<Traps>> tr(P, std::vector<Traps>(4));
    for (int p = 0; p < P; p++)
        for (int k = 0; k < 4; k++) {
            Traps& T = tr[p][k];
            T.kind = (Kind)k; T.well = m.wells[p]; T.dwell = m.roe.dwell[p]; T.sp = m.t[k];
            for (auto& s : T.sp) s.density *= m.frac[p];
        }
    for (int c = c0; c < c1; c++) {
        for (int e = 0; e < X.n_passes; e++) {
            for (auto& a : tr) for (auto& T : a) T.restore();
            for (int row = r0; row < r1; row++) {
                double w = X.at(e, row);
                if (w == 0) continue;  // nothing happens to a pixel already read out
                for (int s = 0; s < S; s++)
                    for (int p = 0; p < P; p++) {
                        const StepPhase& q = seq[s][p];
                        double n = 0;
                        for (int d : q.from)
                            if (row + d >= 0 && row + d < R) n += im[row + d][c];
                            else st.edge_skips++;
                        double x = 0, mag = 0;
                        for (int k = 0; k < 4; k++)
                            if (!tr[p][k].sp.empty()) {
                                if (time_of_step()) tr[p][k].dwell = m.roe.dwell[s];
                                double err = jitter() && mag > 0 ? (mag + std::fabs(n)) * 4e-16 * jitter()->uni(-1, 1) : 0;
                                x += tr[p][k].interact(n + x + err);
                                mag += tr[p][k].last_released + std::fabs(tr[p][k].last_cap);
                                st.interactions++;
                                st.not_enough += tr[p][k].not_enough;
                                st.max_segs = std::max(st.max_segs, tr[p][k].segs.size());
                            }
                        st.moved += std::fabs(x);
                        for (size_t j = 0; j < q.to.size(); j++) {
                            int d = q.to[j];
                            if (row + d >= 0 && row + d < R) {
                                double& v = im[row + d][c];
                                v += x * w * q.share[j];
                                if (v < st.min_pix) st.min_pix = v;
                                if (!allow_negative && v < 0) v = 0;
                            } else st.edge_skips++;
                        }
                    }
                if (X.store[(size_t)e * R + row])
                    for (auto& a : tr) for (auto& T : a) T.store();
            }
            if (held_after_pass) {
                double h = 0;
                for (auto& a : tr) for (auto& T : a) h += T.held();
                held_after_pass->push_back({(double)c, (double)e, h});
            }
        }
        if (m.roe.empty_columns) for (auto& a : tr) for (auto& T : a) T.reset();
        for (auto& a : tr) for (auto& T : a) T.store();
    }
    return im;
}
}  // namespace ref
