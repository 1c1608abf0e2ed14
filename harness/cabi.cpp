// A flat C interface to the library for the Python checks, written apart from the repository's own
// (python/arcticpy/src/interface.cpp), so that the two can be compared.
#include <valarray>
#include <memory>
#include <vector>
#include "cti.hpp"
#include "trap_managers.hpp"
#include "read_noise.hpp"
#include "util.hpp"
#undef error

struct M {
    std::unique_ptr<ROE> roe; std::unique_ptr<CCD> ccd; std::valarray<double> dwell;
    std::valarray<TrapInstantCapture> a; std::valarray<TrapSlowCapture> b;
    std::valarray<TrapInstantCaptureContinuum> c; std::valarray<TrapSlowCaptureContinuum> d;
    int express, offset, w0, w1, t0, t1, pf; double pn;
};
// type prescan overscan empty_columns empty_first away integer n_pumps n_steps dwell.. n_phases (frac full notch
// power fef).. then for each of the four trap kinds: n (4 numbers).. then express offset w0 w1 t0 t1 prune_n prune_f
static std::unique_ptr<M> parse(const double* p) {
    std::unique_ptr<M> m(new M);
    int type = p[0], pre = p[1], over = p[2]; bool ec = p[3], ef = p[4], aw = p[5], in = p[6]; int np = p[7], ns = p[8];
    p += 9;
    m->dwell = std::valarray<double>(p, ns); p += ns;
    if (type == 0) m->roe.reset(new ROE(m->dwell, pre, over, ec, ef, aw, in));
    else if (type == 1) m->roe.reset(new ROEChargeInjection(m->dwell, pre, over, ec, aw, in));
    else m->roe.reset(new ROETrapPumping(m->dwell, np, ef, in));
    int n = *p++;
    std::valarray<CCDPhase> ph(n); std::valarray<double> fr(n);
    for (int i = 0; i < n; i++, p += 5) { fr[i] = p[0]; ph[i] = CCDPhase(p[1], p[2], p[3], p[4]); }
    m->ccd.reset(new CCD(ph, fr));
    std::vector<TrapInstantCapture> a; std::vector<TrapSlowCapture> b; std::vector<TrapInstantCaptureContinuum> c; std::vector<TrapSlowCaptureContinuum> d;
    n = *p++; for (int i = 0; i < n; i++, p += 4) a.emplace_back(p[0], p[1], p[2], p[3]);
    n = *p++; for (int i = 0; i < n; i++, p += 4) b.emplace_back(p[0], p[1], p[2]);
    n = *p++; for (int i = 0; i < n; i++, p += 4) c.emplace_back(p[0], p[1], p[2]);
    n = *p++; for (int i = 0; i < n; i++, p += 4) d.emplace_back(p[0], p[1], p[2], p[3]);
    if (a.size()) m->a = std::valarray<TrapInstantCapture>(a.data(), a.size());
    if (b.size()) m->b = std::valarray<TrapSlowCapture>(b.data(), b.size());
    if (c.size()) m->c = std::valarray<TrapInstantCaptureContinuum>(c.data(), c.size());
    if (d.size()) m->d = std::valarray<TrapSlowCaptureContinuum>(d.data(), d.size());
    m->express = p[0]; m->offset = p[1]; m->w0 = p[2]; m->w1 = p[3]; m->t0 = p[4]; m->t1 = p[5]; m->pn = p[6]; m->pf = p[7];
    return m;
}
extern "C" {
// n_it < 0: add; otherwise remove
void cabi_cti(double* im, int R, int C, const double* par, const double* ser, const double* wins, int neg, int n_it) {
    set_verbosity(0);
    std::valarray<std::valarray<double> > v(std::valarray<double>(0.0, C), R);
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) v[i][j] = im[i * C + j];
    std::unique_ptr<M> p = par ? parse(par) : nullptr, s = ser ? parse(ser) : nullptr;
    // the windows of a direction with no traps still restrict the other one
    int pw0 = p ? p->w0 : (int)wins[0], pw1 = p ? p->w1 : (int)wins[1], sw0 = s ? s->w0 : (int)wins[2], sw1 = s ? s->w1 : (int)wins[3];
#define P(x) (p ? &p->x : nullptr)
#define S(x) (s ? &s->x : nullptr)
    ROE* pr = p ? p->roe.get() : nullptr; CCD* pc = p ? p->ccd.get() : nullptr;
    ROE* sr = s ? s->roe.get() : nullptr; CCD* sc = s ? s->ccd.get() : nullptr;
    auto out = n_it < 0
        ? add_cti(v, pr, pc, P(a), P(b), P(c), P(d), p ? p->express : 0, p ? p->offset : 0, pw0, pw1, p ? p->t0 : 0, p ? p->t1 : -1,
                  p ? p->pn : 1e-10, p ? p->pf : 20, sr, sc, S(a), S(b), S(c), S(d), s ? s->express : 0, s ? s->offset : 0, sw0, sw1,
                  s ? s->t0 : 0, s ? s->t1 : -1, s ? s->pn : 1e-10, s ? s->pf : 20, neg, 0, 0)
        : remove_cti(v, n_it, pr, pc, P(a), P(b), P(c), P(d), p ? p->express : 0, p ? p->offset : 0, pw0, pw1, p ? p->t0 : 0, p ? p->t1 : -1,
                  p ? p->pn : 1e-10, p ? p->pf : 20, sr, sc, S(a), S(b), S(c), S(d), s ? s->express : 0, s ? s->offset : 0, sw0, sw1,
                  s ? s->t0 : 0, s ? s->t1 : -1, s ? s->pn : 1e-10, s ? s->pf : 20, neg);
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) im[i * C + j] = out[i][j];
}
double cabi_volume(double full, double notch, double power, double fef, double n) {
    CCDPhase ph(full, notch, power, fef); return ph.cloud_fractional_volume_from_electrons(n);
}
}
