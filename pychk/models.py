"""Random models, as arcticpy objects and as the flat arrays of the C++ reference."""
import numpy as np
import arcticpy as ac


def make(r, cls, defaults, **kw):
    """cls(**kw), now and then without the arguments whose values are the documented defaults."""
    if r is not None:
        for k in list(kw):
            if k in defaults and np.array_equal(np.asarray(kw[k]), np.asarray(defaults[k])) and r.chance(0.6):
                del kw[k]
    return cls(**kw)


ROE_DEFAULTS = dict(prescan_offset=0, overscan_start=-1, empty_traps_between_columns=True, empty_traps_for_first_transfers=False,
                    force_release_away_from_readout=True, use_integer_express_matrix=False, n_pumps=1)
WELL_DEFAULTS = dict(full_well_depth=1e4, well_notch_depth=0.0, well_fill_power=1.0, first_electron_fill=0.0)
TRAP_DEFAULTS = dict(density=1.0, release_timescale=1.0, fractional_volume_none_exposed=0.0, fractional_volume_full_exposed=0.0,
                     capture_timescale=0.0, release_timescale_sigma=0.0)


class Model:
    """One direction: objects, options, and the numbers they stand for."""

    def __init__(self, r, n_rows, kind=None, cont=0.06, multi=True):
        self.type = r.pick(0, 0, 0, 1) if kind is None else kind
        P = 1 if not multi or r.chance(0.6) else r.randint(2, 4)
        S = 2 * P if self.type == 2 else P
        d = 1.0 if r.chance(0.5) else r.loguni(1e-3, 1e2)
        if r.chance(0.15) and self.type == 2:
            d = 0.5
        self.dwell = [d] * S
        want = [r.chance(0.6), r.chance(0.45), r.chance(cont), r.chance(cont)]
        if not any(want):
            want[0] = True
        if not (want[2] or want[3]) and r.chance(0.3):
            self.dwell = [d * r.uniform(0.5, 2) for _ in range(S)]
        self.prescan = r.randint(1, 5) if self.type != 2 and r.chance(0.3) else 0
        self.overscan = r.randint(1, n_rows + 6) if self.type != 2 and r.chance(0.25) else -1
        self.empty_columns = True if self.type == 2 else not r.chance(0.3)
        self.empty_first = self.type != 1 and r.chance(0.4)
        self.away = self.type != 2 and not r.chance(0.3)
        self.integer = r.chance(0.3)
        self.n_pumps = r.randint(1, 8)
        self.wells = []
        for i in range(P):
            full = r.loguni(50, 1e5)
            self.wells.append([full, full * r.loguni(1e-3, 0.3) if r.chance(0.35) else 0.0, 1.0 if r.chance(0.3) else r.uniform(0.2, 1.5),
                               r.loguni(1e-3, 0.3) if r.chance(0.15) else 0.0])
        if r.chance(0.06):
            self.wells[0] = [1e4, 0.0, 1.0, 0.0]
        f = np.array([r.uniform(0.1, 1) for _ in range(P)])
        self.frac = list(f / f.sum()) if P > 1 else [1.0]
        self.full = max(w[0] for w in self.wells)
        self.species = []   # (kind, density, release, third, fourth) as the library's constructors take them
        for k in range(4):
            for _ in range(r.randint(1, 3) if k < 2 else 2 if r.chance(0.3) else 1):
                same = [s for s in self.species if s[0] == k]
                if want[k] and same and r.chance(0.3):
                    # the last of its kind again, as it is or with another density
                    self.species.append(same[-1][:1] + (r.pick(same[-1][1], r.loguni(0.1, 30)),) + same[-1][2:])
                elif want[k]:
                    rho, tau = r.loguni(0.1, 30), d * r.loguni(0.1, 60)
                    if r.chance(0.06):
                        rho = 1.0
                    if r.chance(0.06):
                        tau = 1.0
                    if k == 0:
                        a = b = 0.0
                        if r.chance(0.25):
                            a, b = r.uniform(0, 0.6), 0.0
                            b = r.uniform(a, 1.0)
                        self.species.append((0, rho, tau, a, b))
                    elif k == 1:
                        self.species.append((1, rho, tau, 0.0 if r.chance(0.04) else d * r.loguni(0.005, 10), 0.0))
                    elif k == 2:
                        self.species.append((2, rho, tau, r.pick(0.05, 0.1, 0.3, 0.5, 1.0), 0.0))
                    else:
                        self.species.append((3, rho, tau, r.pick(0.1, 0.3, 0.5), d * r.loguni(0.01, 5)))
        self.order = list(range(len(self.species)))
        r.shuffle(self.order)
        # options; None leaves the default
        self.express = r.randint(0, n_rows + 3) if not r.chance(0.2) else None
        if self.type == 2 and self.express is not None:
            self.express = r.randint(0, self.n_pumps + 2)
        self.offset = r.randint(1, 5) if r.chance(0.3) else None
        self.w0 = self.w1 = None
        self.pn = r.loguni(1e-10, 1) if r.chance(0.3) else r.loguni(1e-3, 30) if r.chance(0.3) else None
        self.pf = r.randint(0, 6) if r.chance(0.4) else r.pick(0, 10, 25) if r.chance(0.2) else None

    def objects(self, r=None):
        v = [v for k, v in enumerate(self.wells)]
        if len(v) == 1 and r is not None and r.chance(0.5):
            ccd = make(r, ac.CCD, {k: x for k, x in WELL_DEFAULTS.items() if k != "full_well_depth"},
                       full_well_depth=v[0][0], well_notch_depth=v[0][1], well_fill_power=v[0][2], first_electron_fill=v[0][3])
        elif len(v) == 1 and r is not None and v[0] == [1e4, 0.0, 1.0, 0.0] and r.chance(0.5):
            ccd = ac.CCD()
        else:
            ph = [ac.CCDPhase(*w) if r is None or r.chance(0.5) else make(r, ac.CCDPhase, WELL_DEFAULTS, **dict(zip(WELL_DEFAULTS, w))) for w in v]
            ccd = make(r, ac.CCD, dict(fraction_of_traps_per_phase=[1.0]), phases=ph, fraction_of_traps_per_phase=self.frac)
        dw = self.dwell if r is None or r.chance(0.5) else np.array(self.dwell)
        if self.type == 0:
            roe = make(r, ac.ROE, dict(ROE_DEFAULTS, dwell_times=[1.0]), dwell_times=dw, prescan_offset=self.prescan, overscan_start=self.overscan, empty_traps_between_columns=self.empty_columns,
                         empty_traps_for_first_transfers=self.empty_first, force_release_away_from_readout=self.away,
                         use_integer_express_matrix=self.integer)
        elif self.type == 1:
            roe = make(r, ac.ROEChargeInjection, dict(ROE_DEFAULTS, dwell_times=[1.0]), dwell_times=dw, prescan_offset=self.prescan, overscan_start=self.overscan,
                                        empty_traps_between_columns=self.empty_columns, force_release_away_from_readout=self.away,
                                        use_integer_express_matrix=self.integer)
        else:
            roe = make(r, ac.ROETrapPumping, dict(ROE_DEFAULTS, dwell_times=[0.5, 0.5]), dwell_times=dw, n_pumps=self.n_pumps, empty_traps_for_first_transfers=self.empty_first,
                                    use_integer_express_matrix=self.integer)
        traps = []
        for i in self.order:
            k, rho, tau, a, b = self.species[i]
            cls = (ac.TrapInstantCapture, ac.TrapSlowCapture, ac.TrapInstantCaptureContinuum, ac.TrapSlowCaptureContinuum)[k]
            names = (("fractional_volume_none_exposed", "fractional_volume_full_exposed"), ("capture_timescale",), ("release_timescale_sigma",),
                     ("release_timescale_sigma", "capture_timescale"))[k]
            v = (rho, tau, a, b)[:2 + len(names)]
            if r is None or r.chance(0.5):
                traps.append(cls(*v))
            else:
                traps.append(make(r, cls, TRAP_DEFAULTS, **dict(zip(("density", "release_timescale") + names, v))))
        return ccd, roe, traps

    def options(self, prefix):
        o = {"express": self.express, "window_offset": self.offset, "window_start": self.w0, "window_stop": self.w1,
             "prune_n_electrons": self.pn, "prune_frequency": self.pf}
        return {prefix + k: v for k, v in o.items() if v is not None}

    def flat(self):
        f = [self.type, self.prescan, self.overscan, self.empty_columns, self.empty_first, self.away, self.integer, self.n_pumps, len(self.dwell)]
        f += self.dwell + [len(self.wells)]
        for w, x in zip(self.wells, self.frac):
            f += [x] + w
        for k in range(4):
            s = [self.species[i] for i in self.order if self.species[i][0] == k]
            f.append(len(s))
            for q in s:
                f += list(q[1:])
        d = lambda v, x: x if v is None else v
        return f + [d(self.express, 0), d(self.offset, 0), d(self.w0, 0), d(self.w1, -1), 0, -1, d(self.pn, 1e-10), d(self.pf, 20)]

    def show(self):
        return "type=%d dwell=%s prescan=%d overscan=%d emptycol=%d first=%d away=%d int=%d pumps=%d wells=%s frac=%s traps=%s %s" % (
            self.type, self.dwell, self.prescan, self.overscan, self.empty_columns, self.empty_first, self.away, self.integer, self.n_pumps,
            self.wells, self.frac, [self.species[i] for i in self.order], self.options(""))


def gen_image(r, R, C, full):
    a = np.zeros((R, C))
    bg = full * r.loguni(1e-6, 0.1) if r.chance(0.4) else 0.0
    for j in range(C):
        k = r.randint(0, 4)
        for i in range(R):
            v = 0.0
            if k == 0 and r.chance(0.3) or k == 1:
                v = full * r.pick(0.0, 1.0, r.uniform(0, 1.3), r.loguni(1e-6, 1), r.loguni(1e-3, 1))
            elif k == 2 and i == R // 3:
                v = full * r.uniform(0.1, 1)
            elif k == 3:
                v = full * 0.9 * (R - i) / R
            elif k == 4 and i % 4 == 0:
                v = full * r.loguni(1e-3, 1)
            a[i, j] = v + bg
    return a


class Call:
    """A random call of add_cti or remove_cti."""

    def __init__(self, r, max_rows=10, max_cols=5, pumping=True, cont=0.05):
        self.R = 1 if r.chance(0.08) else r.randint(2, max_rows)
        self.C = 1 if r.chance(0.15) else r.randint(1, max_cols)
        # tall or wide enough for the default interval between prunings to matter
        big = r.randint(0, 9)
        if big == 0:
            self.R, self.C = r.randint(21, 50), min(self.C, 2)
        elif big == 1:
            self.C, self.R = r.randint(21, 50), min(self.R, 2)
        which = r.pick("p", "p", "s", "ps")
        self.par = Model(r, self.R, 2 if pumping and which == "p" and r.chance(0.25) else None, cont) if "p" in which else None
        self.ser = Model(r, self.C, None, cont) if "s" in which else None
        # windows
        self.wins = {}
        if self.par is not None and self.par.type == 2:
            a = r.randint(0, self.R - 1)
            self.wins["parallel_window_start"], self.wins["parallel_window_stop"] = a, a + 1
        elif r.chance(0.3):
            a = r.randint(0, self.R - 1)
            self.wins["parallel_window_start"] = a
            if r.chance(0.7):
                self.wins["parallel_window_stop"] = r.randint(a + 1, self.R)
        if r.chance(0.3):
            a = r.randint(0, self.C - 1)
            self.wins["serial_window_start"] = a
            if r.chance(0.7):
                self.wins["serial_window_stop"] = r.randint(a + 1, self.C)
        if self.par:
            self.par.w0, self.par.w1 = self.wins.get("parallel_window_start"), self.wins.get("parallel_window_stop")
        if self.ser:
            self.ser.w0, self.ser.w1 = self.wins.get("serial_window_start"), self.wins.get("serial_window_stop")
        self.image = gen_image(r, self.R, self.C, (self.par or self.ser).full)
        self.neg = None if r.chance(0.5) else r.pick(0, 1)

    def kwargs(self, r=None):
        k = dict(self.wins)
        self.objs = []
        for m, pre in ((self.par, "parallel_"), (self.ser, "serial_")):
            if m is not None:
                ccd, roe, traps = m.objects(r)
                k.update({pre + "ccd": ccd, pre + "roe": roe, pre + "traps": traps})
                k.update(m.options(pre))
                self.objs += [ccd, roe] + traps
        if self.neg is not None:
            k["allow_negative_pixels"] = self.neg
        return k

    def windows(self):
        w = self.wins
        return [w.get("parallel_window_start", 0), w.get("parallel_window_stop", -1), w.get("serial_window_start", 0), w.get("serial_window_stop", -1)]

    def flats(self):
        return self.par.flat() if self.par else None, self.ser.flat() if self.ser else None

    def show(self):
        return "%s%swindows=%s negative=%s image=%s" % ("parallel " + self.par.show() + " " if self.par else "", "serial " + self.ser.show() + " " if self.ser else "",
                                                       self.wins, self.neg, np.array2string(self.image, precision=6, threshold=60))
