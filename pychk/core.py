"""Shared parts of the Python checks: reporting, random models, the C++ reference."""
import ctypes, hashlib, json, os, random, sys, tempfile
import numpy as np


class Ctx:
    def __init__(self, prop, tier, seed, out, marker):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.out = open(out, "w") if out else None
        self.marker = os.open(marker, os.O_CREAT | os.O_TRUNC | os.O_RDWR, 0o644) if marker else -1
        self.count, self.distinct, self.samples = {}, set(), []
        self.evaluations = self.violations = 0
        self.case, self.text, self.per_key = -1, "", {}

    def begin(self, i):
        self.case, self.text = i, ""
        self.evaluations += 1
        if self.marker >= 0:
            os.pwrite(self.marker, ("%-20d\n" % i).encode(), 0)

    def add(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def desc(self, s):
        self.text = s

    def nontrivial(self, *a):
        self.distinct.add(hashlib.sha1(repr(a).encode()).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s[:500])

    def bad(self, key, msg):
        self.violations += 1
        self.per_key[key] = self.per_key.get(key, 0) + 1
        if self.per_key[key] > 3:
            return
        d = {"type": "violation", "key": key, "case": self.case, "desc": self.text[:3000], "msg": msg[:3000]}
        if self.out:
            self.out.write(json.dumps(d) + "\n")
            self.out.flush()
        print("VIOL [%s] case %d: %s\n   %s" % (key, self.case, msg[:1500], self.text[:1500]), file=sys.stderr)

    def finish(self):
        if self.out:
            self.out.write(json.dumps({"type": "stats", "evaluations": self.evaluations, "violations": self.violations,
                                       "counters": self.count, "samples": self.samples, "distinct": sorted(self.distinct)}) + "\n")
            self.out.write('{"type": "end"}\n')
            self.out.close()


class Rng(random.Random):
    def loguni(self, a, b):
        return float(np.exp(self.uniform(np.log(a), np.log(b))))

    def chance(self, p):
        return self.random() < p

    def pick(self, *l):
        return l[self.randrange(len(l))]


class Capture:
    """Everything written to file descriptor 1, by C or by Python."""

    def __enter__(self):
        sys.stdout.flush()
        self.lib = ctypes.CDLL(None)
        self.lib.fflush(None)
        self.f = tempfile.TemporaryFile()
        self.saved = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        self.lib.fflush(None)
        os.dup2(self.saved, 1)
        os.close(self.saved)
        self.f.seek(0, 2)
        self.total = self.f.tell()
        self.f.seek(0)
        self.text = self.f.read(1500).decode(errors="replace")
        self.f.close()


# ---------------------------------------------------------------- the C++ library, not through interface.cpp
_lib = None


def reference(image, par, ser, wins, neg, n_it):
    """n_it None: add, otherwise remove; par and ser are flat models or None."""
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["VERIF_CABI"], mode=os.RTLD_LOCAL | os.RTLD_NOW)
    im = np.array(image, dtype=np.float64, order="C")
    D = ctypes.POINTER(ctypes.c_double)
    p = np.array(par, dtype=np.float64) if par is not None else None
    s = np.array(ser, dtype=np.float64) if ser is not None else None
    w = np.array(wins, dtype=np.float64)
    _lib.cabi_cti(im.ctypes.data_as(D), im.shape[0], im.shape[1], p.ctypes.data_as(D) if p is not None else None,
                  s.ctypes.data_as(D) if s is not None else None, w.ctypes.data_as(D), int(neg), -1 if n_it is None else n_it)
    return im


def ref_volume(full, notch, power, fef, n):
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["VERIF_CABI"], mode=os.RTLD_LOCAL | os.RTLD_NOW)
    _lib.cabi_volume.restype = ctypes.c_double
    return _lib.cabi_volume(*[ctypes.c_double(x) for x in (full, notch, power, fef, n)])


def show(o):
    return "%s(%s)" % (type(o).__name__, ", ".join(
        "%s=%s" % (k, np.array2string(v, threshold=20) if isinstance(v, np.ndarray) else [show(x) for x in v] if isinstance(v, list) else "%.9g" % v)
        for k, v in sorted(vars(o).items())))
