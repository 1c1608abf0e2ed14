"""The Python side of the properties."""
import copy, os, re, subprocess, sys, tempfile
import numpy as np
from core import Capture, ref_volume, reference, show
from models import Call, Model, gen_image
import arcticpy as ac

PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


class Header(dict):
    def set(self, key, value=None, comment=None):
        self[key] = (value, comment)


# ---------------------------------------------------------------- C19
def as_kind(r, im):
    """The same numbers in another container; returns (argument, its numbers, kind)."""
    k = r.pick("float64", "float64", "fortran", "strided", "reversed", "float32", "int", "uint16", "uint8", "bigendian", "list", "readonly", "subclass", "bool", "transposed")
    if k == "fortran":
        return np.asfortranarray(im), im, k
    if k == "strided":
        b = np.full((im.shape[0] * 2, im.shape[1] * 3), -5.0)
        b[::2, ::3] = im
        return b[::2, ::3], im, k
    if k == "reversed":
        b = im[::-1, ::-1].copy()
        return b[::-1, ::-1], im, k
    if k == "transposed":
        return im.T.copy().T, im, k
    if k == "float32":
        a = im.astype(np.float32)
    elif k == "int":
        a = np.rint(im).astype(r.pick(np.int32, np.int64))
    elif k == "uint16":
        a = np.clip(np.rint(im), 0, 65535).astype(np.uint16)
    elif k == "uint8":
        a = np.clip(np.rint(im), 0, 255).astype(np.uint8)
    elif k == "bool":
        a = im > np.median(im)
    elif k == "bigendian":
        a = im.astype(">f8")
    elif k == "list":
        return [[float(v) for v in row] for row in im], im, k
    elif k == "readonly":
        a = im.copy()
        a.flags.writeable = False
    elif k == "subclass":
        a = ac.add_cti(im, verbosity=0)
    else:
        a = im.copy()
    return a, np.array(a, dtype=np.float64), k


def state(o):
    """A deep copy of what an object holds, for comparison."""
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(state(x) for x in o)
    if isinstance(o, dict):
        return tuple((k, state(v)) for k, v in sorted(o.items()))
    if hasattr(o, "__dict__"):
        return (type(o).__name__, id(o)) + tuple((k, state(v)) for k, v in sorted(vars(o).items()))
    return (type(o).__name__, o)


@prop
def C19(ctx, r, i):
    if i % 10 == 9:
        return c19_objects(ctx, r)
    c = Call(r)
    if c.par is not None and c.ser is not None and (c.par.type == 2 or c.ser.type == 2):
        c.par.type = 0
    image, numbers, kind = as_kind(r, c.image)
    rem = r.chance(0.3)
    n_it = r.randint(0, 3) if rem else None
    if rem and c.neg == 0 and n_it > 1:
        n_it = 1
    kw = c.kwargs(r)
    odd = r.randint(0, 9)
    par, ser = c.flats()
    if odd == 0 and "parallel_traps" in kw and "serial_traps" not in kw:
        kw["serial_traps"] = r.pick(None, [])
    if odd == 1 and "serial_traps" in kw and "parallel_traps" not in kw:
        kw["parallel_traps"] = r.pick(None, [])
    if odd == 2:
        kw["pixel_bounce_list"] = r.pick(None, [])
    if odd == 3:
        kw["header"] = Header(exptime=(100, None), cticor=r.pick(("no", None), ("ArCTIc", "CTI addition performed using ArCTIc"), ("ArCTIc", "CTI correction performed using ArCTIc")))
    if odd == 4:   # nothing to do
        for p in ("parallel_", "serial_"):
            if p + "traps" in kw:
                kw[p + "traps"] = r.pick(None, [])
        par = ser = None
    what = "remove_cti(%d)" % n_it if rem else "add_cti"
    ctx.desc("%s of %s image, odd=%d %s" % (what, kind, odd, c.show()))
    before = state([image, {k: v for k, v in kw.items() if k != "header"}])
    f = (lambda: ac.remove_cti(image, n_it, verbosity=0, **kw)) if rem else (lambda: ac.add_cti(image, verbosity=0, **kw))
    got = f()
    if state([image, {k: v for k, v in kw.items() if k != "header"}]) != before:
        ctx.bad("inputs", "%s changed the caller's image, list or model objects" % what)
    if not isinstance(got, np.ndarray) or got.shape != numbers.shape or got.dtype != np.float64:
        ctx.bad("type", "returned %s %s %s" % (type(got), getattr(got, "shape", None), getattr(got, "dtype", None)))
        return
    if odd == 3:
        h = kw["header"]
        word = "correction" if rem else "addition"
        ok = set(h) == {"exptime", "cticor", "ctipar"} and h["exptime"] == (100, None)
        if not ok or any(h[k][0] != "ArCTIc" or word not in (h[k][1] or "") for k in ("cticor", "ctipar")):
            ctx.bad("header", "after %s the header is %s" % (what, dict(h)))
        ctx.add("headers")
    want = reference(numbers, par, ser, c.windows(), 1 if c.neg is None else c.neg, n_it)
    g = np.asarray(got)
    tol = 1e-9 * (np.abs(want).max() + 1e-6) if rem else 0.0
    d = np.abs(g - want)
    same = (g == want) | (np.isnan(g) & np.isnan(want))
    if rem and not np.all(same | (d <= tol)):
        # how far rounding of the image alone moves the result
        near = [reference(numbers * (1 + r.uniform(-1e-15, 1e-15)), par, ser, c.windows(), 1 if c.neg is None else c.neg, n_it) for _ in range(20)]
        tol += 5 * max(np.abs(x - want).max() for x in near)
    if not np.all(same | (d <= tol)):
        w = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        ctx.bad("values", "%s: pixel %s is %.12g in Python, %.12g in C++" % (what, w, g[w], want[w]))
    ctx.add("image_" + kind)
    ctx.add("remove" if rem else "add")
    if r.chance(0.25):
        ctx.add("repeated")
        if not np.array_equal(np.asarray(f()), g, equal_nan=True):
            ctx.bad("repeat", "%s gives another result when repeated" % what)
    if not np.array_equal(g, numbers):
        ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


def c19_objects(ctx, r):
    """Helper objects whose numbers the modelling rests on."""
    m = Model(r, 8)
    ccd, roe, traps = m.objects(r)
    ctx.desc("objects " + m.show())
    n = r.randint(1, 3000)
    o = ac.ROEChargeInjection.from_normal_roe(roe, n)
    for k, v in vars(roe).items():
        want = v + n if k == "prescan_offset" else False if k == "empty_traps_for_first_transfers" else 1 if k == "type" else v
        got = getattr(o, k)
        if not np.array_equal(np.asarray(got), np.asarray(want)) and k != "n_pumps":
            ctx.bad("from_normal_roe", "%s is %s, expected %s" % (k, got, want))
    for w in m.wells:
        ph = ac.CCDPhase(*w)
        x = np.array([0.0, w[1], w[0], w[0] * 1.5] + [w[0] * r.loguni(1e-6, 2) for _ in range(8)])
        got = ph.volume(x)
        want = np.array([ref_volume(w[0], w[1], w[2], w[3], v) for v in x])
        # at or below the notch the C++ rounds to the first-electron fill
        if not np.allclose(got, want, rtol=1e-12, atol=1e-14):
            ctx.bad("volume", "well %s: volumes %s, C++ %s" % (w, got, want))
        ctx.add("volumes", len(x))
    ctx.add("conversions")
    ctx.nontrivial(ctx.text)


# ---------------------------------------------------------------- C20
@prop
def C20(ctx, r, i):
    R, C = r.randint(1, 6), r.randint(1, 14)
    im = gen_image(r, R, C, r.loguni(10, 1e5))
    if r.chance(0.3):
        im = im + r.uniform(-50, 50)
    given = im
    if r.chance(0.5):
        # the image in another container: its numbers count, not its type
        kind = "list"
        while kind == "list":
            given, im, kind = as_kind(r, im)
        ctx.add(kind)
    keep_given = np.array(given)
    n = r.randint(1, 3)
    mk = lambda: ac.PixelBounce(kA=r.uniform(-0.3, 0.3) if not r.chance(0.1) else 0, kv=r.uniform(-0.3, 0.3) if not r.chance(0.1) else 0,
                                gamma=r.loguni(0.05, 3), omega=r.uniform(0, 3))
    pbs = [mk() for _ in range(n)]
    if r.chance(0.25):       # a term that is listed twice counts twice
        pbs.append(r.pick(*pbs))
        n += 1
        ctx.add("repeated_terms")
    pb = pbs[0]
    wins, pw, sw = {}, [0, -1], [0, -1]
    if r.chance(0.5):
        pw[0] = r.randint(0, R - 1)
        pw[1] = r.pick(-1, r.randint(pw[0] + 1, R))
        wins.update(parallel_window_start=pw[0], parallel_window_stop=pw[1])
    if r.chance(0.5):
        sw[0] = r.randint(0, C - 1)
        sw[1] = r.pick(-1, r.randint(sw[0] + 1, C))
        wins.update(serial_window_start=sw[0], serial_window_stop=sw[1])
    y1, x1 = R if pw[1] == -1 else pw[1], C if sw[1] == -1 else sw[1]
    ctx.desc("bounces %s windows %s image %s" % ([show(p) for p in pbs], wins, np.array2string(im, precision=6, threshold=100)))
    scale = np.abs(im).max() + 1e-9
    keep = im.copy()
    bias = pb.perturb_bias(given, verbosity=0, **wins)
    ctx.add("biases")
    inside = np.zeros((R, C), bool)
    inside[pw[0]:y1, sw[0]:x1] = True
    if np.any(bias[~inside] != 0):
        ctx.bad("window", "bias outside the window: %s" % bias)
    # the same pixels alone give the same bias, whatever lies outside the window
    sub = pb.perturb_bias(im[pw[0]:y1, sw[0]:x1].copy(), verbosity=0)
    if not np.array_equal(sub, bias[pw[0]:y1, sw[0]:x1]):
        ctx.bad("window-alone", "bias of the window depends on what lies outside it")
    # causal, row by row
    y, x = r.randint(0, R - 1), r.randint(0, C - 1)
    im2 = gen_image(r, R, C, scale)
    im2[y, :x + 1] = im[y, :x + 1]
    b2 = pb.perturb_bias(im2, verbosity=0, **wins)
    if not np.array_equal(b2[y, :x + 1], bias[y, :x + 1]):
        ctx.bad("causal", "bias of row %d up to column %d depends on other pixels" % (y, x))
    # nothing for uniform images or zero amplitudes
    if np.any(pb.perturb_bias(np.full((R, C), r.uniform(-10, 1e5)), verbosity=0, **wins) != 0):
        ctx.bad("uniform", "bias from a uniform image")
    if np.any(ac.PixelBounce(0, 0, pb.gamma, pb.omega).perturb_bias(im, verbosity=0, **wins) != 0):
        ctx.bad("zero-amplitude", "bias from zero amplitude")
    # linear in the signal
    a, b = r.uniform(-2, 2), r.uniform(-2, 2)
    lin = pb.perturb_bias(a * im + b * im2, verbosity=0, **wins)
    big = max(scale, np.abs(im2).max(), np.abs(bias).max(), np.abs(b2).max()) * (abs(a) + abs(b) + 1)
    if not np.allclose(lin, a * bias + b * b2, rtol=0, atol=1e-9 * big):
        ctx.bad("linear", "bias is not linear in the signal")
    # damped oscillation: once the signal is constant the bias obeys the free recursion, and an isolated kick decays
    want = bounce_check(pb, im, pw, sw)
    if not np.allclose(bias, want, rtol=0, atol=1e-9 * (scale + np.abs(want).max())):
        ctx.bad("oscillator", "bias %s, expected %s" % (bias, want))
    # adding is subtracting the bias from the image
    added = pb.add_pixel_bounce(given, verbosity=0, **wins)
    if not np.allclose(added, im - bias, rtol=0, atol=1e-12 * (scale + np.abs(bias).max())):
        ctx.bad("add", "add_pixel_bounce is not the image less the bias")
    slow = pb.add_pixel_bounce_slow(given)
    if not np.allclose(slow, pb.add_pixel_bounce(im, verbosity=0), rtol=0, atol=1e-9 * (scale + np.abs(slow).max())):
        ctx.bad("slow", "the slow version differs")
    # several terms add up, in any order, in every interface
    biases = [p.perturb_bias(im, verbosity=0, **wins) for p in pbs]
    tot = im - sum(biases)
    tol = 1e-9 * (scale + sum(np.abs(b).max() for b in biases))
    order = list(pbs)
    r.shuffle(order)
    if not np.allclose(ac.add_pixel_bounce(given, order, verbosity=0, **wins), tot, rtol=0, atol=tol):
        ctx.bad("sum", "several terms do not add up in add_pixel_bounce")
    if not np.allclose(np.asarray(ac.add_cti(given, pixel_bounce_list=order, verbosity=0, **wins)), tot, rtol=0, atol=tol):
        ctx.bad("sum-cti", "several terms do not add up in add_cti")
    if i % 3 == 0:
        c = Call(r, pumping=False, cont=0)
        plain = ac.add_cti(c.image, verbosity=0, **c.kwargs())
        w = {k: v for k, v in c.wins.items()}
        both = np.asarray(ac.add_cti(c.image, pixel_bounce_list=order, verbosity=0, **c.kwargs()))
        expect = np.asarray(plain) - sum(p.perturb_bias(np.asarray(plain), verbosity=0, **w) for p in order)
        if not np.allclose(both, expect, rtol=0, atol=1e-9 * (np.abs(expect).max() + 1)):
            ctx.bad("cti", "bounce with CTI is not the bounce of the image with CTI: " + c.show())
        ctx.add("with_cti")
    # removal converges wherever the map contracts
    N = np.zeros((C, C))
    for j in range(C):
        e = np.zeros((1, C))
        e[0, j] = 1
        for p in pbs:
            N[:, j] += p.perturb_bias(e, verbosity=0, **{k: v for k, v in wins.items() if k[0] == "s"})[0]
    norm = np.abs(N).sum(axis=1).max()
    fns = [("one", lambda k: pbs[0].remove_pixel_bounce(pbs[0].add_pixel_bounce(im, verbosity=0, **wins), k, verbosity=0, **wins), n == 1),
           ("list", lambda k: ac.remove_pixel_bounce(ac.add_pixel_bounce(im, pbs, verbosity=0, **wins), k, pbs, verbosity=0, **wins), True),
           ("cti", lambda k: ac.remove_cti(ac.add_cti(im, pixel_bounce_list=pbs, verbosity=0, **wins), k, pixel_bounce_list=pbs, verbosity=0, **wins), True)]
    for name, f, ok in fns:
        if not ok or norm > 0.7:
            continue
        e0 = np.abs(np.asarray(f(0)) - im).max()
        for k in (1, 3, 12):
            e = np.abs(np.asarray(f(k)) - im).max()
            ctx.add("removals")
            if not e <= norm ** k * e0 * (1 + 1e-6) + 1e-10 * scale:
                ctx.bad("remove-" + name, "error %.6g after %d iterations, %.6g before, contraction %.3g" % (e, k, e0, norm))
    # each iteration adds back what the bounce of the estimate takes away, exactly as often as asked
    k = r.randint(0, 5)
    whole = {"verbosity": 0, **wins}
    todo = [("one", lambda x: pb.add_pixel_bounce(x, **whole), lambda x: pb.remove_pixel_bounce(x, k, **whole)),
            ("list", lambda x: ac.add_pixel_bounce(x, pbs, **whole), lambda x: ac.remove_pixel_bounce(x, k, pbs, **whole)),
            ("cti", lambda x: np.asarray(ac.add_cti(x, pixel_bounce_list=pbs, **whole)), lambda x: ac.remove_cti(x, k, pixel_bounce_list=pbs, **whole))]
    if i % 3 == 0:
        kw = c.kwargs()
        kw.pop("allow_negative_pixels", None)
        todo.append(("traps", lambda x: np.asarray(ac.add_cti(x, pixel_bounce_list=order, verbosity=0, **kw)),
                     lambda x: ac.remove_cti(x, k, pixel_bounce_list=order, verbosity=0, **kw)))
    for name, add, rem in todo:
        first = np.array(c.image if name == "traps" else im, dtype=np.float64)
        def iterate(first):
            est, most = first.copy(), np.abs(first).max()
            for _ in range(k):
                est = est + (first - add(est))
                most = max(most, np.abs(est).max())
            return est, most
        est, most = iterate(first)
        tol = 1e-9 * (most + 1)
        got = np.asarray(rem(c.image if name == "traps" else given))
        if name == "traps" and not np.allclose(got, est, rtol=0, atol=tol):   # how far rounding of the image alone goes
            tol += 5 * max(np.abs(iterate(first * (1 + r.uniform(-1e-15, 1e-15)))[0] - est).max() for _ in range(20))
        if not np.allclose(got, est, rtol=0, atol=tol):
            ctx.bad("iterations-" + name, "%d iterations give %s, expected %s" % (k, got, est))
        ctx.add("iterations")
    # terms that are not physical are refused, as is a missing list
    x = r.loguni(1e-6, 10)
    for what, f in (("gamma", lambda: ac.PixelBounce(0.1, 0.1, gamma=-x, omega=1.0)), ("omega", lambda: ac.PixelBounce(0.1, 0.1, gamma=1.0, omega=-x)),
                    ("no list", lambda: ac.add_pixel_bounce(im, None, verbosity=0)), ("no list to remove", lambda: ac.remove_pixel_bounce(im, 1, None, verbosity=0))):
        try:
            f()
            ctx.bad("refused", "%s accepted (%g)" % (what, x))
        except Exception:
            pass
    if not abs(pb.omega0 - np.hypot(pb.omega, pb.gamma)) <= 1e-12 * pb.omega0:
        ctx.bad("omega0", "natural frequency %.12g of %s" % (pb.omega0, show(pb)))
    # removing from the image as given
    for name, f in (("one", lambda a: pb.remove_pixel_bounce(a, 2, verbosity=0, **wins)), ("list", lambda a: ac.remove_pixel_bounce(a, 2, pbs, verbosity=0, **wins))):
        if not np.array_equal(np.asarray(f(given)), np.asarray(f(np.array(im, dtype=np.float64)))):
            ctx.bad("container-" + name, "removing bounce from the same numbers in another container gives another image")
    if not np.array_equal(keep, im) or not np.array_equal(keep_given, np.asarray(given)):
        ctx.bad("input", "the input image was modified")
    if np.any(bias != 0):
        ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


def bounce_check(pb, image, pw, sw):
    R, C = image.shape
    out = np.zeros((R, C))
    A, B = 2 * np.exp(-pb.gamma) * np.cos(pb.omega), np.exp(-2 * pb.gamma)
    for y in range(pw[0], R if pw[1] == -1 else pw[1]):
        b = {sw[0]: 0.0}       # the bias of each pixel
        k1 = 0.0               # the one before with its kick, which the oscillation remembers
        for x in range(sw[0] + 1, C if sw[1] == -1 else sw[1]):
            d = float(image[y, x]) - float(image[y, x - 1])
            older = k1
            k1 = b[x - 1] + (pb.kA - pb.kv) * d
            b[x] = A * k1 - B * (older + (pb.kA - 2 * pb.kv) * d)
            out[y, x] = b[x]
    return out


# ---------------------------------------------------------------- C21
def noise_model(im, out, amp, frac, smooth):
    """The documented neighbourhood formula."""
    clip, a2 = amp * frac, amp * amp
    R, C = im.shape
    d = im - out
    s, n = np.zeros_like(d), np.zeros_like(d)
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            y = slice(max(0, -i), R - max(0, i))
            x = slice(max(0, -j), C - max(0, j))
            y2 = slice(max(0, i), R - max(0, -i))
            x2 = slice(max(0, j), C - max(0, -j))
            s[y, x] += d[y2, x2]
            n[y, x] += 1
    m = s / n
    v = np.clip(d, -1, 1) * d * d / (d * d + 4 * a2) + np.clip(m, -clip, clip) * m * m / (m * m + 18 * a2)

    def nb(v, dy, dx):
        g = np.zeros_like(out)
        y = slice(max(0, -dy), R - max(0, dy))
        x = slice(max(0, -dx), C - max(0, dx))
        g[y, x] = out[max(0, dy):R - max(0, -dy), max(0, dx):C - max(0, -dx)] - out[y, x]
        return v + np.clip(g, -clip, clip) * 4 * a2 / (g * g + 4 * a2)
    v = nb(nb(v, -1, 0), 1, 0)
    if smooth:
        v = nb(nb(v, 0, -1), 0, 1)
    return v / (6 if smooth else 4)


@prop
def C21(ctx, r, i):
    R, C = r.randint(2, 24), r.randint(2, 24)
    rng = np.random.RandomState(r.randrange(2 ** 31))
    sigma = 0.0 if i % 12 == 0 else r.loguni(0.05, 20)
    sky = r.uniform(0.0, 200)
    im = gen_image(r, R, C, r.loguni(10, 1e4)) * (rng.rand(R, C) < 0.2) + sky + rng.normal(0, max(sigma, 0.1), (R, C))
    how = r.pick("plain", "plain", "fortran", "strided", "transposed")
    if how == "fortran":
        im = np.asfortranarray(im)
    elif how == "strided":
        b = np.full((2 * R, 2 * C), 1e5)
        b[::2, ::2] = im
        im = b[::2, ::2]
    elif how == "transposed":
        im = im.T.copy().T
    opts = dict(amplitude_scale=r.uniform(0.05, 0.5), noise_model_scaling=r.uniform(0.3, 1.0), n_iter=r.randint(1, 60), serial=r.chance(0.5))
    frac = r.pick(None, None, 1.0, 0.0, r.uniform(0, 1))
    ctx.desc("read noise %g %s %dx%d %s sky %g sr_fraction %s" % (sigma, opts, R, C, how, sky, frac))
    rn = ac.ReadNoise(sigma, **opts)
    keep = im.copy()
    steps = []
    real = rn._determine_noise_model

    def watched(a, b):
        adj = real(a, b)
        steps.append((b.copy(), adj))
        return adj
    rn._determine_noise_model = watched
    S, N = rn.generate_SR_frames_from_image(im, sr_fraction=frac, verbosity=0)
    scale = np.abs(im).max() + np.abs(N).max() if np.all(np.isfinite(N)) else np.abs(im).max()
    if not np.all(np.abs(S + N - im) <= 1e-12 * scale):
        ctx.bad("sum", "signal plus noise is not the image: difference %s" % np.abs(S + N - im).max())
    if not np.array_equal(keep, im):
        ctx.bad("input", "the image was modified")
    if sigma == 0 and np.any(N != 0):
        ctx.bad("zero-noise", "noise separated with zero read noise")
    if frac == 0.0 and not np.allclose(N, 0, atol=1e-12 * scale):
        ctx.bad("zero-fraction", "noise separated with fraction zero")
    # each step: the model's values, and the change it makes
    share = (1 + 5 * sigma * opts["amplitude_scale"]) / 6 if opts["serial"] else (1 + 3 * sigma * opts["amplitude_scale"]) / 4
    for k, (out, adj) in enumerate(steps):
        ctx.add("steps")
        want = noise_model(keep, out, sigma, opts["amplitude_scale"], opts["serial"])
        if not np.allclose(adj, want, rtol=1e-9, atol=1e-12 * (1 + share)):
            ctx.bad("model", "step %d: noise model differs from the formula by %g" % (k, np.abs(adj - want).max()))
            break
        nxt = steps[k + 1][0] if k + 1 < len(steps) else (S if frac in (None, 1.0) else None)
        if nxt is not None and not np.all(np.abs(nxt - out) <= share * opts["noise_model_scaling"] * (1 + 1e-9) + 1e-12 * scale):
            ctx.bad("step", "step %d changed a pixel by %g, at most %g allowed" % (k, np.abs(nxt - out).max(), share))
            break
    # separating, correcting the signal and putting the noise back
    if i % 4 == 0 and sigma > 0:
        c = Call(r, 8, 4, pumping=False, cont=0)
        c.neg = None
        c.image += rng.normal(0, sigma, c.image.shape) + 5 * sigma
        if min(c.image.shape) >= 2:
            n_it = r.randint(0, 2)
            got = np.asarray(ac.remove_cti(c.image, n_it, remove_read_noise=sigma, verbosity=0, **c.kwargs()))
            S2, N2 = ac.ReadNoise(sigma_readnoise=sigma).generate_SR_frames_from_image(c.image.copy(), verbosity=0)
            want = np.asarray(ac.remove_cti(S2, n_it, verbosity=0, **c.kwargs())) + N2
            ctx.add("corrections")
            if not np.allclose(got, want, rtol=0, atol=1e-8 * (np.abs(c.image).max() + np.abs(want).max())):
                ctx.bad("correction", "remove_cti with read noise is not the corrected signal plus the noise: %g; %s" % (np.abs(got - want).max(), c.show()))
    if steps and np.any(N != 0):
        ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


# ---------------------------------------------------------------- C16
@prop
def C16(ctx, r, i):
    c = Call(r, cont=0.02)
    c.neg = 0
    for m in (c.par, c.ser):
        if m is not None and r.chance(0.5):   # plenty of traps
            m.species = [(s[0], s[1] * 30) + s[2:] for s in m.species]
    ctx.desc(c.show())
    out = np.asarray(ac.add_cti(c.image, verbosity=0, **c.kwargs(r)))
    if not np.all(out >= 0):
        ctx.bad("add", "pixel of %g" % out.min())
    c.neg = 1
    free = np.asarray(ac.add_cti(c.image, verbosity=0, **c.kwargs(r)))
    if np.any(free < 0):
        ctx.add("would_be_negative")
    if not np.array_equal(out, c.image):
        ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


# ---------------------------------------------------------------- C23
def outcome(f):
    """Runs f in a child: 'returned', 'error' (a message and a failure) or something else."""
    pr, pw = os.pipe()
    er, ew = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(pr)
            os.close(er)
            os.dup2(ew, 2)
            os.dup2(ew, 1)
            try:
                f()
                os.write(pw, b"r")
                os._exit(0)
            except Exception as e:
                os.write(ew, ("%s: %s" % (type(e).__name__, e)).encode()[:500])
                os.write(pw, b"e")
                os._exit(1)
        finally:
            os._exit(99)
    os.close(pw)
    os.close(ew)
    err = b""
    while True:
        b = os.read(er, 4096)
        if not b:
            break
        err += b if len(err) < 4000 else b""
    tag = os.read(pr, 1)
    os.close(pr)
    os.close(er)
    st = os.waitpid(pid, 0)[1]
    err = err.decode(errors="replace")
    if tag == b"r":
        return "returned", err
    if tag == b"e" or (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 1 and err):
        return "error", err
    return "status %d" % st, err


@prop
def C23(ctx, r, i):
    c = Call(r, 8, 4, cont=0.02)
    rem = r.chance(0.3)
    m, pre = (c.par, "parallel_") if c.par is not None and (c.ser is None or r.chance(0.5)) else (c.ser, "serial_")
    kw = c.kwargs(r)
    how = r.randint(0, 7)
    what, valid = "", False
    if how == 1 and m.type != 2:
        kw[pre + "roe"].prescan_offset = -r.randint(1, 5)
        what = "negative prescan"
    elif how == 2 and m.type != 2:
        kw[pre + "roe"].overscan_start = r.pick(0, -2, -5)
        what = "overscan starts at %d" % kw[pre + "roe"].overscan_start
    elif how == 3 and m.type == 2:
        kw[pre + "roe"].dwell_times = np.ones(2 * len(m.wells) + 1)
        what = "odd number of pumping steps"
    elif how == 4 and m.type != 2:
        kw[pre + "roe"].dwell_times = np.ones(len(m.wells) + r.randint(1, 2))
        what = "phases of readout and CCD differ"
    elif how == 5 and len(m.wells) > 1:
        n = len(m.wells) - 1
        kw[pre + "ccd"] = ac.CCD(phases=kw[pre + "ccd"].phases[:n], fraction_of_traps_per_phase=[1.0 / n] * n)
        what = "phases of CCD and readout differ"
    elif how == 6 and m.type == 2 and c.R > 1:
        kw["parallel_window_start"] = 0
        kw["parallel_window_stop"] = r.pick(-1, c.R)
        what = "pumping %d rows" % c.R
    else:
        valid = True
        what = "valid"
    ctx.desc("%s%s: %s" % (pre, what, c.show()))
    f = (lambda: ac.remove_cti(c.image, 1, verbosity=0, **kw)) if rem else (lambda: ac.add_cti(c.image, verbosity=0, **kw))
    got, err = outcome(f)
    ctx.add("valid" if valid else "invalid")
    if valid and got != "returned":
        ctx.bad("rejected", "%s instead of an image: %s" % (got, err))
    if not valid and got != "error":
        ctx.bad("accepted: " + what.split(" at ")[0].split(" of ")[0][:20], "%s instead of an error: %s" % (got, err))
    ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


# ---------------------------------------------------------------- C27
@prop
def C27(ctx, r, i):
    c = Call(r, 6, 3, cont=0.03)
    if r.chance(0.3):
        for m in (c.par, c.ser):
            if m is not None:
                m.species = [s for s in m.species if s[0] != 0] or [(1, 3.0, 2.0 * m.dwell[0], 0.5 * m.dwell[0], 0.0)]
                m.order = list(range(len(m.species)))
    rem = r.chance(0.3)
    n_it = r.randint(1, 2)
    if rem and c.R * c.C <= 24 and r.chance(0.15):
        n_it = r.randint(3, 24)
        ctx.add("many_iterations")
    pb = [ac.PixelBounce(0.02, 0.01, 0.5, 1.0)] if r.chance(0.3) else None
    ctx.desc("%s bounce=%s %s" % ("remove" if rem else "add", pb is not None, c.show()))
    at = []
    for v in range(r.pick(2, 3)):
        kw = c.kwargs()
        with Capture() as cap:
            if rem:
                out = ac.remove_cti(c.image, n_it, verbosity=v, pixel_bounce_list=pb, **kw)
            else:
                out = ac.add_cti(c.image, verbosity=v, pixel_bounce_list=pb, **kw)
        at.append(np.asarray(out))
        ctx.add("calls_verbosity_%d" % v)
        ctx.add("bytes_verbosity_%d" % v, cap.total)
        if v == 0 and cap.total:
            ctx.bad("silent", "%d bytes written at verbosity 0: %s" % (cap.total, cap.text[:300]))
        if v and not cap.total:
            ctx.bad("progress", "nothing written at verbosity %d" % v)
        if v and not np.array_equal(at[v], at[0], equal_nan=True):
            ctx.bad("result", "verbosity %d changes the result by %g" % (v, np.abs(at[v] - at[0]).max()))
    if i % 3 == 0:
        im = c.image
        p = ac.PixelBounce(0.05, 0.02, 0.5, 1.0)
        with Capture() as cap:
            p.add_pixel_bounce(im, verbosity=0)
            p.remove_pixel_bounce(im, 2, verbosity=0)
            p.perturb_bias(im, verbosity=0)
            ac.add_pixel_bounce(im, [p], verbosity=0)
            ac.remove_pixel_bounce(im, 2, [p], verbosity=0)
            ac.CTI_model_for_HST_ACS(2455000.0 + r.randint(0, 4000))
            if min(im.shape) >= 2:
                ac.ReadNoise(2.0).generate_SR_frames_from_image(im.copy() + 5, verbosity=0)
            ac.CovarianceMatrix()
            c.kwargs(r)
            ac.CCDPhase(1e4).volume(np.array([10.0]))
            ac.TrapInstantCapture(1.0, 2.0).delta_ellipticity
            ac.TrapInstantCapture(1.0, 2.0).poisson_density_from(1000, seed=1)
            ac.VVTestBench()
        ctx.add("other_functions")
        if cap.total:
            ctx.bad("silent-others", "%d bytes written at verbosity 0: %s" % (cap.total, cap.text[:300]))
    if not np.array_equal(at[0], c.image):
        ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


# ---------------------------------------------------------------- C28
LAUNCH, COOLED, SM4 = 2452334.5, 2453920.0, 2454968.0


def hst(date):
    m = ac.CTI_model_for_HST_ACS(date)
    return m


def numbers(m):
    """Everything a model holds, as comparable values."""
    def f(o):
        if o is None or isinstance(o, (bool, int, float, str)):
            return o
        if isinstance(o, np.ndarray):
            return ("array",) + tuple(f(x) for x in o.tolist())
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, (list, tuple)):
            return tuple(f(x) for x in o)
        return (type(o).__name__,) + tuple((k, f(v)) for k, v in sorted(vars(o).items()))
    return f(m)


def published(ctx, d, m):
    """The model of Massey et al. (2014): three species of instant-capture traps, no trailing along rows."""
    proe, pccd, pt, sroe, sccd, st = m
    if d < SM4:
        total = 0.017845 + 3.5488e-4 * (d - LAUNCH)
    else:
        total = 1.011 * (-0.246591 + 0.000558980 * (d - LAUNCH))
    times = (0.48, 4.86, 20.6) if d < COOLED else (0.74, 7.70, 37.0)
    want = sorted(zip(times, (0.17 * total, 0.45 * total, 0.38 * total)))
    got = sorted((float(t.release_timescale), float(t.density)) for t in pt)
    if len(got) != 3 or any(abs(x - y) > 1e-9 * max(1, abs(y)) for g, w in zip(got, want) for x, y in zip(g, w)):
        ctx.bad("published-traps", "date %s: (release time, density) %s, published %s" % (d, got, want))
    for t in pt:
        if type(t) is not ac.TrapInstantCapture or t.fractional_volume_none_exposed != 0 or t.fractional_volume_full_exposed != 0:
            ctx.bad("published-traps", "date %s: %s is not a plain instant-capture trap of the volume" % (d, show(t)))
    if st:
        ctx.bad("published-traps", "date %s: serial traps %s" % (d, [show(t) for t in st]))
    for c in (pccd, sccd):
        for p in c.phases:
            if len(c.phases) != 1 or (p.full_well_depth, p.well_notch_depth, p.well_fill_power, p.first_electron_fill) != (84700, 0, 0.478, 0):
                ctx.bad("published-ccd", "date %s: %s" % (d, show(p)))
    for name, o, prescan, overscan, noise in (("parallel", proe, 0, 2048, None), ("serial", sroe, 24, -1, 4.0)):
        ok = (list(np.asarray(o.dwell_times, float)) == [1.0] and o.prescan_offset == 0 and o.overscan_start == overscan
              and o.empty_traps_between_columns and not o.empty_traps_for_first_transfers
              and o.force_release_away_from_readout and not o.use_integer_express_matrix)
        ok = ok and getattr(o, "prescan_length", prescan) == prescan and (noise is None or getattr(o, "read_noise", noise) == noise)
        if not ok:
            ctx.bad("published-readout", "date %s: %s readout %s" % (d, name, show(o)))
    ctx.add("published")


@prop
def C28(ctx, r, i):
    def date():
        k = r.randint(0, 9)
        if k < 3:
            return r.uniform(LAUNCH, COOLED)
        if k < 5:
            return r.uniform(COOLED, SM4)
        if k < 8:
            return SM4 + (r.uniform(0, 9000) if k < 6 else r.loguni(1, 40000) if k < 7 else r.loguni(1e3, 1e6))
        b = r.pick(COOLED, SM4, LAUNCH, 2452335, 2453919, 2453921, 2454967, 2454969)
        return max(LAUNCH, b + r.pick(-1, 1) * r.loguni(1e-6, 30)) if k == 8 else max(LAUNCH, float(b))
    dates = [date() for _ in range(r.randint(3, 8))]
    kinds = [r.pick(float, float, np.float64, np.float32) for _ in dates]
    dates = [d if k is not np.float32 else float(np.float32(d)) for d, k in zip(dates, kinds)]
    dates = [max(d, LAUNCH) for d in dates]
    if r.chance(0.3):
        dates = [float(int(d)) + 1 for d in dates]
        args = [int(d) for d in dates]
    else:
        args = [np.float64(d) if k is np.float64 else d for d, k in zip(dates, kinds)]
    ctx.desc("dates %s" % dates)
    seen = {}
    for d, a in zip(dates, args):
        m = hst(a)
        ctx.add("models")
        n = numbers(m)
        if not isinstance(m, tuple) or len(m) != 6:
            ctx.bad("shape", "model is %s" % (m,))
            return
        proe, pccd, pt, sroe, sccd, st = m
        for o, t in ((proe, ac.ROE), (sroe, ac.ROE), (pccd, ac.CCD), (sccd, ac.CCD)):
            if not isinstance(o, t):
                ctx.bad("types", "%s is not a %s" % (o, t.__name__))
                return
        rel = []
        for traps in (pt, st):
            for t in traps or []:
                ok = isinstance(t, (ac.TrapInstantCapture, ac.TrapSlowCapture, ac.TrapInstantCaptureContinuum, ac.TrapSlowCaptureContinuum))
                if not ok or not np.isfinite(t.density) or t.density < 0 or not np.isfinite(t.release_timescale) or t.release_timescale <= 0:
                    ctx.bad("physical", "date %s: %s" % (d, show(t)))
        for c in (pccd, sccd):
            for p in c.phases:
                if not (np.isfinite(p.full_well_depth) and 0 <= p.well_notch_depth < p.full_well_depth and p.well_fill_power > 0 and 0 <= p.first_electron_fill <= 1):
                    ctx.bad("ccd", "date %s: %s" % (d, show(p)))
        for o in (proe, sroe):
            if not (np.all(np.asarray(o.dwell_times) > 0) and o.prescan_offset >= 0 and (o.overscan_start == -1 or o.overscan_start > 0) and len(o.dwell_times) == len(pccd.phases)):
                ctx.bad("roe", "date %s: %s" % (d, show(o)))
        if not pt:
            ctx.bad("traps", "date %s: no parallel traps" % d)
            return
        rho = sum(t.density for t in pt)
        published(ctx, d, m)
        shares = tuple(round(t.density / rho, 12) for t in pt) if rho > 0 else ()
        seen[d] = (rho, tuple(t.release_timescale for t in pt), shares, n)
        # what was returned belongs to the caller: changing it alters no later model
        for t in pt:
            t.density *= 3
            t.release_timescale += 1
        proe.dwell_times = np.asarray(proe.dwell_times) * 2
        np.asarray(pccd.full_well_depths)[...] = 1
        pccd.phases[0].full_well_depth = 1.0
        sroe.prescan_offset += 1
        pt.append(pt[0])
        pccd.phases.append(ac.CCDPhase())
    for a, d in zip(args, dates):
        if numbers(hst(a)) != seen[d][3]:
            ctx.bad("history", "date %s gives another model after other dates were requested and their models changed" % d)
            break
    ds = sorted(set(dates))
    for lo, hi in ((LAUNCH, SM4), (SM4, np.inf)):
        e = [d for d in ds if lo <= d < hi]
        for a, b in zip(e, e[1:]):
            ctx.add("pairs")
            if b - a > 1e-5 and not seen[b][0] > seen[a][0]:
                ctx.bad("increasing", "total density %.12g on %s, %.12g on %s" % (seen[a][0], a, seen[b][0], b))
        for a, b, c in zip(e, e[1:], e[2:]):
            want = seen[a][0] + (seen[c][0] - seen[a][0]) * (b - a) / (c - a)
            if abs(seen[b][0] - want) > 1e-9:
                ctx.bad("linear", "total density %.12g on %s is off the line through %s and %s (%.12g)" % (seen[b][0], b, a, c, want))
        if len(e) >= 2:   # the line itself is the same for every pair
            a, b = e[0], e[-1]
            if b - a > 1:
                key = (lo, (seen[b][0] - seen[a][0]) / (b - a))
                old = LINES.setdefault(lo, key)
                if abs(old[1] - key[1]) > 1e-9 * abs(old[1]) * max(1, 3000 / (b - a)):
                    ctx.bad("slope", "growth %.12g per day between %s and %s, elsewhere %.12g" % (key[1], a, b, old[1]))
    for lo, hi in ((LAUNCH, COOLED), (COOLED, np.inf)):
        e = [d for d in ds if lo <= d < hi]
        if len({seen[d][1] for d in e}) > 1:
            ctx.bad("release-times", "release times change between %s and %s" % (e[0], e[-1]))
        if e:
            old = TIMES.setdefault(lo, seen[e[0]][1])
            if old != seen[e[0]][1]:
                ctx.bad("release-times", "release times %s on %s, %s earlier" % (seen[e[0]][1], e[0], old))
    if len(TIMES) == 2 and TIMES[LAUNCH] == TIMES[COOLED]:
        ctx.bad("release-times", "release times do not change when the temperature does")
    if len({seen[d][2] for d in ds}) > 1:
        ctx.bad("shares", "the species' shares of the density change with the date")
    if i % 10 == 0:
        before = LAUNCH - r.loguni(1e-3, 1e4)
        try:
            hst(before)
            ctx.bad("before-launch", "a model was returned for %s, before launch" % before)
        except AssertionError:
            pass
        ctx.add("before_launch")
    if i % 20 == 0:   # the model can be used
        p, pc, ptr, s, sc, str_ = hst(dates[0])
        p.overscan_start = -1
        im = np.zeros((12, 2))
        im[3] = 800.0
        out = np.asarray(ac.add_cti(im, parallel_roe=p, parallel_ccd=pc, parallel_traps=ptr, parallel_express=2, verbosity=0))
        if not np.all(np.isfinite(out)) or not out[4, 0] > 0:
            ctx.bad("usable", "adding CTI with the model of %s: %s" % (dates[0], out))
        ctx.add("images")
    ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


LINES, TIMES = {}, {}


# ---------------------------------------------------------------- C29
def spread_of(ctx, r, trap, rho, pixels):
    """Poisson draws for many seeds: mean and variance of the number of traps."""
    n = 400
    lam = rho * pixels
    k = np.array([trap.poisson_density_from(total_pixels=pixels, seed=r.randint(0, 10 ** 9 - 1)).density * pixels for _ in range(n)])
    ctx.add("draws", n)
    if np.any(np.abs(k - np.rint(k)) > 1e-9 * np.maximum(k, 1)) or np.any(k < 0):
        ctx.bad("integers", "numbers of traps are not whole: %s" % k[:5])
    z = (k.mean() - lam) / np.sqrt(lam / n)
    # the variance of the sample variance of a Poisson distribution
    v = (k.var(ddof=1) - lam) / np.sqrt(lam * lam * 2 / (n - 1) + lam / n)
    if abs(z) > 6:
        ctx.bad("mean", "%g traps expected, %g on average over %d draws" % (lam, k.mean(), n))
    if not -6 < v < 8:
        ctx.bad("variance", "%g traps expected, variance %g over %d draws" % (lam, k.var(ddof=1), n))


def fit_of_ellipticity(tau):
    x = np.log10(tau)
    return 4 * (0.05333 - 0.03357 * np.arctan((x - 1.628) / 0.2951) + 0.09901 * np.exp(-(x - 0.4553) ** 2 / (2 * 0.4132 ** 2)))


@prop
def C29(ctx, r, i):
    surface = r.chance(0.4)
    rho = 0.0 if r.chance(0.03) else r.loguni(1e-4, 1e3)
    a = {}
    if surface:
        a = dict(fractional_volume_none_exposed=r.uniform(0, 0.5), fractional_volume_full_exposed=r.uniform(0.5, 1))
    tau = r.loguni(1e-2, 1e3)
    trap = ac.TrapInstantCapture(density=rho, release_timescale=tau, **a)
    pixels = r.pick(1, 7, r.randint(1, 10 ** 4), r.randint(1, 10 ** 7), float(r.randint(1, 5000)))
    seed = r.pick(0, 1, r.randint(0, 10 ** 9 - 1), 2 ** 32 - 1)
    ctx.desc("Poisson draw of %s over %s pixels, seed %d" % (show(trap), pixels, seed))
    before = state(trap)
    one = trap.poisson_density_from(total_pixels=pixels, seed=seed)
    np.random.seed(r.randint(0, 1000))
    np.random.random(r.randint(0, 5))
    two = trap.poisson_density_from(pixels, seed)
    if type(one) is not ac.TrapInstantCapture or one is trap:
        ctx.bad("type", "the draw is %s" % type(one))
        return
    if vars(one) != vars(two):
        ctx.bad("repeat", "the same seed gives %s, then %s" % (show(one), show(two)))
    if state(trap) != before:
        ctx.bad("original", "the original became %s" % show(trap))
    for k, v in vars(trap).items():
        if k != "density" and getattr(one, k, None) != v:
            ctx.bad("kept", "%s of the draw is %s, of the species %s" % (k, getattr(one, k, None), v))
    k = one.density * pixels
    lam = rho * pixels
    if not (one.density >= 0 and abs(k - round(k)) <= 1e-9 * max(k, 1)):
        ctx.bad("integers", "%.12g traps in %s pixels" % (k, pixels))
    if abs(k - lam) > 8 * np.sqrt(lam) + 20:
        ctx.bad("far", "%g traps drawn where %g are expected" % (k, lam))
    ctx.add("draws", 2)
    if i % 25 == 0:
        some = r.loguni(0.5, 1e6) / pixels
        spread_of(ctx, r, ac.TrapInstantCapture(some, tau, **a), some, pixels)
        ctx.add("distributions")
    if i % 5 == 0 and lam > 1e4:     # without a seed, draws differ
        np.random.seed()
        if len({trap.poisson_density_from(pixels).density for _ in range(6)}) < 2:
            ctx.bad("unseeded", "six draws without a seed are all the same")
        ctx.add("unseeded")
    # the ellipticity added by a species
    got = trap.delta_ellipticity
    want = rho * fit_of_ellipticity(tau)
    if not abs(got - want) <= 1e-12 * rho:
        ctx.bad("ellipticity", "%s adds %.12g, the published fit %.12g" % (show(trap), got, want))
    x = r.loguni(1e-3, 1e3)
    if not abs(ac.TrapInstantCapture(rho * x, tau, **a).delta_ellipticity - x * got) <= 1e-12 * rho * x:
        ctx.bad("ellipticity-linear", "the ellipticity is not proportional to the density")
    if one.density != rho and not abs(one.delta_ellipticity - one.density * fit_of_ellipticity(tau)) <= 1e-12 * (rho + one.density):
        ctx.bad("ellipticity-draw", "the ellipticity of the draw %.12g" % one.delta_ellipticity)
    ctx.add("ellipticities", 3)
    if lam > 0:
        ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


# ---------------------------------------------------------------- C30
LONG = {"help": 0, "verbosity": 1, "demo": 0, "benchmark": 0}
SHORT = {"h": ("help", 0), "v": ("verbosity", 1), "d": ("demo", 0), "b": ("benchmark", 0)}


def meaning(words):
    """What a command line asks for, from the help text and the usual rules for options:
    (end, verbosity, modes, other words); end is None, "help" or "error"."""
    verbosity, modes, other, k = 1, set(), [], 0

    def act(name, value):
        nonlocal verbosity
        if name == "verbosity":
            verbosity = int((re.match(r"\s*[-+]?\d+", value) or [0])[0])
        elif name != "help":
            modes.add(name)
        return "help" if name == "help" else None
    while k < len(words):
        w = words[k]
        k += 1
        if w == "--":
            other += words[k:]
            break
        if w.startswith("--"):
            name, eq, value = w[2:].partition("=")
            names = [n for n in LONG if n == name] or [n for n in LONG if n.startswith(name)]
            if len(names) != 1 or (eq and not LONG[names[0]]):
                return "error", verbosity, modes, other
            if LONG[names[0]] and not eq:
                if k == len(words):
                    return "error", verbosity, modes, other
                value = words[k]
                k += 1
            if act(names[0], value):
                return "help", verbosity, modes, other
        elif w.startswith("-") and len(w) > 1:
            j = 1
            while j < len(w):
                if w[j] not in SHORT:
                    return "error", verbosity, modes, other
                name, needs = SHORT[w[j]]
                j += 1
                value = None
                if needs:
                    value = w[j:]
                    j = len(w)
                    if not value:
                        if k == len(words):
                            return "error", verbosity, modes, other
                        value = words[k]
                        k += 1
                if act(name, value):
                    return "help", verbosity, modes, other
        else:
            other.append(w)
    return None, verbosity, modes, other


def gen_words(r):
    w = []
    for _ in range(r.pick(1, 1, 2, 2, 3, 4)):
        k = r.randint(0, 19)
        v = r.pick("0", "0", "1", "2", "-1")
        if k < 6:
            w.append(r.pick("-d", "--demo", "--de"))
        elif k < 9:
            w.append(r.pick("-b", "--benchmark", "--bench"))
        elif k < 14:
            w += r.pick(["-v" + v], ["-v", v], ["--verbosity=" + v], ["--verbosity", v], ["--verb=" + v])
        elif k < 15:
            w.append(r.pick("-h", "--help"))
        elif k < 16:
            w.append(r.pick("-x", "--unknown", "--demo=3", "-dq", "--verbosityy=1", "-7"))
        elif k < 17:
            w.append(r.pick("-v", "--verbosity", "--"))
        elif k < 18:
            w.append(r.pick("-dv" + v, "-bv" + v, "-db", "-bd"))
        else:
            w.append(r.pick("word", "image.txt", "-", "7"))
    return w


def text_image(path):
    n = open(path).read().split()
    R, C = int(n[0]), int(n[1])
    assert len(n) == 2 + R * C
    return np.array([float(x) for x in n[2:]]).reshape(R, C)


def demo_flat():
    roe = [0, 0, -1, 1, 1, 1, 0, 1, 1, 1.0]
    wells = [1, 1.0, 1e3, 0.0, 1.0, 0.0]
    traps = [1, 10.0, -1.0 / np.log(0.5), 0.0, 0.0, 0, 0, 0]
    return roe + wells + traps + [0, 0, 0, -1, 0, -1, 0, 0]


@prop
def C30(ctx, r, i):
    words = gen_words(r)
    end, verbosity, modes, other = meaning(words)
    given = r.pick("image", "image", "none", "fetched") if "benchmark" in modes else "none"
    blocked = r.chance(0.08)
    ctx.desc("arctic %s (benchmark image: %s%s)" % (" ".join(words), given, ", output blocked" if blocked else ""))
    with tempfile.TemporaryDirectory(prefix="c30") as top:
        cwd, path = os.path.join(top, "work"), os.path.join(top, "bin")
        os.mkdir(cwd)
        os.mkdir(path)
        im = np.round(gen_image(r, r.randint(1, 12), r.randint(1, 4), 900.0), 3)
        content = "%d %d\n" % im.shape + "\n".join(" ".join("%.3f" % x for x in row) for row in im) + "\n"
        bench = os.path.join(cwd, "benchmark_2k2k_image.txt")
        if given == "image":
            open(bench, "w").write(content)
        open(os.path.join(top, "fetched"), "w").write(content)
        code = 0 if given == "fetched" else r.pick(1, 4, 8, 255)
        with open(os.path.join(path, "wget"), "w") as f:   # stands in for the network
            f.write("#!/bin/sh\necho \"$@\" >> %s/asked\n%sexit %d\n" % (
                top, "/bin/cp %s/fetched benchmark_2k2k_image.txt\n" % top if given == "fetched" else "", code))
        os.chmod(os.path.join(path, "wget"), 0o755)
        if blocked:
            os.mkdir(os.path.join(cwd, "image_test_pre_cti.txt"))
        before = set(os.listdir(cwd))
        env = dict(os.environ, PATH=path, OMP_NUM_THREADS=str(r.pick(1, 2)))
        env.pop("POSIXLY_CORRECT", None)
        p = subprocess.run([os.environ["VERIF_ARCTIC"]] + words, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, errors="replace")
        new = set(os.listdir(cwd)) - before
        out, rc = p.stdout, p.returncode
        asked = os.path.exists(os.path.join(top, "asked"))
        told = lambda: "exit code %d, output %r %r, new files %s" % (rc, out[-600:], p.stderr[-600:], sorted(new))
        if rc < 0 or rc == 97 or "Sanitizer" in p.stderr or "runtime error" in p.stderr:
            ctx.bad("crash", told())
            return
        ctx.add("runs")
        if end is not None:
            ctx.add("ends_" + end)
            if new or asked:
                ctx.bad(end + "-acts", "does more than report: " + told())
            if end == "help" and (rc != 0 or not all("--" + n in out for n in LONG)):
                ctx.bad("help", told())
            if end == "error" and (rc == 0 or "rror" not in out + p.stderr):
                ctx.bad("error", told())
            ctx.nontrivial(ctx.text)
            return
        unparsed = [x for x in out.splitlines() if x.startswith("Unparsed parameter")]
        if [x.split(":", 1)[1].strip() for x in unparsed] != other:
            ctx.bad("unparsed", "other words are %s: %s" % (other, told()))
        rest = "\n".join(x for x in out.splitlines() if not x.startswith("Unparsed parameter"))
        if "demo" in modes:
            ctx.add("demos")
            if blocked:
                ctx.add("blocked")
                if rc == 0:
                    ctx.bad("blocked", "the demonstration could not write its image: " + told())
                return
            if rc != 0 or asked or new != {"image_test_pre_cti.txt", "image_test_cti_removed.txt"}:
                ctx.bad("demo", told())
                return
            pre, post = [text_image(os.path.join(cwd, x)) for x in ("image_test_pre_cti.txt", "image_test_cti_removed.txt")]
            flat = demo_flat()
            w = [0, -1, 0, -1]
            added = reference(pre, flat, flat, w, 0, None)
            want = reference(added, flat, flat, w, 1, 5)
            if post.shape != pre.shape or not np.allclose(post, want, rtol=0, atol=2e-6):
                ctx.bad("demo-image", "removed image %s, from the library %s" % (post, want))
            if not np.abs(post - pre).max() < 0.01 * np.abs(added - pre).max():
                ctx.bad("demo-restores", "removal leaves %s of %s" % (post, pre))
        elif "benchmark" in modes:
            ctx.add("benchmarks_" + given)
            if given == "image" and (rc != 0 or asked or new):
                ctx.bad("benchmark", told())
            if given == "fetched" and (rc != 0 or not asked or new != {"benchmark_2k2k_image.txt"}):
                ctx.bad("benchmark-fetched", told())
            if given in ("none") and (rc == 0 or not asked):
                ctx.bad("benchmark-missing", "there is no image to run on: " + told())
            if given != "image":
                rest = "\n".join(x for x in rest.splitlines() if not x.startswith("wget"))
        else:
            ctx.add("idle")
            if rc != 0 or new or asked or rest:
                ctx.bad("idle", told())
        if verbosity <= 0:
            ctx.add("silent")
            if rest:
                ctx.bad("silent", "output at verbosity %d: %s" % (verbosity, told()))
        elif "demo" in modes and not ("dded" in rest and "emoved" in rest):
            ctx.bad("progress", "no progress at verbosity %d: %s" % (verbosity, told()))
    ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)


# ---------------------------------------------------------------- C25
@prop
def C25(ctx, r, i):
    """Traps whose capture time and spread are left at their defaults (none) are the same traps in every class."""
    R, C = r.randint(8, 24), r.randint(1, 3)
    m = Model(r, R, r.pick(0, 0, 1), cont=0)
    m.pn = m.pf = None
    m.dwell = [m.dwell[0]] * len(m.dwell)
    for w in m.wells:   # the classes differ in whether what is released at once makes the cloud capture higher
        w[2], w[3] = max(w[2], 0.5), 0.0
    ccd, roe, _ = m.objects(r)
    n = r.randint(1, 2)
    low = min(w[0] for w in m.wells) * 0.005 / n   # many more electrons than traps, or their order matters
    sp = [(low * r.loguni(0.003, 1), m.dwell[0] * r.loguni(0.5, R / 4)) for _ in range(n)]
    im = gen_image(r, R, C, m.full)
    kw = m.options("parallel_")
    kinds = (ac.TrapInstantCapture, ac.TrapSlowCapture, ac.TrapInstantCaptureContinuum, ac.TrapSlowCaptureContinuum)
    style = r.pick("positional", "keywords")
    ctx.desc("default-valued traps %s (%s) %s image=%s" % (sp, style, m.show(), np.array2string(im, precision=6, threshold=60)))
    out = []
    for k in kinds:
        t = [k(*s) if style == "positional" else k(density=s[0], release_timescale=s[1]) for s in sp]
        out.append(np.asarray(ac.add_cti(im, parallel_ccd=ccd, parallel_roe=roe, parallel_traps=t, verbosity=0, **kw)))
    moved = np.abs(out[0] - im).max()
    for k, o, tol in zip(kinds[1:], out[1:], (0.1, 2e-3, 0.1)):
        d = np.abs(o - out[0]).max()
        ctx.add("compared")
        if not d <= tol * moved + tol * 0.1 * sum(s[0] for s in sp):
            ctx.bad("defaults:" + k.__name__, "differs from TrapInstantCapture by up to %.6g, %.3g of the largest change (%.6g)" % (d, d / moved if moved else np.nan, moved))
    if moved > 0:
        ctx.nontrivial(ctx.text)
    ctx.sample(ctx.text)
