from vc import *
from shim_np import NP

FM, SM, VM = "hyperion.feats.feature_normalization", "hyperion.feats.frame_selector", "hyperion.feats.energy_vad"
MV, FS, EV = FM + ":MeanVarianceNorm.", SM + ":FrameSelector.", VM + ":EnergyVAD."
F = Fraction


def L(x):
    return lift(x)


def sq(a):
    return mul(a, a)


def window(vc, n, x, t, j, l, q, method):
    """count, mean and variance of column j in the frames t-l..t+q of the signal"""
    lo = sub(t, l) if ENG.branch(lt(l, t)) else num(0)
    ENG.branch(eq(t, l))
    last = ENG.branch(eq(add(t, q), sub(L(n), num(1))))
    hi = add(t, q, num(1)) if ENG.branch(lt(add(t, q), sub(L(n), num(1)))) or (last and method != "normalize_conv") else L(n)
    c = sub(hi, lo)
    k, k2 = fresh("k"), fresh("k")
    m1 = div(sum_over([c], [k], x.at(add(lo, k), j)), c)
    if method == "normalize_slow":
        return c, m1, div(sum_over([c], [k2], sq(sub(x.at(add(lo, k2), j), m1))), c)
    return c, m1, sub(div(sum_over([c], [k2], sq(x.at(add(lo, k2), j))), c), sq(m1))


def setup(vc):
    mod = vc.mod(FM)
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    x = vc.array("x", (n, d))
    mean, var = vc.choose("mean", [True, False]), vc.choose("var", [True, False])
    return mod, n, d, x, mean, var


@contract("C16", "mvn.global", targets=[MV + "normalize_global", MV + "__init__"], replay="mvn.window")
def c_global(vc):
    mod, n, d, x, mean, var = setup(vc)
    m = mod.MeanVarianceNorm(mean, var)
    s = vc.snap(x)
    y = m.normalize_global(x)
    vc.unchanged("x", s)
    vc.ensure_shape("shape", y, (n, d))
    t, j = L(vc.idx("t", n)), L(vc.idx("j", d))
    k = fresh("k")
    mu = div(sum_over([L(n)], [k], x.at(k, j)), L(n))
    k2 = fresh("k")
    s2 = div(sum_over([L(n)], [k2], sq(sub(x.at(k2, j), mu))), L(n))
    e = x.at(t, j)
    if mean:
        e = sub(e, mu)
    if var:
        vc.assume(gt(s2, num(0)))
        e = div(e, tsqrt(s2))
    vc.ensure_eq("value", mk(y.at(t, j)), mk(e))
    if mean and not var:
        k3 = fresh("k")
        vc.ensure_eq("mean zero", mk(sum_over([L(n)], [k3], y.at(k3, j))), mk(num(0)))


def run(vc, method):
    """normalized features of the method, after the global normalization (its own contract), and the reference"""
    mod, n, d, x, mean, var = setup(vc)
    lk, rk = vc.choose("left", ["none", "value"]), vc.choose("right", ["none", "value"])
    left, right = (None if lk == "none" else vc.int("left", lo=0)), (None if rk == "none" else vc.int("right", lo=0))
    m = mod.MeanVarianceNorm(mean, var, left, right)
    g = vc.array("global", (n, d))
    glob = []

    def stub(z):
        glob.append(z)
        return g.copy() if (mean or var) else z
    m.normalize_global = stub
    s = vc.snap(x)
    g0 = vc.snap(g)
    base = g if (mean or var) else x
    return mod, n, d, x, mean, var, left, right, m, base, s, glob


@contract("C16", "mvn.cumsum", targets=[MV + "normalize_cumsum", MV + "normalize"], replay="mvn.window", timeout=240)
def c_cumsum(vc):
    go(vc, "normalize_cumsum")


@contract("C16", "mvn.slow", targets=[MV + "normalize_slow"], replay="mvn.window", timeout=240)
def c_slow(vc):
    go(vc, "normalize_slow")


@contract("C16", "mvn.conv", targets=[MV + "normalize_conv"], replay="mvn.window", timeout=240)
def c_conv(vc):
    go(vc, "normalize_conv")


def go(vc, method):
    mod, n, d, x, mean, var, left, right, m, base, s, glob = run(vc, method)
    if method == "normalize_conv":
        def conv(a, h):
            a, h = NP.asarray(a), NP.asarray(h)
            T = L(h.shape[0])
            af, hf = a.fn(), h.fn()

            def f(i, j):
                k = fresh("k")
                # full convolution with a column: out[i] = sum_k a[k] h[i-k]
                return sum_over([a._shape[0]], [k], mul(lift(af(k, j)), lift(hf(sub(i, k), num(0))), ind(le(num(0), sub(i, k))), ind(lt(sub(i, k), T))))
            return SArr((add(a._shape[0], T, num(-1)), a._shape[1]), "f", f)
        vc.patch(mod, "convolve2d", conv)
    y = getattr(m, method)(x)
    vc.unchanged("x", s)
    vc.ensure("global normalization of the input", len(glob) == 1 and glob[0] is x)
    vc.ensure_shape("shape", y, (n, d))
    t, j = L(vc.idx("t", n)), L(vc.idx("j", d))
    e = base.at(t, j)
    if left is None and right is None:
        vc.ensure_eq("no context", mk(y.at(t, j)), mk(e))
        return
    l, q = L(n) if left is None else L(left), L(n) if right is None else L(right)
    if method != "normalize_slow" and ENG.branch(le(L(n), add(tmin(q, l), num(1)))):
        vc.ensure_eq("window over the whole signal", mk(y.at(t, j)), mk(e))
        return
    c, m1, v = window(vc, n, base, t, j, l, q, method)
    if mean:
        e = sub(e, m1)
    if var:
        fl = num(F(1, 100000))
        if method == "normalize_slow":
            e = div(e, ite(lt(tsqrt(v), tsqrt(fl)), tsqrt(fl), tsqrt(v)))
        else:
            e = div(e, tsqrt(ite(lt(v, fl), fl, v)))
    vc.ensure_eq("value", mk(y.at(t, j)), mk(e))


@contract("C16", "select", targets=[FS + "select", FS + "__init__"], replay="select")
def c_select(vc):
    """frames with their decision, lengths may differ up to the tolerance"""
    mod = vc.mod(SM)
    n, d, m, tol = vc.int("frames", lo=0), vc.int("d", lo=1), vc.int("decisions", lo=0), vc.int("tol", lo=0)
    x, sel = vc.array("x", (n, d)), vc.array("vad", (m,), "b")
    f = mod.FrameSelector(tol)
    s = vc.snap(x, sel)
    if ENG.branch(bor(lt(L(tol), sub(L(n), L(m))), lt(L(tol), sub(L(m), L(n))))):
        vc.raises("too different", lambda: f.select(x, sel))
        return
    y = f.select(x, sel)
    vc.unchanged("inputs", s)
    # the r-th selected frame of the common part
    nn = m if ENG.branch(le(L(m), L(n))) else n
    ix = NP.flatnonzero(NP.asarray(sel)[:nn])
    vc.ensure_shape("shape", y, (ix.shape[0], d))
    r, j = L(vc.idx("r", ix.shape[0])), L(vc.idx("j", d))
    i = lift(ix.at(r))
    vc.ensure("frame of the common part", band(lt(i, L(nn)), sel.at(i)))
    vc.ensure_eq("frame", mk(y.at(r, j)), mk(x.at(i, j)))


@contract("C16", "vad.context", targets=[EV + "compute", EV + "__init__", EV + "reset"], replay="vad.context")
def c_vad(vc):
    """features with the log-energy first: threshold, then proportion of frames in the window"""
    mod = vc.mod(VM)
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    x = vc.array("x", (n, d))
    sc, th, p = vc.real("scale", lo=0), vc.real("thr"), vc.real("prop")
    vc.assume(lt(num(0), L(p)))
    vc.assume(lt(L(p), num(1)))
    c = vc.int("context", lo=0)

    def conv(a, h, mode="full"):
        if mode != "same":
            raise Unsupported("convolve mode")
        a, h = NP.asarray(a), NP.asarray(h)
        af, hf, T = a.fn(), h.fn(), h._shape[0]
        vc.ensure("the window fits", le(T, a._shape[0]))

        def f(i):
            k = fresh("k")
            z = sub(add(i, tfdiv(sub(T, num(1)), num(2))), k)
            return sum_over([a._shape[0]], [k], mul(lift(af(k)), lift(hf(z)), ind(le(num(0), z)), ind(lt(z, T))))
        return SArr((a._shape[0],), "f", f)
    vc.patch(NP, "convolve", conv)
    v = mod.EnergyVAD(vad_energy_mean_scale=sc, vad_energy_threshold=th, vad_frames_context=c, vad_proportion_threshold=p)
    ret = vc.choose("loge", [False, True])
    s = vc.snap(x)
    y = v.compute(x, return_loge=True) if ret else v.compute(x)
    vc.unchanged("x", s)
    t = L(vc.idx("t", n))
    if ret:
        y, e = y
        vc.ensure_shape("shape of the log-energy", e, (n,))
        vc.ensure_eq("log-energy", mk(e.at(t)), mk(x.at(t, num(0))))
    vc.ensure_shape("shape", y, (n,))
    k = fresh("k")
    thr = add(L(th), mul(L(sc), div(sum_over([L(n)], [k], x.at(k, num(0))), L(n))))
    over = lambda i: lt(thr, x.at(i, num(0)))
    half = tfdiv(sub(L(n), num(1)), num(2))
    cc = half if ENG.branch(lt(L(n), add(mul(num(2), L(c)), num(1)))) else L(c)
    if ENG.branch(le(cc, num(0))):
        vc.ensure("no context", iff(y.at(t), over(t)))
        return
    lo = sub(t, cc) if ENG.branch(le(cc, t)) else num(0)
    hi = add(t, cc, num(1)) if ENG.branch(le(add(t, cc, num(1)), L(n))) else L(n)
    k2 = fresh("k")
    frac = div(sum_over([L(n)], [k2], mul(ind(over(k2)), ind(le(lo, k2)), ind(lt(k2, hi)))), sub(hi, lo))
    vc.ensure("proportion", iff(y.at(t), lt(L(p), frac)))


@contract("C16", "vad.wave", targets=[EV + "compute", EV + "reset"], replay="vad.wave")
def c_wave(vc):
    """wave: offset filter with its state, log-energy of its frames, threshold"""
    mod = vc.mod(VM)
    n, T = vc.int("n", lo=1), vc.int("T", lo=1)
    x, y, e = vc.array("x", (n,)), vc.array("filtered", (n,)), vc.array("loge", (T,))
    z = vc.array("zn", (1,))
    th, sc = vc.real("thr"), vc.real("scale", lo=0)
    v = mod.EnergyVAD(dither=0, vad_energy_mean_scale=sc, vad_energy_threshold=th)
    z0 = v._dc_zi
    log = []

    def lf(b, a, u, zi=None):
        log.append((b, a, u, zi))
        return y, z

    def le_(u, *args):
        log.append((u,) + args)
        return e
    vc.patch(mod, "lfilter", lf)
    vc.patch(mod, "st_logE", le_)
    s = vc.snap(x, e)
    d = v.compute(x)
    vc.unchanged("inputs", s)
    vc.ensure("filter and energy", len(log) == 2 and all(a is b for a, b in zip(log[0], (v._dc_b, v._dc_a, x, z0))) and log[1][0] is y)
    vc.ensure_eq("frame length", log[1][1], 400)
    vc.ensure_eq("frame shift", log[1][2], 160)
    vc.ensure("state of the filter", v._dc_zi is z)
    t = L(vc.idx("t", T))
    k = fresh("k")
    vc.ensure_shape("shape", d, (T,))
    vc.ensure("decision", iff(d.at(t), lt(add(L(th), mul(L(sc), div(sum_over([L(T)], [k], e.at(k)), L(T)))), e.at(t))))
    v.reset()
    vc.ensure_eq("state after reset", v._dc_zi[0], 0)
    vc.ensure("filter", True)
    for i, (p, q) in enumerate(((1, 1), (-1, Fraction(-999, 1000)))):
        vc.ensure_eq("numerator %d" % i, v._dc_b[i], mk(num(Fraction(p))))
        vc.ensure_eq("denominator %d" % i, v._dc_a[i], mk(num(Fraction(q))))
