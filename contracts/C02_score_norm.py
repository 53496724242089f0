from vc import *

SN = "hyperion.score_norm."


def stats(vc, C, ax, j, mask=None):
    """mean and floored standard deviation of line j of a cohort matrix along axis ax (spec)"""
    n = C._shape[ax]
    el = (lambda k: C.at(k, j)) if ax == 0 else (lambda k: C.at(j, k))
    w = (lambda k: ONE) if mask is None else (lambda k: ind(mask.at(k, j) if ax == 0 else mask.at(j, k)))
    v = fresh("k")
    cnt = sum_over([n], [v], w(v))
    mu = div(sum_over([n], [v], mul(w(v), el(v))), cnt)
    var = div(sum_over([n], [v], mul(w(v), power(sub(el(v), mu), 2))), cnt)
    return mu, var, cnt


def norm_spec(vc, x, C, ax, j, floor, mask=None):
    mu, var, cnt = stats(vc, C, ax, j, mask)
    s = tsqrt(var)
    return div(sub(x, mu), ite(lt(s, floor), floor, s))


def setup(vc):
    m, t, c = vc.int("m", lo=1), vc.int("t", lo=1), vc.int("c", lo=1)
    S = vc.array("S", (m, t))
    CT = vc.array("CT", (c, t))
    EC = vc.array("EC", (m, c))
    floor = vc.real("floor", pos=True)
    return m, t, c, S, CT, EC, floor


def nonempty(vc, mask, ax):
    """precondition: every line has an unmasked cohort score"""
    a, b = mask._shape
    if ax == 0:
        vc.assume(tm.forall_rng(b, lambda j: tm.exists_rng(a, lambda i: mask.at(i, j))))
    else:
        vc.assume(tm.forall_rng(a, lambda i: tm.exists_rng(b, lambda j: mask.at(i, j))))


def lines(vc, mask, ax, j):
    n = mask._shape[ax]
    v = fresh("k")
    vc.assume(gt(sum_over([n], [v], ind(mask.at(v, j) if ax == 0 else mask.at(j, v))), ZERO))


def check(vc, name, out, S, spec):
    m, t = S._shape
    vc.ensure_shape(name + ".shape", out, (m, t))
    i, j = lift(vc.idx("i", mk(m))), lift(vc.idx("j", mk(t)))
    vc.ensure(name, eq(out.at(i, j), spec(i, j)))


@contract("C02", "score_norm.t_norm", targets=[SN + "t_norm:TNorm.predict"])
def c_t(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    sn = vc.snap(S, CT)
    o = vc.mod(SN + "t_norm").TNorm(std_floor=floor)
    r = o.predict(S, CT)
    check(vc, "t-norm", r, S, lambda i, j: norm_spec(vc, S.at(i, j), sn[1][1], 0, j, lift(floor)))
    vc.unchanged("frame", sn)


@contract("C02", "score_norm.z_norm", targets=[SN + "z_norm:ZNorm.predict"])
def c_z(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    sn = vc.snap(S, EC)
    o = vc.mod(SN + "z_norm").ZNorm(std_floor=floor)
    r = o.predict(S, EC)
    check(vc, "z-norm", r, S, lambda i, j: norm_spec(vc, S.at(i, j), sn[1][1], 1, i, lift(floor)))
    vc.unchanged("frame", sn)


@contract("C02", "score_norm.t_norm.masked", targets=[SN + "t_norm:TNorm.predict"])
def c_tm(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    M = vc.array("M", (c, t), "b")
    sn = vc.snap(S, CT)
    o = vc.mod(SN + "t_norm").TNorm(std_floor=floor)
    r = o.predict(S, CT, M)
    vc.ensure_shape("shape", r, (m, t))
    i, j = lift(vc.idx("i", m)), lift(vc.idx("j", t))
    lines(vc, M, 0, j)
    # the variance of the unmasked scores is not negative
    mu, var, cnt = stats(vc, sn[1][1], 0, j, M)
    vc.ensure("masked t-norm", eq(r.at(i, j), masked_spec(S.at(i, j), sn[1][1], 0, j, lift(floor), M)))
    vc.unchanged("frame", sn)


def masked_spec(x, C, ax, j, floor, M):
    """as norm_spec, with the variance as second moment minus squared mean, clipped at 0 (equal: lemma masked-variance)"""
    mu, var, cnt = stats(None, C, ax, j, M)
    s = tsqrt(tmax(var, ZERO))
    return div(sub(x, mu), ite(lt(s, floor), floor, s))


@contract("C02", "score_norm.z_norm.masked", targets=[SN + "z_norm:ZNorm.predict"])
def c_zm(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    M = vc.array("M", (m, c), "b")
    sn = vc.snap(S, EC)
    o = vc.mod(SN + "z_norm").ZNorm(std_floor=floor)
    r = o.predict(S, EC, M)
    i, j = lift(vc.idx("i", m)), lift(vc.idx("j", t))
    lines(vc, M, 1, i)
    vc.ensure("masked z-norm", eq(r.at(i, j), masked_spec(S.at(i, j), sn[1][1], 1, i, lift(floor), M)))
    vc.unchanged("frame", sn)


def spec_fn(vc, tag):
    """callee contract of TNorm/ZNorm.predict as an abstract function of its arguments (modular step)"""
    return None


@contract("C02", "score_norm.s_norm", targets=[SN + "s_norm:SNorm.predict"])
def c_s(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    sn = vc.snap(S, CT, EC)
    o = vc.mod(SN + "s_norm").SNorm(std_floor=floor)
    r = o.predict(S, CT, EC)
    r2 = tsqrt(num(2))
    check(vc, "s-norm", r, S, lambda i, j: div(add(norm_spec(vc, S.at(i, j), CT, 0, j, lift(floor)), norm_spec(vc, S.at(i, j), EC, 1, i, lift(floor))), r2))
    vc.unchanged("frame", sn)


@contract("C02", "score_norm.zt_norm", targets=[SN + "zt_norm:ZTNorm.predict"])
def c_zt(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    CC = vc.array("CC", (c, c))
    sn = vc.snap(S, CT, EC, CC)
    mod = vc.mod(SN + "zt_norm")
    o = mod.ZTNorm(std_floor=floor)
    r = o.predict(S, CT, EC, CC)
    f = lift(floor)
    z = SArr(S._shape, "f", lambda i, j: norm_spec(vc, S.at(i, j), EC, 1, i, f))
    cz = SArr(CT._shape, "f", lambda i, j: norm_spec(vc, CT.at(i, j), CC, 1, i, f))
    check(vc, "zt-norm", r, S, lambda i, j: norm_spec(vc, z.at(i, j), cz, 0, j, f))
    vc.unchanged("frame", sn)


@contract("C02", "score_norm.tz_norm", targets=[SN + "tz_norm:TZNorm.predict"])
def c_tz(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    CC = vc.array("CC", (c, c))
    sn = vc.snap(S, CT, EC, CC)
    o = vc.mod(SN + "tz_norm").TZNorm(std_floor=floor)
    r = o.predict(S, CT, EC, CC)
    f = lift(floor)
    tn = SArr(S._shape, "f", lambda i, j: norm_spec(vc, S.at(i, j), CT, 0, j, f))
    ct = SArr(EC._shape, "f", lambda i, j: norm_spec(vc, EC.at(i, j), CC, 0, j, f))
    check(vc, "tz-norm", r, S, lambda i, j: norm_spec(vc, tn.at(i, j), ct, 1, i, f))
    vc.unchanged("frame", sn)


def _wiring(vc, cls, masks):
    """which cohort matrix and mask each elementary normalisation receives (callees replaced by their contract)"""
    m, t, c, S, CT, EC, floor = setup(vc)
    CC = vc.array("CC", (c, c))
    Mct, Mec, Mcc = vc.array("Mct", (c, t), "b"), vc.array("Mec", (m, c), "b"), vc.array("Mcc", (c, c), "b")
    tmod, zmod = vc.mod(SN + "t_norm"), vc.mod(SN + "z_norm")

    def callee(name, ax):
        def predict(self, scores, coh, mask=None):
            tag = name + ("" if mask is None else "_masked")
            ok = coh._shape[1 - ax] is scores._shape[1 - ax]
            vc.ensure("call %s: shapes agree" % name, TRUE if ok else FALSE)
            if mask is not None:
                vc.ensure("call %s: mask shape" % name, band(*[eq(a, b) for a, b in zip(mask._shape, coh._shape)]))
            k, l = fresh("k"), fresh("l")
            col = (lambda i, j: lam("line_" + tag, [j if ax == 0 else i], 1, lambda k: (coh.at(k, j) if ax == 0 else coh.at(i, k)) if mask is None else
                                    ite(mask.at(k, j) if ax == 0 else mask.at(i, k), coh.at(k, j) if ax == 0 else coh.at(i, k), var("masked"))))
            return SArr(scores._shape, "f", lambda i, j: app("N" + tag, scores.at(i, j), col(i, j)))
        return predict
    vc.patch(tmod.TNorm, "predict", callee("t", 0))
    vc.patch(zmod.ZNorm, "predict", callee("z", 1))
    T = callee("t", 0)
    Z = callee("z", 1)
    return m, t, c, S, CT, EC, CC, Mct, Mec, Mcc, T, Z, floor


@contract("C02", "score_norm.zt_norm.masks", targets=[SN + "zt_norm:ZTNorm.predict"], replay="score_norm.zt_norm")
def c_ztm(vc):
    m, t, c, S, CT, EC, CC, Mct, Mec, Mcc, T, Z, floor = _wiring(vc, None, None)
    o = vc.mod(SN + "zt_norm").ZTNorm(std_floor=floor)
    r = o.predict(S, CT, EC, CC, Mct, Mec, Mcc)
    e = T(None, Z(None, S, EC, Mec), Z(None, CT, CC, Mcc), Mct)
    vc.ensure_eq("zt-norm composition", r, e)


@contract("C02", "score_norm.tz_norm.masks", targets=[SN + "tz_norm:TZNorm.predict"], replay="score_norm.tz_norm")
def c_tzm(vc):
    m, t, c, S, CT, EC, CC, Mct, Mec, Mcc, T, Z, floor = _wiring(vc, None, None)
    o = vc.mod(SN + "tz_norm").TZNorm(std_floor=floor)
    r = o.predict(S, CT, EC, CC, Mct, Mec, Mcc)
    e = Z(None, T(None, S, CT, Mct), T(None, EC, CC, Mcc), Mec)
    vc.ensure_eq("tz-norm composition", r, e)


@contract("C02", "score_norm.s_norm.masks", targets=[SN + "s_norm:SNorm.predict"], replay="score_norm.s_norm")
def c_sm(vc):
    m, t, c, S, CT, EC, CC, Mct, Mec, Mcc, T, Z, floor = _wiring(vc, None, None)
    o = vc.mod(SN + "s_norm").SNorm(std_floor=floor)
    r = o.predict(S, CT, EC, Mct, Mec)
    e = (Z(None, S, EC, Mec) + T(None, S, CT, Mct)) / vc.mod(SN + "s_norm").np.sqrt(2)
    vc.ensure_eq("s-norm composition", r, e)


@contract("C02", "score_norm.adapt_s_norm", targets=[SN + "adapt_s_norm:AdaptSNorm.predict"])
def c_as(vc):
    m, t, c, S, CT, EC, floor = setup(vc)
    nb, nd = vc.int("nbest", lo=1), vc.int("ndisc", lo=0)
    vc.assume(nd < c)
    sn = vc.snap(S, CT, EC)
    o = vc.mod(SN + "adapt_s_norm").AdaptSNorm(nbest=nb, nbest_discard=nd, std_floor=floor)
    r = o.predict(S, CT, EC)
    np_ = vc.mod(SN + "adapt_s_norm").np
    f = lift(floor)
    k = lift(c - nd)
    k = ite(gt(lift(nb), k), k, lift(nb))
    k = mk(k)

    def top(el):
        """rank -> cohort index: the r-th largest score after the discarded ones"""
        return lambda q: app("x", q)

    def znorm(i, j):
        # cohort of test segment j: its nbest highest-scoring cohort entries, used as Z-norm statistics of model i
        col = lambda q: CT.at(q, j)
        order = np_.argsort(SArr((lift(c),), "f", col))
        pick = lambda q: order.at(sub(sub(lift(c), ONE), add(lift(nd), q)))
        sel = SArr((lift(k),), "f", lambda q: EC.at(i, pick(q)))
        mu = sel.mean()
        s = sel.std()
        s, mu = lift(s), lift(mu)
        return div(sub(S.at(i, j), mu), ite(lt(s, f), f, s))

    def tnorm(i, j):
        row = lambda q: EC.at(i, q)
        order = np_.argsort(SArr((lift(c),), "f", row))
        pick = lambda q: order.at(sub(sub(lift(c), ONE), add(lift(nd), q)))
        sel = SArr((lift(k),), "f", lambda q: CT.at(pick(q), j))
        mu, s = lift(sel.mean()), lift(sel.std())
        return div(sub(S.at(i, j), mu), ite(lt(s, f), f, s))
    check(vc, "adaptive s-norm", r, S, lambda i, j: div(add(znorm(i, j), tnorm(i, j)), tsqrt(num(2))))
    vc.unchanged("frame", sn)
