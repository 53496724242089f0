from vc import *
import symio

M = "hyperion.calibration.gauss_calibration"
T = M + ":GaussCalibration."


def llr(x, m1, m2, s2):
    """log N(x;m1,s2) - log N(x;m2,s2)"""
    g = lambda m: sub(mul(div(ONE, num(-2)), div(power(sub(x, m), 2), s2)), mul(div(ONE, num(2)), tlog(mul(num(2), tm.PI, s2)) if hasattr(tm, "PI") else tlog(s2)))
    return sub(g(m1), g(m2))


def num(k):
    return lift(k)


def model(vc):
    m1, m2, s2 = vc.real("mu1"), vc.real("mu2"), vc.real("s2", pos=True)
    return m1, m2, s2


@contract("C03", "gauss_cal.predict", targets=[T + "predict", T + "__init__", T + "_compute_scale_bias"], replay="gauss_cal.predict")
def c_pred(vc):
    m1, m2, s2 = model(vc)
    n = vc.int("n", lo=0)
    x = vc.array("x", (n,))
    sn = vc.snap(x)
    o = vc.mod(M).GaussCalibration(mu1=m1, mu2=m2, sigma2=s2)
    r = o.predict(x)
    vc.ensure_shape("shape", r, (n,))
    i = lift(vc.idx("i", n))
    vc.ensure("llr", eq(r.at(i), llr(sn[0][1].at(i), lift(m1), lift(m2), lift(s2))))
    vc.unchanged("frame", sn)


@contract("C03", "gauss_cal.fit", targets=[T + "fit"])
def c_fit(vc):
    n = vc.int("n", lo=1)
    x, y = vc.array("x", (n,)), vc.array("y", (n,), "i")
    v = fresh("k")
    vc.assume(tm.forall_rng(lift(n), lambda i: bor(eq(y.at(i), ZERO), eq(y.at(i), ONE))))
    w = vc.array("w", (n,), pos=True) if vc.case("weighted") else None
    we = (lambda i: ONE) if w is None else (lambda i: w.at(i))
    c = lambda k: sum_over([lift(n)], [v], ind(eq(y.at(v), lift(k))))
    cw = lambda k: sum_over([lift(n)], [v], mul(we(v), ind(eq(y.at(v), lift(k)))))
    vc.assume(band(gt(c(0), ZERO), gt(c(1), ZERO)))
    vc.assume(band(gt(cw(0), ZERO), gt(cw(1), ZERO)))
    o = vc.mod(M).GaussCalibration()
    sn = vc.snap(x, y) if w is None else vc.snap(x, y, w)
    o.fit(x, y) if w is None else o.fit(x, y, w)
    mean = lambda k: div(sum_over([lift(n)], [v], mul(we(v), x.at(v), ind(eq(y.at(v), lift(k))))), cw(k))
    m1, m2 = mean(1), mean(0)
    tag = "" if w is None else " weighted"
    vc.ensure("target mean" + tag, eq(lift(o.mu1), m1))
    vc.ensure("non-target mean" + tag, eq(lift(o.mu2), m2))
    wt = sum_over([lift(n)], [v], we(v))
    dev = lambda k, m: sum_over([lift(n)], [v], mul(we(v), ind(eq(y.at(v), lift(k))), power(sub(x.at(v), m), 2)))
    s2 = div(add(dev(1, m1), dev(0, m2)), wt)
    vc.ensure("pooled variance" + tag, eq(lift(o.sigma2), s2))
    vc.ensure("prior" + tag, eq(lift(o.prior), div(cw(1), wt)))
    vc.ensure("slope" + tag, eq(lift(o.a), div(sub(lift(o.mu1), lift(o.mu2)), lift(o.sigma2))))
    vc.ensure("bias" + tag, eq(lift(o.b), div(sub(power(lift(o.mu2), 2), power(lift(o.mu1), 2)), mul(lift(2), lift(o.sigma2)))))
    vc.unchanged("frame", sn)


@contract("C03", "gauss_cal.save_load", targets=[T + "save_params", T + "load_params"])
def c_io(vc):
    m1, m2, s2 = model(vc)
    name = "cal" if vc.case("named") else None
    C = vc.mod(M).GaussCalibration
    o = C(mu1=m1, mu2=m2, sigma2=s2, name=name)
    o.save("d/f.h5")
    q = C.load("d/f.h5")
    vc.ensure_eq("mu1", q.mu1, m1)
    vc.ensure_eq("mu2", q.mu2, m2)
    vc.ensure_eq("sigma2", q.sigma2, s2)
    vc.ensure_eq("a", q.a, o.a)
    vc.ensure_eq("b", q.b, o.b)
    vc.ensure_eq("name", q.name, name)
