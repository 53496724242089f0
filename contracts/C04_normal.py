from vc import *
from shim_np import inv_el
import shim_np

D = "hyperion.pdfs.core.normal_diag_cov"
N = "hyperion.pdfs.core.normal"
E = "hyperion.pdfs.core.exp_family"
TD, TN, TE = D + ":NormalDiagCov.", N + ":Normal.", E + ":ExpFamily."
HALF = div(ONE, lift(2))


def L(v):
    return lift(v)


def ldiag(vc, x, mu, La, d):
    """log density of N(mu, diag(La)^-1) at x (spec)"""
    v = fresh("k")
    q = lambda k: sub(tlog(La(k)), mul(La(k), power(sub(x(k), mu(k)), 2)))
    return sub(mul(HALF, sum_over([L(d)], [v], q(v))), mul(HALF, L(d), tlog(mul(lift(2), pi()))))


def pi():
    return lift(shim_np.NP.pi)


def diag(vc, d=None):
    d = vc.int("d", lo=1) if d is None else d
    mu, La = vc.array("mu", (d,)), vc.array("La", (d,), pos=True)
    vc.assume(tm.forall_rng(L(d), lambda i: gt(La.at(i), ZERO)))
    return d, mu, La, vc.mod(D).NormalDiagCov(mu=mu, Lambda=La, x_dim=d)


@contract("C04", "normal_diag.log_prob", targets=[TD + "log_prob_std", TE + "log_prob_nat", TE + "log_prob", TD + "compute_suff_stats", TD + "compute_eta", TD + "compute_A_nat", TD + "logLambda", TD + "cholLambda"])
def c_dlp(vc):
    d, mu, La, o = diag(vc)
    n = vc.int("n", lo=1)
    x = vc.array("x", (n, d))
    sn = vc.snap(x, mu, La)
    i = L(vc.idx("i", n))
    spec = ldiag(vc, lambda k: sn[0][1].at(i, k), mu.at, La.at, d)
    a = o.log_prob(x, method="std")
    vc.ensure_shape("std shape", a, (n,))
    vc.ensure("std log density", eq(a.at(i), spec))
    b = o.log_prob(x)
    vc.ensure_shape("nat shape", b, (n,))
    vc.ensure("natural form log density", eq(b.at(i), spec))
    vc.unchanged("frame", sn)


@contract("C04", "normal_diag.params", targets=[TD + "compute_eta", TD + "compute_std", TD + "compute_A_nat", TD + "compute_A_std", TD + "_compute_nat_std", TD + "_compute_std_params", TD + "Sigma"])
def c_dpar(vc):
    d, mu, La, o = diag(vc)
    C = vc.mod(D).NormalDiagCov
    m2, L2 = C.compute_std(C.compute_eta(mu, La))
    vc.ensure_eq("eta to mean", m2, mu)
    vc.ensure_eq("eta to precision", L2, La)
    vc.ensure_eq("partition function", C.compute_A_nat(C.compute_eta(mu, La)), C.compute_A_std(mu, La))
    q = C(eta=C.compute_eta(mu, La), x_dim=d)
    vc.ensure_eq("built from eta: mean", q.mu, mu)
    vc.ensure_eq("built from eta: precision", q.Lambda, La)
    vc.ensure_eq("built from eta: A", q.A, o.A)
    i = L(vc.idx("i", d))
    vc.ensure("covariance", eq(o.Sigma.at(i), div(ONE, La.at(i))))
    vc.ensure("initialised", L(bool(o.is_init)))


def stats(vc, n, d):
    x = vc.array("x", (n, d))
    w = vc.array("w", (n,), pos=True) if vc.case("weighted") else None
    return x, w, ((lambda i: ONE) if w is None else w.at)


@contract("C04", "normal_diag.accum", targets=[TE + "accum_suff_stats", TE + "_accum_suff_stats_1batch", TE + "_accum_suff_stats_nbatches", TE + "Estep", TD + "compute_suff_stats"])
def c_dacc(vc):
    d, mu, La, o = diag(vc)
    n = vc.int("n", lo=1)
    x, w, we = stats(vc, n, d)
    sn = vc.snap(x) if w is None else vc.snap(x, w)
    Nn, u = o.Estep(x, sample_weight=w)
    v = fresh("k")
    vc.ensure("count", eq(L(Nn), sum_over([L(n)], [v], we(v))))
    vc.ensure_shape("shape", u, (mul(lift(2), L(d)),))
    j = L(vc.idx("j", d))
    vc.ensure("first order", eq(u.at(j), sum_over([L(n)], [v], mul(we(v), x.at(v, j)))))
    vc.ensure("second order", eq(u.at(add(L(d), j)), sum_over([L(n)], [v], mul(we(v), power(x.at(v, j), 2)))))
    # statistics given by the caller
    ux = vc.array("ux", (n, 3))
    s2 = vc.snap(ux)
    Nn, u = o.accum_suff_stats(x, u_x=ux, sample_weight=w)
    j = L(vc.idx("j", 3))
    vc.ensure("given statistics", eq(u.at(j), sum_over([L(n)], [v], mul(we(v), s2[0][1].at(v, j)))))
    vc.unchanged("frame statistics", s2)
    vc.unchanged("frame", sn)


@contract("C04", "normal_diag.accum_batches", targets=[TE + "_accum_suff_stats_nbatches"], replay="normal_diag.accum", timeout=60)
def c_dbat(vc):
    d, mu, La, o = diag(vc)
    n, b = vc.int("n", lo=1), vc.int("b", lo=1)
    x, w, we = stats(vc, n, d)
    Nn, u = o.accum_suff_stats(x, sample_weight=w, batch_size=b)
    v = fresh("k")
    j = L(vc.idx("j", d))
    # prefix sums at the end of pass t+1 (the first pass is peeled) or t
    for p in (1, 0):
        end = lambda t, p=p: tm.tmin(mul(add(t, num(p)), L(b)), L(n))
        vc.telescope(lambda t, end=end: sum_over([end(t)], [v], we(v)))
        vc.telescope(lambda t, end=end: sum_over([end(t)], [v], mul(we(v), x.at(v, j))))
    vc.ensure("count", eq(L(Nn), sum_over([L(n)], [v], we(v))))
    vc.ensure("first order", eq(u.at(j), sum_over([L(n)], [v], mul(we(v), x.at(v, j)))))


@contract("C04", "exp_family.add_suff_stats", targets=[TE + "add_suff_stats"])
def c_add(vc):
    d, mu, La, o = diag(vc)
    K = vc.choose("K", [1, 2, 3])
    Ns = [vc.real("N%d" % k) for k in range(K)]
    us = [vc.array("u%d" % k, (4,)) for k in range(K)]
    sn = vc.snap(*us)
    a, u = o.add_suff_stats(list(Ns), list(us))
    vc.ensure("count", eq(L(a), add(*[L(x) for x in Ns])))
    j = L(vc.idx("j", 4))
    vc.ensure("statistics", eq(u.at(j), add(*[s.at(j) for _, s in sn])))
    vc.unchanged("frame", sn)


@contract("C04", "normal_diag.mstep", targets=[TD + "Mstep", TD + "_compute_nat_params", TD + "unstack_suff_stats"])
def c_dm(vc):
    d, mu, La, o = diag(vc)
    um, ul = vc.case("update_mu"), vc.case("update_Lambda")
    vf = vc.real("vf", pos=True)
    o = vc.mod(D).NormalDiagCov(mu=mu, Lambda=La, x_dim=d, var_floor=vf, update_mu=um, update_Lambda=ul)
    o.logLambda
    o.cholLambda
    o.Sigma
    Nn = vc.real("N", pos=True)
    u = vc.array("u", (mul(lift(2), L(d)),))
    sn = vc.snap(u, mu, La)
    o.Mstep(Nn, u)
    j = L(vc.idx("j", d))
    m = div(u.at(j), L(Nn)) if um else mu.at(j)
    tag = " (mu %s, Lambda %s)" % (um, ul)
    vc.ensure("mean" + tag, eq(o.mu.at(j), m))
    var = add(div(u.at(add(L(d), j)), L(Nn)), mul(lift(-2), m, div(u.at(j), L(Nn))), power(m, 2))
    la = div(ONE, ite(lt(var, L(vf)), L(vf), var)) if ul else La.at(j)
    vc.ensure("precision" + tag, eq(o.Lambda.at(j), la))
    vc.ensure("natural parameter 1" + tag, eq(o.eta.at(j), mul(o.Lambda.at(j), o.mu.at(j))))
    vc.ensure("natural parameter 2" + tag, eq(o.eta.at(add(L(d), j)), mul(neg(HALF), o.Lambda.at(j))))
    vc.ensure("cached covariance" + tag, eq(mul(o.Sigma.at(j), o.Lambda.at(j)), ONE))
    vc.ensure("cached factor" + tag, eq(power(o.cholLambda.at(j), 2), o.Lambda.at(j)))
    v = fresh("k")
    vc.ensure("cached log det" + tag, eq(L(o.logLambda), sum_over([L(d)], [v], tlog(o.Lambda.at(v)))))
    vc.unchanged("frame", sn)


@contract("C04", "normal_diag.norm_suff_stats", targets=[TD + "norm_suff_stats"])
def c_dn(vc):
    """statistics of sqrt(La)*(x-mu)"""
    d, mu, La, o = diag(vc)
    n = vc.int("n", lo=1)
    x, w, we = stats(vc, n, d)
    Nn, u = o.Estep(x, sample_weight=w)
    s = vc.snap(u)
    N1, F1 = o.norm_suff_stats(Nn, u)
    N2, u2 = o.norm_suff_stats(Nn, u, return_order2=True)
    v = fresh("k")
    j = L(vc.idx("j", d))
    z = lambda k: mul(tsqrt(La.at(j)), sub(x.at(k, j), mu.at(j)))
    vc.ensure("first order", eq(F1.at(j), sum_over([L(n)], [v], mul(we(v), z(v)))))
    vc.ensure("first order of both", eq(u2.at(j), F1.at(j)))
    vc.ensure("second order", eq(u2.at(add(L(d), j)), sum_over([L(n)], [v], mul(we(v), power(z(v), 2)))))
    vc.ensure("count", band(eq(L(N1), L(Nn)), eq(L(N2), L(Nn))))
    vc.unchanged("frame", s)


@contract("C04", "normal_diag.elbo", targets=[TE + "elbo", TE + "accum_log_h"])
def c_delbo(vc):
    """total (weighted) log likelihood"""
    d, mu, La, o = diag(vc)
    n = vc.int("n", lo=1)
    x, w, we = stats(vc, n, d)
    e = o.elbo(x, sample_weight=w)
    lp = o.log_prob_nat(x)
    v = fresh("k")
    vc.ensure("elbo", eq(L(e), sum_over([L(n)], [v], mul(we(v), lp.at(v)))))


def io(vc, C, o):
    o.save("d/m.h5")
    q = C.load("d/m.h5")
    vc.ensure_eq("mu", q.mu, o.mu)
    vc.ensure_eq("Lambda", q.Lambda, o.Lambda)
    vc.ensure_eq("eta", q.eta, o.eta)
    vc.ensure_eq("A", q.A, o.A)
    for k in ("name", "x_dim", "var_floor", "update_mu", "update_Lambda"):
        vc.ensure_eq(k, getattr(q, k), getattr(o, k))


@contract("C04", "normal_diag.save_load", targets=[TD + "save_params", TD + "load_params", TD + "get_config"])
def c_dio(vc):
    d, mu, La, o = diag(vc)
    C = vc.mod(D).NormalDiagCov
    o = C(mu=mu, Lambda=La, x_dim=d, var_floor=vc.real("vf"), update_mu=bool(vc.case("um")), update_Lambda=bool(vc.case("ul")), name="g" if vc.case("named") else None)
    io(vc, C, o)


# ------------------------------------------------------------------ full covariance
def full(vc, d=None):
    d = vc.int("d", lo=1) if d is None else d
    mu = vc.array("mu", (d,))
    La = vc.spd("La", d)
    return d, mu, La, vc.mod(N).Normal(mu=mu, Lambda=La, x_dim=d)


@contract("C04", "normal.log_prob_std", targets=[TN + "log_prob_std", TN + "logLambda", TN + "cholLambda"])
def c_flp(vc):
    d, mu, La, o = full(vc)
    n = vc.int("n", lo=1)
    x = vc.array("x", (n, d))
    sn = vc.snap(x, mu, La)
    r = o.log_prob_std(x)
    i = L(vc.idx("i", n))
    a, b = fresh("a"), fresh("b")
    q = sum_over([L(d), L(d)], [a, b], mul(La.at(a, b), sub(x.at(i, a), mu.at(a)), sub(x.at(i, b), mu.at(b))))
    ld = L(vc.mod("hyperion.utils.math").logdet_pdmat(La))
    vc.ensure("log density", eq(r.at(i), sub(mul(HALF, sub(ld, q)), mul(HALF, L(d), tlog(mul(lift(2), pi()))))))
    vc.unchanged("frame", sn)


@contract("C04", "normal.log_prob_nat", targets=[TE + "log_prob_nat", TE + "elbo", TN + "accum_suff_stats", TN + "compute_eta"])
def c_flpn(vc):
    """the natural form agrees with the density; the total over the frames follows from the accumulated statistics"""
    d, mu, La, o = full(vc)
    n = vc.int("n", lo=1)
    x, w, we = stats(vc, n, d)
    sn = vc.snap(x, mu, La) if w is None else vc.snap(x, mu, La, w)
    Nn, u = o.Estep(x, sample_weight=w)
    v = fresh("k")
    vc.ensure("count", eq(L(Nn), sum_over([L(n)], [v], we(v))))
    j = L(vc.idx("j", d))
    vc.ensure("first order", eq(u.at(j), sum_over([L(n)], [v], mul(we(v), x.at(v, j)))))
    F, S = o.unstack_suff_stats(u)
    S = vc.mod("hyperion.utils.math").vec2symmat(S)
    i = L(vc.idx("i", d))
    vc.ensure("second order", eq(S.at(i, j), sum_over([L(n)], [v], mul(we(v), x.at(v, i), x.at(v, j)))))
    a, b, ld = fresh("a"), fresh("b"), L(vc.mod("hyperion.utils.math").logdet_pdmat(La))
    dens = lambda k: sub(mul(HALF, sub(ld, sum_over([L(d), L(d)], [a, b], mul(La.at(a, b), sub(x.at(k, a), mu.at(a)), sub(x.at(k, b), mu.at(b)))))), mul(HALF, L(d), tlog(mul(lift(2), pi()))))
    vc.ensure("elbo", eq(L(o.elbo(x, sample_weight=w)), sum_over([L(n)], [v], mul(we(v), dens(v)))))
    vc.unchanged("frame", sn)


@contract("C04", "normal.mstep", targets=[TN + "Mstep", TN + "_compute_nat_params", TN + "unstack_suff_stats"])
def c_fm(vc):
    d, mu, La, o = full(vc)
    um, ul = vc.case("update_mu"), vc.case("update_Lambda")
    C = vc.mod(N).Normal
    o = C(mu=mu, Lambda=La, x_dim=d, update_mu=um, update_Lambda=ul)
    o.logLambda
    o.Sigma
    Nn = vc.real("N", pos=True)
    F = vc.array("F", (d,))
    S = vc.spd("S", d)
    u = o.stack_suff_stats(F, vc.mod("hyperion.utils.math").symmat2vec(S))
    sn = vc.snap(u, mu, La)
    o.Mstep(Nn, u)
    i, j = L(vc.idx("i", d)), L(vc.idx("j", d))
    m = (lambda k: div(F.at(k), L(Nn))) if um else mu.at
    tag = " (mu %s, Lambda %s)" % (um, ul)
    vc.ensure("mean" + tag, eq(o.mu.at(j), m(j)))
    v = fresh("k")
    if ul:
        cov = lambda i, j: add(div(S.at(i, j), L(Nn)), neg(div(mul(F.at(i), m(j)), L(Nn))), neg(div(mul(m(i), F.at(j)), L(Nn))), mul(m(i), m(j)))
        vc.ensure("precision is the inverse of the covariance" + tag, eq(o.Lambda.at(i, j), inv_el(L(d), cov, i, j)))
    else:
        vc.ensure("precision kept" + tag, eq(o.Lambda.at(i, j), La.at(i, j)))
    vc.ensure("natural parameter 1" + tag, eq(o.eta.at(j), sum_over([L(d)], [v], mul(o.mu.at(v), o.Lambda.at(v, j)))))
    vc.ensure("cached covariance" + tag, eq(o.Sigma.at(i, j), inv_el(L(d), o.Lambda.at, i, j)))
    vc.ensure_eq("cached log det" + tag, o.logLambda, vc.mod("hyperion.utils.math").logdet_pdmat(o.Lambda))
    vc.unchanged("frame", sn)


@contract("C04", "normal.norm_suff_stats", targets=[TN + "norm_suff_stats"])
def c_fn(vc):
    """F_norm = sum of (x-mu) C with C C' = Lambda"""
    d, mu, La, o = full(vc)
    Nn = vc.real("N", pos=True)
    m = vc.int("m", lo=0)
    u = vc.array("u", (add(L(d), L(m)),))
    F0, S0 = vc.array("F0", (d,)), vc.spd("S0", d)
    s = vc.snap(u)
    N1, F = o.norm_suff_stats(Nn, u)
    C = o.cholLambda
    j = L(vc.idx("j", d))
    v = fresh("k")
    vc.ensure("first order", eq(F.at(j), sum_over([L(d)], [v], mul(sub(u.at(v), mul(L(Nn), mu.at(v))), C.at(v, j)))))
    i2, j2 = L(vc.idx("i2", d)), L(vc.idx("j2", d))
    vc.ensure("factor of the precision", eq(sum_over([L(d)], [v], mul(C.at(i2, v), C.at(j2, v))), La.at(i2, j2)))
    N2, u2 = o.norm_suff_stats(Nn, o.stack_suff_stats(F0, vc.mod("hyperion.utils.math").symmat2vec(S0)), return_order2=True)
    S2 = vc.mod("hyperion.utils.math").vec2symmat(u2[d:])
    w = fresh("w")
    cen = lambda p, q: add(S0.at(p, q), neg(mul(F0.at(p), mu.at(q))), neg(mul(F0.at(q), mu.at(p))), mul(L(Nn), mu.at(p), mu.at(q)))
    vc.ensure("second order", eq(S2.at(i2, j2), sum_over([L(d), L(d)], [v, w], mul(C.at(v, i2), cen(v, w), C.at(w, j2)))))
    vc.unchanged("frame", s)


@contract("C04", "normal.A", targets=[TN + "compute_A_std", TN + "Sigma"])
def c_fA(vc):
    d, mu, La, o = full(vc)
    a, b = fresh("a"), fresh("b")
    ld = L(vc.mod("hyperion.utils.math").logdet_pdmat(La))
    q = sum_over([L(d), L(d)], [a, b], mul(La.at(a, b), mu.at(a), mu.at(b)))
    vc.ensure("partition function", eq(L(o.A), add(mul(HALF, L(d), tlog(mul(lift(2), pi()))), mul(HALF, sub(q, ld)))))
    j = L(vc.idx("j", d))
    v = fresh("k")
    vc.ensure("natural parameter 1", eq(o.eta.at(j), sum_over([L(d)], [v], mul(mu.at(v), La.at(v, j)))))
    i = L(vc.idx("i", d))
    vc.ensure("covariance", eq(sum_over([L(d)], [v], mul(La.at(i, v), o.Sigma.at(v, j))), ind(eq(i, j))))


@contract("C04", "normal.save_load", targets=[TN + "save_params", TN + "load_params", TN + "get_config"])
def c_fio(vc):
    d, mu, La, o = full(vc)
    C = vc.mod(N).Normal
    o = C(mu=mu, Lambda=La, x_dim=d, var_floor=vc.real("vf"), update_mu=bool(vc.case("um")), update_Lambda=bool(vc.case("ul")), name="g" if vc.case("named") else None)
    io(vc, C, o)


@contract("C04", "normal.std", targets=[TN + "compute_std", TN + "compute_x_dim_from_eta", TN + "_compute_std_params", TN + "compute_A_nat"])
def c_fstd(vc):
    """the natural parameters give the mean, the precision and the partition function back"""
    d, mu, La, o = full(vc)
    eta = o.eta
    sn = vc.snap(eta, mu, La)
    i, j = L(vc.idx("i", d)), L(vc.idx("j", d))
    m2, L2 = o.compute_std(eta)
    vc.ensure("mean", eq(m2.at(j), mu.at(j)))
    vc.ensure("precision", eq(L2.at(i, j), La.at(i, j)))
    vc.ensure_eq("partition function", o.compute_A_nat(eta), o.A)
    vc.unchanged("frame", sn)
    o.mu, o.Lambda = None, None
    o._compute_std_params()
    vc.ensure("mean kept", eq(o.mu.at(j), mu.at(j)))
    vc.ensure("precision kept", eq(o.Lambda.at(i, j), La.at(i, j)))


@contract("C04", "normal.suff_stats", targets=[TN + "compute_suff_stats", TE + "log_prob_nat", TN + "accum_suff_stats"])
def c_fss(vc):
    """dimensions 1 to 4: the statistics of the frames are the products in the order of the packed matrices"""
    d, mu, La, o = full(vc, vc.choose("d", [1, 2, 3, 4]))
    n = vc.int("n", lo=1)
    x, w, we = stats(vc, n, d)
    sn = vc.snap(x)
    u = o.compute_suff_stats(x)
    vc.ensure_shape("shape", u, (n, d + d * (d + 1) // 2))
    i = L(vc.idx("i", n))
    k = 0
    for a in range(d):
        vc.ensure("frame", eq(u.at(i, num(a)), x.at(i, num(a))))
        for b in range(a, d):
            vc.ensure("products", eq(u.at(i, num(d + k)), mul(x.at(i, num(a)), x.at(i, num(b)))))
            k += 1
    N1, u1 = o.accum_suff_stats(x, sample_weight=w)
    N2, u2 = o.accum_suff_stats(x, u_x=u, sample_weight=w)
    vc.ensure("count", eq(L(N1), L(N2)))
    for a in range(d + d * (d + 1) // 2):
        vc.ensure("sums", eq(u1.at(num(a)), u2.at(num(a))))
    vc.unchanged("inputs", sn)
