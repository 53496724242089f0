from vc import *
import shim_np

X = "hyperion.pdfs.mixtures.exp_family_mixture:ExpFamilyMixture."
MD, MT, MF = "hyperion.pdfs.mixtures.gmm_diag_cov", "hyperion.pdfs.mixtures.gmm_tied_diag_cov", "hyperion.pdfs.mixtures.gmm"
TD, TT, TF = MD + ":GMMDiagCov.", MT + ":GMMTiedDiagCov.", MF + ":GMM."
HALF = div(ONE, lift(2))


def L(v):
    return lift(v)


def PI():
    return lift(shim_np.NP.pi)


def mth(vc):
    return vc.mod("hyperion.utils.math")


def gmm(vc, kind, **kw):
    K, d = vc.int("K", lo=1), vc.int("d", lo=1)
    mu = vc.array("mu", (K, d))
    pi = vc.array("pi", (K,), pos=True)
    if kind == "tied":
        La = vc.array("La", (d,), pos=True)
        vc.assume(tm.forall_rng(L(d), lambda i: gt(La.at(i), ZERO)))
        la = lambda k, j: La.at(j)
        o = vc.mod(MT).GMMTiedDiagCov(mu=mu, Lambda=La, pi=pi, x_dim=d, **kw)
    else:
        La = vc.array("La", (K, d), pos=True)
        vc.assume(tm.forall_rng(L(K), lambda k: tm.forall_rng(L(d), lambda i: gt(La.at(k, i), ZERO))))
        la = La.at
        o = vc.mod(MD).GMMDiagCov(mu=mu, Lambda=La, pi=pi, x_dim=d, **kw)
    return K, d, pi, mu, La, la, o


def joint(n, K, d, x, pi, mu, la):
    """log pi_k N(x_i; mu_k, la_k^-1), the spec"""
    v = fresh("k")

    def fn(i, k):
        q = sub(tlog(la(k, v)), mul(la(k, v), power(sub(x.at(i, v), mu.at(k, v)), 2)))
        return add(tlog(add(pi.at(k), L(1e-15))), mul(HALF, sum_over([L(d)], [v], q)), neg(mul(HALF, L(d), tlog(mul(lift(2), PI())))))
    return SArr((n, K), "r", fn)


@contract("C05", "gmm_diag.log_prob", targets=[TD + "log_prob_std", X + "log_prob_nat", X + "compute_pz_nat", X + "log_pi", TD + "compute_suff_stats", TD + "compute_eta", TD + "compute_A_nat", TD + "logLambda", TD + "cholLambda", TT + "log_prob_std", TT + "compute_eta"])
def c_lp(vc):
    kind = "tied" if vc.case("tied") else "diag"
    K, d, pi, mu, La, la, o = gmm(vc, kind)
    n = vc.int("n", lo=1)
    x = vc.array("x", (n, d))
    sn = vc.snap(x, mu, La, pi)
    lj = joint(n, K, d, x, pi, mu, la)
    s = mth(vc).logsumexp(lj)
    vc.ensure_eq("standard form is the mixture density (%s)" % kind, o.log_prob(x, mode="std"), s)
    vc.ensure_eq("natural form is the mixture density (%s)" % kind, o.log_prob(x), s)
    vc.ensure_eq("posterior probabilities (%s)" % kind, o.compute_pz(x), mth(vc).softmax(lj))
    vc.unchanged("frame", sn)


def S1(n, f):
    v = fresh("k")
    return sum_over([L(n)], [v], f(v))


def data(vc, n, d):
    x = vc.array("x", (n, d))
    w = vc.array("w", (n,), pos=True) if vc.case("weighted") else None
    return x, w, ((lambda i: ONE) if w is None else w.at)


def ux(x, d):
    """(x, x^2)"""
    return lambda i, j: ite(lt(j, L(d)), x.at(i, j), power(x.at(i, sub(j, L(d))), 2))


@contract("C05", "gmm_diag.accum", targets=[X + "accum_suff_stats", X + "_accum_suff_stats_1batch", X + "Estep", X + "compute_pz", TD + "compute_suff_stats"])
def c_acc(vc):
    """zeroth, first and second order statistics are posterior weighted sums over the frames"""
    kind = "tied" if vc.case("tied") else "diag"
    K, d, pi, mu, La, la, o = gmm(vc, kind)
    n = vc.int("n", lo=1)
    x, w, we = data(vc, n, d)
    sn = vc.snap(x, mu, La, pi) if w is None else vc.snap(x, mu, La, pi, w)
    z = o.compute_pz(x)
    N, u = o.Estep(x, sample_weight=w)
    v = fresh("k")
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    vc.ensure_shape("N shape", N, (K,))
    vc.ensure_shape("F shape", u, (K, mul(lift(2), L(d))))
    vc.ensure("N", eq(N.at(k), sum_over([L(n)], [v], mul(we(v), z.at(v, k)))))
    vc.ensure("F", eq(u.at(k, j), sum_over([L(n)], [v], mul(we(v), z.at(v, k), x.at(v, j)))))
    vc.ensure("S", eq(u.at(k, add(L(d), j)), sum_over([L(n)], [v], mul(we(v), z.at(v, k), power(x.at(v, j), 2)))))
    # given statistics
    u0 = o.compute_suff_stats(x)
    su = vc.snap(u0)
    N2, u2 = o.accum_suff_stats(x, u_x=u0, sample_weight=w)
    vc.ensure_eq("N from given statistics", N2, N)
    vc.ensure_eq("statistics from given statistics", u2, u)
    vc.unchanged("given statistics untouched", su)
    vc.unchanged("frame", sn)


@contract("C05", "gmm_diag.accum_batches", targets=[X + "_accum_suff_stats_nbatches"], replay="gmm.accum", timeout=60)
def c_bat(vc):
    """modular: the statistics of a batch (contract gmm_diag.accum) are sums over its frames of weight times a function of the frame"""
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    n, b = vc.int("n", lo=1), vc.int("b", lo=1)
    x, w, we = data(vc, n, d)
    J = L(vc.idx("J", d))
    h = lambda k, e: app("stat", k, e)

    def one(z, u_x=None, sample_weight=None):
        f, m = z.fn(), L(z.shape[0])
        g = (lambda v: ONE) if sample_weight is None else sample_weight.fn()
        st = lambda k: S1(m, lambda v: mul(g(v), h(k, f(v, J))))
        return SArr((K,), "r", st), SArr((K, d), "r", lambda k, j: mul(lift(3), st(k)))
    o._accum_suff_stats_1batch = one
    N, u = o.Estep(x, sample_weight=w, batch_size=b)
    v = fresh("k")
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    upto = lambda m: sum_over([m], [v], mul(we(v), h(k, x.at(v, J))))
    ref = upto(L(n))
    for c in (1, 3):     # prefix sums at the end of pass t+1 (the first pass is peeled) or t
        for p in (1, 0):
            vc.telescope(lambda t, c=c, p=p: mul(lift(c), upto(tm.tmin(mul(add(t, lift(p)), L(b)), L(n)))))
    vc.ensure("N", eq(N.at(k), ref))
    vc.ensure("F", eq(u.at(k, j), mul(lift(3), ref)))


@contract("C05", "gmm_diag.accum_prob", targets=[X + "accum_suff_stats_segments_prob", X + "_accum_suff_stats_segments_prob_1batch"])
def c_prob(vc):
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    n, s = vc.int("n", lo=1), vc.int("s", lo=1)
    x, w, we = data(vc, n, d)
    p = vc.array("p", (n, s))
    sn = vc.snap(x, p)
    z = o.compute_pz(x)
    N, u = o.accum_suff_stats_segments_prob(x, p, sample_weight=w)
    v = fresh("k")
    k, j, g = L(vc.idx("k", K)), L(vc.idx("j", d)), L(vc.idx("g", s))
    vc.ensure("N", eq(N.at(g, k), sum_over([L(n)], [v], mul(we(v), p.at(v, g), z.at(v, k)))))
    vc.ensure("F", eq(u.at(g, k, j), sum_over([L(n)], [v], mul(we(v), p.at(v, g), z.at(v, k), x.at(v, j)))))
    vc.ensure("S", eq(u.at(g, k, add(L(d), j)), sum_over([L(n)], [v], mul(we(v), p.at(v, g), z.at(v, k), power(x.at(v, j), 2)))))
    vc.unchanged("frame", sn)


@contract("C05", "gmm_diag.accum_segments", targets=[X + "accum_suff_stats_segments"])
def c_seg(vc):
    """segments are [first, last] frame pairs"""
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    n, s = vc.int("n", lo=1), vc.int("s", lo=1)
    x, w, we = data(vc, n, d)
    seg = vc.array("seg", (s, 2), "i")
    vc.assume(tm.forall_rng(L(s), lambda g: band(ge(seg.at(g, 0), ZERO), le(seg.at(g, 0), seg.at(g, 1)), lt(seg.at(g, 1), L(n)))))
    z = o.compute_pz(x)
    N, u = o.accum_suff_stats_segments(x, seg, sample_weight=w)
    v = fresh("k")
    k, j, g = L(vc.idx("k", K)), L(vc.idx("j", d)), L(vc.idx("g", s))
    m = add(seg.at(g, 1), ONE, neg(seg.at(g, 0)))
    f = add(seg.at(g, 0), v)
    vc.ensure("N", eq(N.at(g, k), sum_over([m], [v], mul(we(f), z.at(f, k)))))
    vc.ensure("F", eq(u.at(g, k, j), sum_over([m], [v], mul(we(f), z.at(f, k), x.at(f, j)))))


@contract("C05", "gmm_diag.accum_sorttime", targets=[X + "accum_suff_stats_sorttime", X + "_accum_suff_stats_sorttime_1batch"])
def c_st(vc):
    """sliding windows of frame_length frames every frame_shift frames"""
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    n, fl, fs = vc.int("n", lo=1), vc.int("fl", lo=1), vc.int("fs", lo=1)
    vc.assume(le(L(fl), L(n)))
    many = ENG.branch(ge(sub(L(n), L(fl)), L(fs)))      # one window or more (both cases explored)
    x, w, we = data(vc, n, d)
    z = stub_pz(vc, o, n, K)
    N, u = o.accum_suff_stats_sorttime(x, fl, fs, sample_weight=w)
    v = fresh("k")
    s = add(tfdiv(sub(L(n), L(fl)), L(fs)), ONE)
    vc.ensure_shape("windows", N, (s, K))
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))

    def win(g, f):
        en, st = add(mul(g, L(fs)), L(fl)), mul(g, L(fs))
        return sub(sum_over([en], [v], f), sum_over([st], [v], f))     # frames st..en-1
    g = ZERO
    if many:
        g = add(ONE, L(vc.idx("g", sub(s, ONE)))) if vc.case("later") else ZERO
    tag = "" if g is ZERO else " (later windows)"
    vc.ensure("N" + tag, eq(N.at(g, k), win(g, mul(we(v), z.at(v, k)))))
    vc.ensure("F" + tag, eq(u.at(g, k, j), win(g, mul(we(v), z.at(v, k), x.at(v, j)))))
    vc.ensure("S" + tag, eq(u.at(g, k, add(L(d), j)), win(g, mul(we(v), z.at(v, k), power(x.at(v, j), 2)))))


def stub_pz(vc, o, n, K):
    """posteriors replaced by an arbitrary array (modular: compute_pz_nat has its own contract)"""
    z = vc.array("z", (n, K))
    z0 = vc.snap(z)[0][1]
    vc.patch(o, "compute_pz_nat", lambda x, u_x=None: SArr((n, K), "r", lambda i, k: z0.at(i, k)))
    return z0


@contract("C05", "gmm_diag.elbo", targets=[X + "elbo", X + "accum_log_h"])
def c_elbo(vc):
    """sum of posterior weighted joint log densities (for any posteriors: compute_pz_nat is replaced by its contract)"""
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    n = vc.int("n", lo=1)
    x, w, we = data(vc, n, d)
    z0 = stub_pz(vc, o, n, K)
    lj = joint(n, K, d, x, pi, mu, la)
    e = o.elbo(x, sample_weight=w)
    a, b = fresh("a"), fresh("b")
    vc.ensure("elbo", eq(L(e), sum_over([L(n), L(K)], [a, b], mul(we(a), z0.at(a, b), lj.at(a, b)))))
    N, u = o.Estep(x, sample_weight=w)
    vc.ensure("elbo from statistics", eq(L(o.elbo(None, N=N, u_x=u)), L(e)))


@contract("C05", "gmm.sum_suff_stats", targets=[X + "sum_suff_stats"])
def c_sum(vc):
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    R = vc.choose("R", [1, 2, 3])
    Ns = [vc.array("N%d" % r, (K,)) for r in range(R)]
    us = [vc.array("u%d" % r, (K, 4)) for r in range(R)]
    sn = vc.snap(*Ns, *us)
    N, u = o.sum_suff_stats(list(Ns), list(us))
    k, j = L(vc.idx("k", K)), L(vc.idx("j", 4))
    vc.ensure("N", eq(N.at(k), add(*[a.at(k) for _, a in sn[:R]])))
    vc.ensure("u", eq(u.at(k, j), add(*[a.at(k, j) for _, a in sn[R:]])))
    vc.unchanged("frame", sn)


@contract("C05", "gmm_diag.mstep", targets=[TD + "Mstep", TT + "Mstep", TD + "_compute_nat_params", TD + "unstack_suff_stats", TD + "Sigma"])
def c_ms(vc):
    kind = "tied" if vc.case("tied") else "diag"
    um, ul, up = vc.case("update_mu"), vc.case("update_Lambda"), vc.case("update_pi")
    vf = vc.real("vf", pos=True)
    K, d, pi, mu, La, la, o = gmm(vc, kind, var_floor=vf, update_mu=um, update_Lambda=ul, update_pi=up)
    N = vc.array("N", (K,), pos=True)
    u = vc.array("u", (K, mul(lift(2), L(d))))
    vc.assume(tm.forall_rng(L(K), lambda k: gt(N.at(k), ZERO)))
    o.log_pi
    o.logLambda
    o.Sigma
    o.cholLambda
    sn = vc.snap(N, u, mu, La, pi)
    o.Mstep(N, u)
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    tag = " (%s, mu %s, Lambda %s, pi %s)" % (kind, um, ul, up)
    m = (lambda k, j: div(u.at(k, j), N.at(k))) if um else mu.at
    vc.ensure("means" + tag, eq(o.mu.at(k, j), m(k, j)))
    v = fresh("k")
    tot = sum_over([L(K)], [v], N.at(v))
    var = lambda k, j: add(div(u.at(k, add(L(d), j)), N.at(k)), mul(lift(-2), m(k, j), div(u.at(k, j), N.at(k))), power(m(k, j), 2))
    fl = mul(L(vf), div(sum_over([L(K)], [v], var(v, j)), L(K)))
    flo = lambda k: tmax(var(k, j), fl)
    if kind == "diag":
        vc.ensure("precisions" + tag, eq(o.Lambda.at(k, j), div(ONE, flo(k)) if ul else La.at(k, j)))
        lam_ = o.Lambda.at(k, j)
        vc.ensure("cached covariance" + tag, eq(mul(o.Sigma.at(k, j), lam_), ONE))
        vc.ensure("cached log det" + tag, eq(o.logLambda.at(k), sum_over([L(d)], [v], tlog(o.Lambda.at(k, v)))))
        vc.ensure("cached factor" + tag, eq(power(o.cholLambda.at(k, j), 2), lam_))
    else:
        pool = div(sum_over([L(K)], [v], mul(N.at(v), flo(v))), tot)
        vc.ensure("precisions" + tag, eq(o.Lambda.at(j), div(ONE, pool) if ul else La.at(j)))
        lam_ = o.Lambda.at(j)
        vc.ensure("cached covariance" + tag, eq(mul(o.Sigma.at(j), lam_), ONE))
    vc.ensure("weights" + tag, eq(o.pi.at(k), div(N.at(k), tot) if up else pi.at(k)))
    vc.ensure("cached log weights" + tag, eq(o.log_pi.at(k), tlog(add(o.pi.at(k), L(1e-15)))))
    vc.ensure("natural parameter 1" + tag, eq(o.eta.at(k, j), mul(lam_, o.mu.at(k, j))))
    vc.ensure("natural parameter 2" + tag, eq(o.eta.at(k, add(L(d), j)), mul(neg(HALF), lam_)))
    vc.unchanged("frame", sn)


@contract("C05", "gmm_diag.mstep_min_N", targets=[TD + "Mstep", TT + "Mstep"])
def c_msn(vc):
    """components with few counts: out of the floor, and dropped when the weights are updated"""
    kind = "diag"
    um, ul, up = vc.choose("updates", [(True, True, True), (False, True, False)])
    vf, mn = vc.real("vf", pos=True), vc.real("mn", pos=True)
    K, d, pi, mu, La, la, o = gmm(vc, kind, var_floor=vf, min_N=mn, update_mu=um, update_Lambda=ul, update_pi=up)
    N = vc.array("N", (K,), pos=True)
    u = vc.array("u", (K, mul(lift(2), L(d))))
    v = fresh("k")
    big = lambda k: ind(lt(L(mn), N.at(k)))
    kept = lambda k: ind(le(L(mn), N.at(k)))
    nb = sum_over([L(K)], [v], big(v))
    vc.assume(ge(nb, ONE))
    N0 = N.copy()
    sn = vc.snap(N, u)
    o.Mstep(N, u)
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    tag = " (%s, mu %s, Lambda %s, pi %s)" % (kind, um, ul, up)
    m = (lambda k, j: div(u.at(k, j), N0.at(k))) if um else mu.at
    low = lt(N0.at(k), L(mn))
    mref = ite(low, ZERO, m(k, j)) if um and up else m(k, j)
    vc.ensure("means" + tag, eq(o.mu.at(k, j), mref))
    var = lambda k, j: add(div(u.at(k, add(L(d), j)), N0.at(k)), mul(lift(-2), m(k, j), div(u.at(k, j), N0.at(k))), power(m(k, j), 2))
    fl = mul(L(vf), div(sum_over([L(K)], [v], mul(big(v), var(v, j))), nb))
    flo = lambda k: tmax(var(k, j), fl)
    if kind == "diag":
        ref = div(ONE, flo(k)) if ul else La.at(k, j)
        if ul and up:
            ref = ite(low, ONE, ref)
        vc.ensure("precisions" + tag, eq(o.Lambda.at(k, j), ref))
        vc.ensure("cached covariance" + tag, eq(mul(o.Sigma.at(k, j), o.Lambda.at(k, j)), ONE))
        lam_ = o.Lambda.at(k, j)
    else:
        tot = sum_over([L(K)], [v], N0.at(v))
        pool = div(sum_over([L(K)], [v], mul(N0.at(v), flo(v))), tot)
        vc.ensure("precisions" + tag, eq(o.Lambda.at(j), div(ONE, pool) if ul else La.at(j)))
        lam_ = o.Lambda.at(j)
    vc.ensure("weights" + tag, eq(o.pi.at(k), div(mul(kept(k), N0.at(k)), sum_over([L(K)], [v], mul(kept(v), N0.at(v)))) if up else pi.at(k)))
    vc.ensure("natural parameter 1" + tag, eq(o.eta.at(k, j), mul(lam_, o.mu.at(k, j))))
    vc.ensure("natural parameter 2" + tag, eq(o.eta.at(k, add(L(d), j)), mul(neg(HALF), lam_)))
    vc.unchanged("frame", sn)


@contract("C05", "gmm_diag.norm_suff_stats", targets=[TD + "norm_suff_stats"])
def c_norm(vc):
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    N = vc.array("N", (K,), pos=True)
    u = vc.array("u", (K, mul(lift(2), L(d))))
    sn = vc.snap(N, u, mu, La)
    N1, F1 = o.norm_suff_stats(N, u)
    N2, u2 = o.norm_suff_stats(N, u, return_order2=True)
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    vc.ensure("first order", eq(F1.at(k, j), mul(tsqrt(la(k, j)), sub(u.at(k, j), mul(N.at(k), mu.at(k, j))))))
    vc.ensure("first order of both", eq(u2.at(k, j), F1.at(k, j)))
    s2 = add(u.at(k, add(L(d), j)), mul(lift(-2), mu.at(k, j), u.at(k, j)), mul(N.at(k), power(mu.at(k, j), 2)))
    vc.ensure("second order", eq(u2.at(k, add(L(d), j)), mul(la(k, j), s2)))
    vc.unchanged("frame", sn)


@contract("C05", "gmm_diag.params", targets=[TD + "compute_eta", TD + "compute_std", TD + "compute_A_nat", TD + "compute_A_std", TD + "_compute_std_params", TD + "_compute_gmm_nat_std", TT + "compute_std"])
def c_par(vc):
    kind = "tied" if vc.case("tied") else "diag"
    K, d, pi, mu, La, la, o = gmm(vc, kind)
    C = type(o)
    q = C(pi=pi, eta=C.compute_eta(mu, La), x_dim=d)
    vc.ensure_eq("means", q.mu, mu)
    vc.ensure_eq("precisions", q.Lambda, La)
    vc.ensure_eq("A", q.A, o.A)
    vc.ensure_eq("A of both forms", C.compute_A_nat(C.compute_eta(mu, La)), C.compute_A_std(mu, La))
    vc.ensure("initialised", L(bool(o.is_init)))


@contract("C05", "gmm_diag.split_comp", targets=[TD + "split_comp"])
def c_split(vc):
    """each component is replaced by two with half the weight, shifted by +-1 standard deviation, with a quarter of the variance"""
    K, d, pi, mu, La, la, o = gmm(vc, "diag")
    sn = vc.snap(pi, mu, La)
    q = o.split_comp(2)
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    vc.ensure_shape("components", q.pi, (mul(lift(2), L(K)),))
    for r, s in ((0, 1), (1, -1)):
        p = add(mul(lift(2), k), L(r))
        vc.ensure("weight %d" % r, eq(q.pi.at(p), mul(HALF, pi.at(k))))
        vc.ensure("mean %d" % r, eq(q.mu.at(p, j), add(mu.at(k, j), mul(L(s), div(ONE, tsqrt(la(k, j)))))))
        vc.ensure("precision %d" % r, eq(q.Lambda.at(p, j), mul(lift(4), la(k, j))))
    vc.unchanged("frame", sn)


@contract("C05", "gmm_diag.save_load", targets=[TD + "save_params", TD + "load_params", TD + "get_config", X + "get_config"])
def c_io(vc):
    kind = "tied" if vc.case("tied") else "diag"
    w = vc.choose("w", [0, 1, 2])
    K, d, pi, mu, La, la, o = gmm(vc, kind, var_floor=vc.real("vf"), min_N=vc.real("mn"), name=("g", None, "h")[w], update_mu=w == 0, update_Lambda=w == 1, update_pi=w == 2)
    o.save("d/m.h5")
    q = type(o).load("d/m.h5")
    for k in ("pi", "mu", "Lambda", "eta", "A"):
        vc.ensure_eq(k, getattr(q, k), getattr(o, k))
    for k in ("name", "x_dim", "num_comp", "var_floor", "min_N", "update_mu", "update_Lambda", "update_pi"):
        vc.ensure_eq(k, getattr(q, k), getattr(o, k))


# ------------------------------------------------------------------ full covariance
def spds(vc, name, K, d):
    """K symmetric positive definite matrices"""
    def h(k, i, j):
        if i.uid > j.uid:
            return tm._mk("app", (k, j, i), (name,), "N")
        return None
    tm.APPSIMP[name] = h
    return SArr((K, d, d), "f", lambda k, i, j: app(name, k, i, j), name=name)


def full(vc, K=None, **kw):
    K, d = vc.int("K", lo=1) if K is None else K, vc.int("d", lo=1)
    mu = vc.array("mu", (K, d))
    pi = vc.array("pi", (K,), pos=True)
    La = spds(vc, "La", K, d)
    return K, d, pi, mu, La, vc.mod(MF).GMM(mu=mu, Lambda=La, pi=pi, x_dim=d, **kw)


@contract("C05", "gmm.log_prob_std", targets=[TF + "log_prob_std", TF + "compute_Lambda_aux", TF + "logLambda", TF + "cholLambda"])
def c_flp(vc):
    K, d, pi, mu, La, o = full(vc)
    n = vc.int("n", lo=1)
    x = vc.array("x", (n, d))
    sn = vc.snap(x, mu, La, pi)
    r = o.log_prob(x, mode="std")
    a, b = fresh("a"), fresh("b")

    def fn(i, k):
        q = sum_over([L(d), L(d)], [a, b], mul(La.at(k, a, b), sub(x.at(i, a), mu.at(k, a)), sub(x.at(i, b), mu.at(k, b))))
        ld = o.logLambda.at(k)
        return add(tlog(add(pi.at(k), L(1e-15))), mul(HALF, sub(ld, q)), neg(mul(HALF, L(d), tlog(mul(lift(2), PI())))))
    kk = L(vc.idx("kk", K))
    vc.ensure("log determinants", eq(o.logLambda.at(kk), L(mth(vc).logdet_pdmat(La[mk(kk)]))))
    vc.ensure_eq("standard form is the mixture density", r, mth(vc).logsumexp(SArr((n, K), "r", fn)))
    vc.unchanged("frame", sn)


@contract("C05", "gmm.params", targets=[TF + "compute_eta", TF + "compute_A_nat", TF + "compute_A_std", TF + "Sigma", TF + "compute_std"])
def c_fpar(vc):
    from shim_np import inv_el
    K, d, pi, mu, La, o = full(vc)
    k, i, j = L(vc.idx("k", K)), L(vc.idx("i", d)), L(vc.idx("j", d))
    v = fresh("k")
    vc.ensure("natural parameter 1", eq(o.eta.at(k, j), sum_over([L(d)], [v], mul(mu.at(k, v), La.at(k, v, j)))))
    vc.ensure("covariance", eq(o.Sigma.at(k, i, j), inv_el(L(d), lambda a, b: La.at(k, a, b), i, j)))
    E2 = mth(vc).vec2symmat(o.eta[mk(k)][d:], diag_factor=2) / 2
    vc.ensure("natural parameter 2", eq(E2.at(i, j), mul(neg(HALF), La.at(k, i, j))))


@contract("C05", "gmm.norm_suff_stats", targets=[TF + "norm_suff_stats", TF + "unstack_suff_stats"])
def c_fnorm(vc):
    K, d, pi, mu, La, o = full(vc)
    N = vc.array("N", (K,), pos=True)
    m = vc.int("m", lo=0)
    u = vc.array("u", (K, add(L(d), L(m))))
    sn = vc.snap(N, u, mu, La)
    N1, F = o.norm_suff_stats(N, u)
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    i2, j2 = L(vc.idx("i2", d)), L(vc.idx("j2", d))
    v = fresh("v")
    C = o.cholLambda
    vc.ensure("factor of the precision", eq(sum_over([L(d)], [v], mul(C.at(k, i2, v), C.at(k, j2, v))), La.at(k, i2, j2)))
    vc.ensure("first order", eq(F.at(k, j), sum_over([L(d)], [v], mul(sub(u.at(k, v), mul(N.at(k), mu.at(k, v))), C.at(k, v, j)))))
    vc.unchanged("frame", sn)


@contract("C05", "gmm.mstep", targets=[TF + "Mstep", TF + "_compute_nat_params"])
def c_fms(vc):
    """means, weights and the covariances handed to the flooring (fullcov_varfloor is replaced by its contract: a symmetric function of its inputs)"""
    um, up = vc.case("update_mu"), vc.case("update_pi")
    K, d, pi, mu, La, o = full(vc, update_mu=um, update_Lambda=False, update_pi=up)
    N = vc.array("N", (K,), pos=True)
    vc.assume(tm.forall_rng(L(K), lambda k: gt(N.at(k), ZERO)))
    m = vc.int("m", lo=0)
    u = vc.array("u", (K, add(L(d), L(m))))
    o.log_pi
    o.Sigma
    sn = vc.snap(N, u, La, pi)
    o.Mstep(N, u)
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    tag = " (mu %s, pi %s)" % (um, up)
    v = fresh("k")
    tot = sum_over([L(K)], [v], N.at(v))
    vc.ensure("means" + tag, eq(o.mu.at(k, j), div(u.at(k, j), N.at(k)) if um else mu.at(k, j)))
    vc.ensure("weights" + tag, eq(o.pi.at(k), div(N.at(k), tot) if up else pi.at(k)))
    vc.ensure("cached log weights" + tag, eq(o.log_pi.at(k), tlog(add(o.pi.at(k), L(1e-15)))))
    vc.ensure("natural parameter 1" + tag, eq(o.eta.at(k, j), sum_over([L(d)], [v], mul(o.mu.at(k, v), La.at(k, v, j)))))
    vc.unchanged("frame", sn)


@contract("C05", "gmm.suff_stats", targets=[TF + "compute_suff_stats"])
def c_fss(vc):
    """dimensions 1 to 4: the statistics of the frames are the products in the order of the packed matrices"""
    d = vc.choose("d", [1, 2, 3, 4])
    n = vc.int("n", lo=1)
    x = vc.array("x", (n, d))
    sn = vc.snap(x)
    u = vc.mod(MF).GMM.compute_suff_stats(x)
    vc.ensure_shape("shape", u, (n, d + d * (d + 1) // 2))
    i = L(vc.idx("i", n))
    k = 0
    for a in range(d):
        vc.ensure("frame", eq(u.at(i, num(a)), x.at(i, num(a))))
        for b in range(a, d):
            vc.ensure("products", eq(u.at(i, num(d + k)), mul(x.at(i, num(a)), x.at(i, num(b)))))
            k += 1
    vc.unchanged("inputs", sn)


def packed(vc, K, d):
    """first order statistics F and packed second order statistics of the symmetric matrices S[k]"""
    F, S = vc.array("F", (K, d)), spds(vc, "S", K, d)
    m = mth(vc)
    row = lambda k: m.symmat2vec(SArr((d, d), "f", lambda a, b: S.at(k, a, b)))
    return F, S, SArr((K, add(L(d), L(row(ZERO).shape[0]))), "f", lambda k, c: ite(lt(c, L(d)), F.at(k, c), row(k).at(sub(c, L(d)))))


@contract("C05", "gmm.norm_suff_stats2", targets=[TF + "norm_suff_stats", TF + "unstack_suff_stats", TF + "stack_suff_stats"])
def c_fnorm2(vc):
    """second order: C' (S - F mu' - mu F' + N mu mu') C"""
    K, d, pi, mu, La, o = full(vc)
    N = vc.array("N", (K,), pos=True)
    F, S, u = packed(vc, K, d)
    N1, r = o.norm_suff_stats(N, u, return_order2=True)
    k, j, i2, j2 = L(vc.idx("k", K)), L(vc.idx("j", d)), L(vc.idx("i2", d)), L(vc.idx("j2", d))
    v, w = fresh("v"), fresh("w")
    C = o.cholLambda
    vc.ensure("first order", eq(r.at(k, j), sum_over([L(d)], [v], mul(sub(F.at(k, v), mul(N.at(k), mu.at(k, v))), C.at(k, v, j)))))
    S2 = mth(vc).vec2symmat(r[mk(k)][d:])
    cen = lambda p, q: add(S.at(k, p, q), neg(mul(F.at(k, p), mu.at(k, q))), neg(mul(F.at(k, q), mu.at(k, p))), mul(N.at(k), mu.at(k, p), mu.at(k, q)))
    vc.ensure("second order", eq(S2.at(i2, j2), sum_over([L(d), L(d)], [v, w], mul(C.at(k, v, i2), cen(v, w), C.at(k, w, j2)))))


@contract("C05", "gmm.mstep_cov", targets=[TF + "Mstep", TF + "_compute_nat_params", TF + "Sigma", TF + "cholLambda", TF + "logLambda"])
def c_fmc(vc):
    """precision update: inverse of the floored S/N - F mu'/N - mu F'/N + mu mu', floor = var_floor times the mean covariance
    (fullcov_varfloor is replaced by a stand-in that scales its argument)"""
    um = vc.case("update_mu")
    vf = vc.real("vf", pos=True)
    K, d, pi, mu, La, o = full(vc, update_mu=um, update_Lambda=True, update_pi=False, var_floor=vf)
    o.Sigma, o.logLambda
    N = vc.array("N", (K,), pos=True)
    vc.assume(tm.forall_rng(L(K), lambda k: gt(N.at(k), ZERO)))
    F, S, u = packed(vc, K, d)
    seen, fs = [], vc.real("fs", pos=True)
    # the partition function of the natural parameters is the concern of gmm.params
    vc.patch(vc.mod("hyperion.pdfs.core.normal").Normal, "compute_A_nat", staticmethod(lambda eta: mk(ZERO)))

    def varfloor(A, Fl, F_is_chol=False, lower=False):
        seen.append((A, Fl, F_is_chol, lower))
        return A * fs
    vc.patch(vc.mod(MF), "fullcov_varfloor", varfloor)
    sn = vc.snap(N, mu if not um else N)
    o.Mstep(N, u)
    k, i, j = L(vc.idx("k", K)), L(vc.idx("i", d)), L(vc.idx("j", d))
    tag = " (mu %s)" % um
    m = (lambda k, j: div(F.at(k, j), N.at(k))) if um else mu.at
    cov = lambda k, i, j: add(div(S.at(k, i, j), N.at(k)), neg(div(mul(F.at(k, i), m(k, j)), N.at(k))), neg(div(mul(m(k, i), F.at(k, j)), N.at(k))), mul(m(k, i), m(k, j)))
    from shim_np import inv_el
    vc.ensure("means" + tag, eq(o.mu.at(k, j), m(k, j)))
    vc.ensure("precision" + tag, eq(o.Lambda.at(k, i, j), div(inv_el(L(d), lambda a, b: cov(k, a, b), i, j), L(fs))))
    v, w = fresh("v"), fresh("w")
    A, Fl, ch, low = seen[-1]
    vc.ensure("upper Cholesky floor" + tag, L(bool(ch and not low)))
    vc.ensure("floor" + tag, eq(sum_over([L(d)], [v], mul(Fl.at(v, i), Fl.at(v, j))), mul(L(vf), div(sum_over([L(K)], [w], cov(w, i, j)), L(K)))))
    vc.ensure("natural parameter 1" + tag, eq(o.eta.at(k, j), sum_over([L(d)], [v], mul(o.mu.at(k, v), o.Lambda.at(k, v, j)))))
    vc.ensure("covariance" + tag, eq(o.Sigma.at(k, i, j), inv_el(L(d), lambda a, b: o.Lambda.at(k, a, b), i, j)))
    vc.unchanged("frame", sn)


@contract("C05", "gmm.save_load", targets=[TF + "save_params", TF + "load_params", TF + "get_config"])
def c_fio(vc):
    w = vc.choose("w", [0, 1, 2])
    K, d, pi, mu, La, o = full(vc, var_floor=vc.real("vf"), min_N=vc.real("mn"), name=("g", None, "h")[w], update_mu=w == 0, update_Lambda=w == 1, update_pi=w == 2)
    o.save("d/m.h5")
    q = type(o).load("d/m.h5")
    for k in ("pi", "mu", "Lambda", "eta", "A"):
        vc.ensure_eq(k, getattr(q, k), getattr(o, k))
    for k in ("name", "x_dim", "num_comp", "var_floor", "min_N", "update_mu", "update_Lambda", "update_pi"):
        vc.ensure_eq(k, getattr(q, k), getattr(o, k))


@contract("C05", "gmm.split_comp", targets=[TF + "split_comp"])
def c_fsplit(vc):
    """1 to 3 components: each component is replaced by two with half the weight, shifted by +-1 standard deviation along every axis, with a quarter of the covariance
    (eigh at its contract: a function of the matrix)"""
    K, d, pi, mu, La, o = full(vc, vc.choose("K", [1, 2, 3]))
    sn = vc.snap(pi, mu, La)
    S = o.Sigma

    def eigh(A, *a, **k):
        A = shim_np.NP.asarray(A)
        E = lambda n, *ix: tm.lam(n, [L(d), *ix], 2, lambda p, q: A.at(p, q))
        return SArr((d,), "f", lambda i: E("eigval", i)), SArr((d, d), "f", lambda i, j: E("eigvec", i, j))
    vc.patch(vc.mod(MF).la, "eigh", eigh)
    q = o.split_comp(2)
    j, i2 = L(vc.idx("j", d)), L(vc.idx("i2", d))
    vc.ensure_shape("components", q.pi, (2 * K,))
    v = fresh("v")
    for k, r in [(num(k), r) for k in range(K) for r in range(2)]:
        w, V = eigh(S[mk(k)])
        dev = sum_over([L(d)], [v], mul(V.at(j, v), tsqrt(w.at(v))))
        s = 1 - 2 * r
        p = add(mul(lift(2), k), L(r))
        vc.ensure("weight %d" % r, eq(q.pi.at(p), mul(HALF, pi.at(k))))
        vc.ensure("mean %d" % r, eq(q.mu.at(p, j), add(mu.at(k, j), mul(L(s), dev))))
        vc.ensure("precision %d" % r, eq(q.Lambda.at(p, i2, j), mul(lift(4), La.at(k, i2, j))))
    vc.unchanged("frame", sn)
