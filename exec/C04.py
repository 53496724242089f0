from harness import *
from hyperion.pdfs.core import Normal, NormalDiagCov

D, N = "hyperion.pdfs.core.normal_diag_cov:NormalDiagCov.", "hyperion.pdfs.core.normal:Normal."
E = "hyperion.pdfs.core.exp_family:ExpFamily."
L2P = np.log(2 * np.pi)


def gen_diag(r, d=None, **kw):
    d = r.size(1, 4) if d is None else d
    d = min(d, 12)
    mu, La = r.arr(d), r.posarr(d)
    return d, mu, La, NormalDiagCov(mu=mu.copy(), Lambda=La.copy(), x_dim=d, **kw)


def gen_full(r, d=None, **kw):
    d = min(r.size(1, 4) if d is None else d, 8)
    mu, La = r.arr(d), r.spd(d)
    return d, mu, La, Normal(mu=mu.copy(), Lambda=La.copy(), x_dim=d, **kw)


def lpd(x, mu, La):
    """log density, precision matrix La"""
    La = np.diag(La) if La.ndim == 1 else La
    z = x - mu
    return 0.5 * (np.linalg.slogdet(La)[1] - len(mu) * L2P - np.einsum("ni,ij,nj->n", z, La, z))


def data(r, d, n=None):
    n = r.size(1, 10) if n is None else n
    x = r.arr(n, d)
    w = r.posarr(n) if r.bool() else None
    return n, x, w, (np.ones(n) if w is None else w)


def sstats(x, full):
    d = x.shape[1]
    if not full:
        return np.hstack((x, x * x))
    i, j = np.triu_indices(d)
    return np.hstack((x, x[:, i] * x[:, j]))


@case("C04", "normal_diag.log_prob", [D + "log_prob_std", E + "log_prob_nat", E + "log_prob", D + "compute_suff_stats", D + "compute_eta", D + "compute_A_nat", D + "logLambda", D + "cholLambda"])
def dlp(r):
    d, mu, La, o = gen_diag(r)
    x = r.arr(r.size(1, 8), d)
    x0 = x.copy()
    for m in r.pick(("std", "nat"), ("nat", "std", "nat")):
        close(o.log_prob(x, method=m), lpd(x, mu, La), "log density (%s)" % m, 1e-6)
    close(o.log_prob(x, u_x=sstats(x, False)), lpd(x, mu, La), "log density given the statistics", 1e-6)
    check(np.array_equal(x, x0) and np.array_equal(o.mu, mu) and np.array_equal(o.Lambda, La), "modified")


def params(r, gen, C, inv):
    d, mu, La, o = gen(r)
    q = C(eta=C.compute_eta(mu, La), x_dim=d)
    close(q.mu, mu, "mean from eta")
    close(q.Lambda, La, "precision from eta")
    close(q.A, C.compute_A_std(mu, La), "A std")
    close(C.compute_A_nat(q.eta), C.compute_A_std(mu, La), "A nat")
    close(C.compute_std(o.eta)[0], mu, "compute_std mean")
    close(C.compute_std(o.eta)[1], La, "compute_std precision")
    close(q.Sigma, inv(La), "Sigma")
    close(q.logLambda, np.linalg.slogdet(np.diag(La) if La.ndim == 1 else La)[1], "logLambda")
    x = r.arr(3, d)
    close(q.log_prob(x), lpd(x, mu, La), "density of the model built from eta", 1e-6)
    close(q.log_prob(x, method="std"), lpd(x, mu, La), "std density of the model built from eta", 1e-6)
    check(q.is_init and not C(x_dim=d).is_init, "is_init")


@case("C04", "normal_diag.params", [D + "compute_eta", D + "compute_std", D + "compute_A_nat", D + "compute_A_std", D + "Sigma"])
def dpar(r):
    params(r, gen_diag, NormalDiagCov, lambda v: 1 / v)


def accum(r, gen, full):
    d, mu, La, o = gen(r)
    n, x, w, ww = data(r, d, r.size(1, 20))
    b = r.pick(None, 1, 2, 3, n, n + 1, r.int(1, n + 2))
    c = x.copy(), ww.copy()
    f = r.pick(o.Estep, o.accum_suff_stats)
    Nn, u = f(x, sample_weight=w, batch_size=b)
    t = sstats(x, full)
    close(Nn, ww.sum(), "count")
    close(u, (ww[:, None] * t).sum(0), "accumulated statistics (batch_size=%s)" % b)
    t0 = t.copy()
    Nn, u = f(x, u_x=t, sample_weight=w, batch_size=b)
    close(Nn, ww.sum(), "count of given statistics")
    close(u, (ww[:, None] * t0).sum(0), "given statistics")
    check(np.array_equal(t, t0), "given statistics overwritten")
    check(np.array_equal(x, c[0]) and (w is None or np.array_equal(w, c[1])), "input modified")


@case("C04", "normal_diag.accum", [E + "accum_suff_stats", E + "_accum_suff_stats_1batch", E + "_accum_suff_stats_nbatches", E + "Estep", D + "compute_suff_stats"], weight=2)
def dacc(r):
    accum(r, gen_diag, False)


@case("C04", "normal.accum", [N + "accum_suff_stats", N + "compute_suff_stats", E + "_accum_suff_stats_nbatches"], weight=2)
def facc(r):
    accum(r, gen_full, True)
    d, mu, La, o = gen_full(r)
    x = r.arr(r.size(1, 5), d)
    close(o.compute_suff_stats(x), sstats(x, True), "packed statistics")


@case("C04", "exp_family.add_suff_stats", [E + "add_suff_stats"])
def addst(r):
    k = r.size(1, 5)
    Ns = [r.pos() for _ in range(k)]
    us = [r.arr(4) for _ in range(k)]
    c = [u.copy() for u in us]
    o = gen_diag(r)[3]
    a, u = o.add_suff_stats(Ns, us)
    close(a, sum(Ns), "count")
    close(u, sum(c), "sum of the statistics")
    check(all(np.array_equal(p, q) for p, q in zip(us, c)), "input modified")


def mstep(r, gen, full):
    um, ul = r.bool(0.7), r.bool(0.8)
    vf = r.pick(1e-5, 1e-2, 0.5)
    d, mu, La, o = gen(r, update_mu=um, update_Lambda=ul, var_floor=vf)
    n, x, w, ww = data(r, d, r.size(d + 3, d + 12))
    x = x + 0.1 * r.np.randn(*x.shape)
    if r.bool():
        o.logLambda, o.cholLambda, o.Sigma
    if r.bool():
        o.Mstep(*o.Estep(x, sample_weight=w))
    else:
        o.fit(x, sample_weight=w, batch_size=r.pick(None, 3))
    m = (ww[:, None] * x).sum(0) / ww.sum() if um else mu
    z = x - m
    S = np.einsum("n,ni,nj->ij", ww, z, z) / ww.sum()
    tag = " (mu %s, Lambda %s)" % (um, ul)
    close(o.mu, m, "mean" + tag)
    if full:
        close(o.Lambda, np.linalg.inv(S) if ul else La, "precision" + tag, 1e-5)
        close(o.Sigma, np.linalg.inv(o.Lambda), "cached covariance" + tag, 1e-6)
    else:
        close(o.Lambda, 1 / np.maximum(np.diag(S), vf) if ul else La, "precision" + tag, 1e-6)
        close(o.Sigma, 1 / o.Lambda, "cached covariance" + tag)
    y = r.arr(3, d)
    close(o.log_prob(y), lpd(y, o.mu, o.Lambda), "density after the M-step" + tag, 1e-5)
    close(o.log_prob(y, method="std"), lpd(y, o.mu, o.Lambda), "std density after the M-step" + tag, 1e-5)


@case("C04", "normal_diag.mstep", [D + "Mstep", D + "_compute_nat_params", D + "unstack_suff_stats", E + "fit"], weight=1.5)
def dm(r):
    mstep(r, gen_diag, False)


@case("C04", "normal.mstep", [N + "Mstep", N + "_compute_nat_params", N + "unstack_suff_stats", E + "fit"], weight=1.5)
def fm(r):
    mstep(r, gen_full, True)


def norm(r, gen, full):
    d, mu, La, o = gen(r)
    n, x, w, ww = data(r, d)
    Nn, u = o.Estep(x, sample_weight=w)
    u0 = u.copy()
    N1, F = o.norm_suff_stats(Nn, u)
    N2, u2 = o.norm_suff_stats(Nn, u, return_order2=True)
    C = o.cholLambda if full else np.diag(np.sqrt(La))
    if full:
        close(C @ C.T, La, "factor of the precision")
    z = (x - mu) @ C
    close(F, (ww[:, None] * z).sum(0), "first order")
    close(u2, (ww[:, None] * sstats(z, full)).sum(0), "first and second order", 1e-5)
    close([N1, N2], [Nn, Nn], "count")
    check(np.array_equal(u, u0), "statistics modified")


@case("C04", "normal_diag.norm_suff_stats", [D + "norm_suff_stats"])
def dn(r):
    norm(r, gen_diag, False)


@case("C04", "normal.norm_suff_stats", [N + "norm_suff_stats"])
def fn(r):
    norm(r, gen_full, True)


def elbo(r, gen):
    d, mu, La, o = gen(r)
    n, x, w, ww = data(r, d)
    t = (ww * lpd(x, mu, La)).sum()
    close(o.elbo(x, sample_weight=w), t, "elbo", 1e-5)
    close(o.elbo(x, sample_weight=w, batch_size=r.int(1, n + 1)), t, "elbo in batches", 1e-5)
    Nn, u = o.Estep(x, sample_weight=w)
    close(o.elbo(x, u_x=u, N=Nn), t, "elbo from statistics", 1e-5)


@case("C04", "normal_diag.elbo", [E + "elbo", E + "accum_log_h"])
def delbo(r):
    elbo(r, gen_diag)


@case("C04", "normal.log_prob_nat", [E + "log_prob_nat", E + "elbo", N + "accum_suff_stats", N + "compute_eta"])
def flpn(r):
    d, mu, La, o = gen_full(r)
    x = r.arr(r.size(1, 8), d)
    close(o.log_prob(x), lpd(x, mu, La), "natural form", 1e-5)
    elbo(r, gen_full)


@case("C04", "normal.log_prob_std", [N + "log_prob_std", N + "logLambda", N + "cholLambda"])
def flp(r):
    d, mu, La, o = gen_full(r)
    x = r.arr(r.size(1, 8), d)
    x0 = x.copy()
    close(o.log_prob(x, method="std"), lpd(x, mu, La), "log density", 1e-6)
    check(np.array_equal(x, x0) and np.array_equal(o.Lambda, La), "modified")


@case("C04", "normal.A", [N + "compute_A_std", N + "compute_A_nat", N + "compute_std", N + "Sigma"])
def fA(r):
    params(r, gen_full, Normal, np.linalg.inv)


def io(r, C, gen):
    d, mu, La, o = gen(r)
    f32 = lambda a: a.astype("float32").astype(float)
    kw = dict(x_dim=d, var_floor=r.pick(1e-5, 0.25), update_mu=r.bool(), update_Lambda=r.bool(), name=r.pick(None, "g"))
    o = C(mu=f32(mu), Lambda=f32(La), **kw)
    f = os.path.join(r.tmp, "m.h5")
    o.save(f)
    q = C.load(f)
    same(q.mu, o.mu, "mu")
    same(q.Lambda, o.Lambda, "Lambda")
    close(q.eta, o.eta, "eta")
    for k in ("name", "x_dim", "var_floor", "update_mu", "update_Lambda"):
        check(getattr(q, k) == getattr(o, k), "%s: %r saved as %r" % (k, getattr(o, k), getattr(q, k)))
    x = r.arr(3, d)
    close(q.log_prob(x), o.log_prob(x), "density after load")


@case("C04", "normal_diag.save_load", [D + "save_params", D + "load_params", D + "get_config"], weight=0.5)
def dio(r):
    io(r, NormalDiagCov, gen_diag)


@case("C04", "normal.save_load", [N + "save_params", N + "load_params", N + "get_config"], weight=0.5)
def fio(r):
    io(r, Normal, gen_full)
