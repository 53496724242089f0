from harness import *
from hyperion.pdfs.mixtures import GMM, GMMDiagCov, GMMTiedDiagCov
from hyperion.pdfs.mixtures.exp_family_mixture import ExpFamilyMixture

X = "hyperion.pdfs.mixtures.exp_family_mixture:ExpFamilyMixture."
TD = "hyperion.pdfs.mixtures.gmm_diag_cov:GMMDiagCov."
TT = "hyperion.pdfs.mixtures.gmm_tied_diag_cov:GMMTiedDiagCov."
TF = "hyperion.pdfs.mixtures.gmm:GMM."
L2P = np.log(2 * np.pi)


class M:
    """a mixture and its parameters as full matrices"""

    def __init__(self, r, kind=None, K=None, d=None, **kw):
        self.kind = kind = kind or r.pick("diag", "tied")
        self.K = K = min(r.size(1, 4) if K is None else K, 8)
        self.d = d = min(r.size(1, 3) if d is None else d, 6)
        self.pi = r.posarr(K)
        self.pi = self.pi / self.pi.sum()
        self.mu = r.arr(K, d)
        if kind == "full":
            La = np.stack([r.spd(d) for _ in range(K)])
            self.La = La
            C = GMM
        elif kind == "diag":
            La = r.posarr(K, d)
            self.La = np.stack([np.diag(v) for v in La])
            C = GMMDiagCov
        else:
            La = r.posarr(d)
            self.La = np.stack([np.diag(La)] * K)
            C = GMMTiedDiagCov
        self.raw = La
        self.o = C(mu=self.mu.copy(), Lambda=La.copy(), pi=self.pi.copy(), x_dim=d, **kw)

    def joint(self, x):
        return np.stack([np.log(self.pi[k]) + 0.5 * (np.linalg.slogdet(self.La[k])[1] - self.d * L2P
                         - np.einsum("ni,ij,nj->n", x - self.mu[k], self.La[k], x - self.mu[k])) for k in range(self.K)], 1)

    def logp(self, x):
        j = self.joint(x)
        m = j.max(1, keepdims=True)
        return (m + np.log(np.exp(j - m).sum(1, keepdims=True)))[:, 0]

    def post(self, x):
        return np.exp(self.joint(x) - self.logp(x)[:, None])

    def stats(self, x):
        if self.kind != "full":
            return np.hstack((x, x * x))
        i, j = np.triu_indices(self.d)
        return np.hstack((x, x[:, i] * x[:, j]))

    def same(self):
        check(np.array_equal(self.o.mu, self.mu) and np.array_equal(self.o.Lambda, self.raw) and np.array_equal(self.o.pi, self.pi), "model modified")


def data(r, d, lo=1, hi=9):
    n = r.size(lo, hi)
    x = r.arr(n, d)
    w = r.posarr(n) if r.bool() else None
    return n, x, w, (np.ones(n) if w is None else w)


def unpack(s, d, full):
    """packed second order statistics -> matrix"""
    if not full:
        return np.diag(s)
    S = np.zeros((d, d))
    i, j = np.triu_indices(d)
    S[i, j] = s
    S[j, i] = s
    return S


def logprob(r, kind):
    m = M(r, kind)
    x = r.arr(r.size(1, 8), m.d)
    x0 = x.copy()
    for md in r.pick(("std", "nat"), ("nat", "std", "nat")):
        close(m.o.log_prob(x, mode=md), m.logp(x), "log density (%s)" % md, 1e-6)
    close(m.o.log_prob(x, u_x=m.stats(x)), m.logp(x), "log density given the statistics", 1e-6)
    for md in ("nat", "std"):
        close(m.o.compute_pz(x, mode=md), m.post(x), "responsibilities (%s)" % md, 1e-6)
    close(m.o.log_pi, np.log(m.pi), "log weights", 1e-6)
    check(np.array_equal(x, x0), "input modified")
    m.same()


@case("C05", "gmm_diag.log_prob", [TD + "log_prob_std", X + "log_prob_nat", X + "compute_pz_nat", X + "log_pi", TD + "compute_suff_stats", TD + "compute_eta", TD + "compute_A_nat", TD + "logLambda", TD + "cholLambda", TT + "log_prob_std", TT + "compute_eta"])
def dlp(r):
    logprob(r, None)


@case("C05", "gmm.log_prob_std", [TF + "log_prob_std", TF + "compute_Lambda_aux", TF + "logLambda", TF + "cholLambda", TF + "compute_suff_stats"])
def flp(r):
    logprob(r, "full")
    m = M(r, "full")
    close(m.o.logLambda, [np.linalg.slogdet(L)[1] for L in m.La], "log determinants")


def ref_accum(m, x, ww):
    z = m.post(x) * ww[:, None]
    return z.sum(0), z.T @ m.stats(x)


def accum(r, kind):
    m = M(r, kind)
    n, x, w, ww = data(r, m.d, 1, 16)
    c = x.copy(), ww.copy()
    f = r.pick(m.o.Estep, m.o.accum_suff_stats)
    N0, u0 = ref_accum(m, x, ww)
    for b in (None, r.pick(1, 2, 3, n, n + 1, r.int(1, n + 2))):
        N, u = f(x, sample_weight=w, batch_size=b)
        close(N, N0, "counts (batch_size=%s)" % b, 1e-6)
        close(u, u0, "statistics (batch_size=%s)" % b, 1e-6)
    t = m.stats(x)
    t0 = t.copy()
    N, u = f(x, u_x=t, sample_weight=w, batch_size=r.pick(None, 2))
    close(N, N0, "counts given the statistics", 1e-6)
    close(u, u0, "statistics given", 1e-6)
    check(np.array_equal(t, t0), "given statistics overwritten")
    check(np.array_equal(x, c[0]) and (w is None or np.array_equal(w, c[1])), "input modified")
    m.same()


@case("C05", "gmm_diag.accum", [X + "accum_suff_stats", X + "_accum_suff_stats_1batch", X + "_accum_suff_stats_nbatches", X + "Estep", X + "compute_pz", TD + "compute_suff_stats"], weight=2)
def dacc(r):
    accum(r, None)


@case("C05", "gmm.accum", [X + "_accum_suff_stats_nbatches", TF + "compute_suff_stats"], weight=2)
def facc(r):
    accum(r, r.pick("full", "diag", "tied"))


@case("C05", "gmm_diag.accum_prob", [X + "accum_suff_stats_segments_prob", X + "_accum_suff_stats_segments_prob_1batch", X + "_accum_suff_stats_segments_prob_nbatches"])
def aprob(r):
    m = M(r, r.pick("diag", "tied", "full"))
    n, x, w, ww = data(r, m.d)
    s = r.size(1, 3)
    p = np.abs(r.arr(n, s))
    p0 = p.copy()
    for b in (None, r.int(1, n + 2)):
        N, u = m.o.accum_suff_stats_segments_prob(x, p, sample_weight=w, batch_size=b)
        for i in range(s):
            a, c = ref_accum(m, x, ww * p[:, i])
            close(N[i], a, "counts of a segment (batch_size=%s)" % b, 1e-6)
            close(u[i], c, "statistics of a segment (batch_size=%s)" % b, 1e-6)
    check(np.array_equal(p, p0), "input modified")


@case("C05", "gmm_diag.accum_segments", [X + "accum_suff_stats_segments"])
def aseg(r):
    m = M(r, r.pick("diag", "tied", "full"))
    n, x, w, ww = data(r, m.d)
    s = r.size(1, 3)
    seg = []
    for _ in range(s):
        a = r.int(0, n - 1)
        seg.append([a, r.int(a, n - 1)])
    u_x = m.stats(x) if r.bool() else None
    N, u = m.o.accum_suff_stats_segments(x, r.pick(seg, np.array(seg), np.array(seg, dtype=float)), u_x=u_x, sample_weight=w, batch_size=r.pick(None, 1, 2, n))
    for i, (a, b) in enumerate(seg):
        p, q = ref_accum(m, x[a:b + 1], ww[a:b + 1])
        close(N[i], p, "counts of a segment", 1e-6)
        close(u[i], q, "statistics of a segment", 1e-6)


@case("C05", "gmm_diag.accum_sorttime", [X + "accum_suff_stats_sorttime", X + "_accum_suff_stats_sorttime_1batch", X + "_accum_suff_stats_sorttime_nbatches"])
def asort(r):
    m = M(r, r.pick("diag", "tied", "full"))
    n, x, w, ww = data(r, m.d, 1, 14)
    fl = r.int(1, n)
    fs = r.int(1, n + 1)
    b = r.pick(None, r.int(fl, n + 2))
    N, u = m.o.accum_suff_stats_sorttime(x, fl, fs, sample_weight=w, batch_size=b)
    s = (n - fl) // fs + 1
    check(N.shape[0] == s and u.shape[0] == s, "number of windows")
    for i in range(s):
        p, q = ref_accum(m, x[i * fs:i * fs + fl], ww[i * fs:i * fs + fl])
        close(N[i], p, "counts of a window (batch_size=%s)" % b, 1e-6)
        close(u[i], q, "statistics of a window (batch_size=%s)" % b, 1e-6)


@case("C05", "gmm_diag.elbo", [X + "elbo", X + "accum_log_h", X + "fit", TF + "initialize", TD + "initialize"])
def elbo(r):
    m = M(r, r.pick("diag", "tied", "full"))
    n, x, w, ww = data(r, m.d)
    N, u = ref_accum(m, x, ww)
    e = np.sum(u * m.o.eta) + np.sum(N * (np.log(m.pi + 1e-15) - m.o.A))
    if m.kind != "full":
        lh = 0
    close(m.o.elbo(x, sample_weight=w, batch_size=r.pick(None, 2)), e, "elbo", 1e-6)
    close(m.o.elbo(None, N=N, u_x=u), e, "elbo of the statistics", 1e-6)
    # the auxiliary function plus the entropy of the responsibilities is the log-likelihood
    z = m.post(x)
    H = -np.sum(ww[:, None] * np.where(z > 0, z * np.log(np.maximum(z, 1e-300)), 0))
    close(e + H, np.sum(ww * m.logp(x)), "elbo + entropy is the log-likelihood", 1e-5)


def params(r, kind):
    m = M(r, kind)
    o = m.o
    if kind == "full":
        q = GMM(eta=o.eta.copy(), pi=m.pi, x_dim=m.d)
        close(o.Sigma, np.stack([np.linalg.inv(L) for L in m.La]), "covariance")
    else:
        q = GMMDiagCov(eta=o.eta.copy(), pi=m.pi, x_dim=m.d)
        close(o.Sigma, 1 / m.raw, "variance")
    close(q.mu, m.mu, "means from eta", 1e-6)
    x = r.arr(4, m.d)
    close(q.log_prob(x), m.logp(x), "density of the model built from eta", 1e-6)
    close(q.log_prob(x, mode="std"), m.logp(x), "std density of the model built from eta", 1e-6)
    check(o.is_init, "is_init")


@case("C05", "gmm_diag.params", [TD + "compute_eta", TD + "compute_std", TD + "compute_A_nat", TD + "compute_A_std", TD + "_compute_std_params", TD + "_compute_gmm_nat_std", TT + "compute_std"])
def dpar(r):
    params(r, r.pick("diag", "tied"))


@case("C05", "gmm.params", [TF + "compute_eta", TF + "compute_A_nat", TF + "compute_A_std", TF + "Sigma", TF + "compute_std", TF + "_compute_std_params"])
def fpar(r):
    params(r, "full")


@case("C05", "gmm.sum_suff_stats", [X + "sum_suff_stats"])
def sumss(r):
    m = M(r)
    k = r.size(1, 4)
    N, u = [r.posarr(m.K) for _ in range(k)], [r.arr(m.K, 2 * m.d) for _ in range(k)]
    c = [v.copy() for v in N], [v.copy() for v in u]
    a, b = m.o.sum_suff_stats(N, u)
    close(a, sum(c[0]), "counts")
    close(b, sum(c[1]), "statistics")
    check(all(np.array_equal(p, q) for p, q in zip(N + u, c[0] + c[1])), "input modified")


def mstep(r, kind):
    um, ul, up = r.bool(), r.bool(), r.bool()
    vf = r.pick(1e-3, 0.1, 1.0)
    m = M(r, kind, update_mu=um, update_Lambda=ul, update_pi=up, var_floor=vf)
    o, K, d = m.o, m.K, m.d
    full = kind == "full"
    # statistics of real data with soft assignments
    n = r.size(d + 2, 12)
    x = r.arr(n, d) * 2
    z = r.posarr(n, K)
    z /= z.sum(1, keepdims=True)
    N, u = z.sum(0) * r.pick(1, 3), None
    z = z * (N / z.sum(0))
    u = z.T @ m.stats(x)
    if r.bool():
        o.log_pi, o.Sigma, o.logLambda, o.cholLambda
    N1, u1 = N.copy(), u.copy()
    o.Mstep(N, u)
    mu = u[:, :d] / N[:, None] if um else m.mu
    close(o.mu, mu, "means", 1e-6)
    pi = N / N.sum() if up else m.pi
    close(o.pi, pi, "weights", 1e-6)
    close(o.log_pi, np.log(pi), "cached log weights", 1e-6)
    S = []
    for k in range(K):
        C = unpack(u[k, d:] / N[k], d, full) if full else None
        if full:
            f = np.outer(u[k, :d] / N[k], mu[k])
            S.append(C - f - f.T + np.outer(mu[k], mu[k]))
        else:
            S.append(u[k, d:] / N[k] - 2 * mu[k] * u[k, :d] / N[k] + mu[k] ** 2)
    S = np.stack(S)
    if ul:
        fl = vf * S.mean(0)
        if full:
            T = np.linalg.cholesky(fl)
            for k in range(K):
                A = np.linalg.solve(T, np.linalg.solve(T, S[k]).T)
                w, V = np.linalg.eigh((A + A.T) / 2)
                S[k] = T @ (V * np.maximum(w, 1)) @ V.T @ T.T
            La = np.stack([np.linalg.inv(s) for s in S])
        else:
            S = np.maximum(S, fl)
            La = 1 / S if kind == "diag" else 1 / ((N[:, None] * S).sum(0) / N.sum())
    else:
        La = m.raw
    sc = 1e-4 if full else 1e-6
    close(o.Lambda, La, "precisions", sc)
    close(o.Sigma, np.stack([np.linalg.inv(l) for l in La]) if full else 1 / La, "covariances", sc)
    # the parameters in use afterwards
    m.mu, m.pi = mu, pi
    m.La = La if full else np.stack([np.diag(v) for v in La]) if kind == "diag" else np.stack([np.diag(La)] * K)
    y = r.arr(3, d)
    for md in ("nat", "std"):
        close(o.log_prob(y, mode=md), m.logp(y), "density after the M-step (%s)" % md, sc * 10)
    check(np.array_equal(N, N1) and np.array_equal(u, u1), "input modified")


@case("C05", "gmm_diag.mstep", [TD + "Mstep", TT + "Mstep", TD + "_compute_nat_params", TD + "unstack_suff_stats", TD + "Sigma", X + "fit"], weight=2)
def dms(r):
    mstep(r, r.pick("diag", "tied"))
    em(r, r.pick("diag", "tied"))


@case("C05", "gmm.mstep", [TF + "Mstep", TF + "_compute_nat_params"], weight=2)
def fms(r):
    mstep(r, "full")
    em(r, "full")


def em(r, kind):
    """fit never lowers the log-likelihood"""
    m = M(r, kind, K=r.int(1, 3), d=r.int(1, 2), var_floor=1e-9, min_N=0)
    n = r.size(4 * m.d + 2, 14)
    x = r.arr(n, m.d)
    w = r.posarr(n) + 0.1 if r.bool() else None
    ww = np.ones(n) if w is None else w
    m.o.mu = m.mu = x[:m.K].copy() + 0.01
    m.o._compute_gmm_nat_std()
    m.o._Sigma = m.o._logLambda = m.o._cholLambda = None
    prev = np.sum(ww * m.logp(x))
    xv = r.arr(3, m.d)
    def thin():
        # components that collapse on single frames meet the floor, where EM need not increase the likelihood
        S = m.o.Sigma
        return np.min(np.linalg.eigvalsh(S) if kind == "full" else S) < 0.02 or not np.all(np.isfinite(S))
    for _ in range(2):
        before = m.o.mu.copy(), m.o.pi.copy()
        kw = dict(x_val=xv) if r.bool() else {}
        out = m.o.fit(x, sample_weight=w, epochs=1, batch_size=r.pick(None, 2, n), **kw)
        close(np.asarray(out[1]) * n, out[0], "normalised elbo")
        if kw:
            close(np.asarray(out[3]) * 3, out[2], "normalised validation elbo")
        l = np.sum(ww * m.o.log_prob(x))
        if not np.isfinite(l) or thin():
            return
        check(l >= prev - 1e-4 * (1 + abs(prev)), "fit lowered the log-likelihood from %g to %g" % (prev, l))
        prev = l


@case("C05", "gmm_diag.mstep_min_N", [TD + "Mstep", TT + "Mstep"], weight=1)
def msn(r):
    kind = r.pick("diag", "tied")
    um, ul, up = r.bool(0.7), r.bool(0.8), r.bool()
    vf, mn = r.pick(0.1, 0.5, 1.0), r.pick(0, 2, 2.5)
    m = M(r, kind, update_mu=um, update_Lambda=ul, update_pi=up, var_floor=vf, min_N=mn)
    o, K, d = m.o, m.K, m.d
    N = np.array([r.pick(1.0, 2.0, 2.5, 3.0, 7.0) for _ in range(K)])
    N[r.int(0, K - 1)] = 9.0
    x = r.arr(6, d) * 2
    z = r.posarr(6, K)
    z *= N / z.sum(0)
    u = z.T @ m.stats(x)
    N1, u1 = N.copy(), u.copy()
    o.Mstep(N, u)
    mu = u1[:, :d] / N1[:, None] if um else m.mu.copy()
    S = u1[:, d:] / N1[:, None] - 2 * mu * u1[:, :d] / N1[:, None] + mu ** 2
    S = np.maximum(S, vf * S[N1 > mn].mean(0))
    low = N1 < mn
    if up:
        pi = np.where(low, 0, N1) / np.sum(N1[~low])
        if um:
            mu = np.where(low[:, None], 0, mu)
        close(o.pi, pi, "weights", 1e-6)
    if ul:
        La = 1 / S if kind == "diag" else 1 / ((N1[:, None] * S).sum(0) / N1.sum())
        if up and kind == "diag":
            La[low] = 1
        close(o.Lambda, La, "precisions", 1e-5)
        close(o.Sigma, 1 / La, "covariance", 1e-5)
    close(o.mu, mu, "means", 1e-6)
    same(N, N1, "counts"), same(u, u1, "statistics")


@case("C05", "gmm_diag.norm_suff_stats", [TD + "norm_suff_stats"])
def dns(r):
    m = M(r, r.pick("diag", "tied"))
    N, u = r.posarr(m.K), r.arr(m.K, 2 * m.d)
    c = N.copy(), u.copy()
    La = np.stack([np.diag(l) for l in m.La])
    F = np.sqrt(La) * (u[:, :m.d] - N[:, None] * m.mu)
    S = La * (u[:, m.d:] - 2 * m.mu * u[:, :m.d] + N[:, None] * m.mu ** 2)
    a, v = m.o.norm_suff_stats(N, u)
    close(v, F, "normalised first order")
    close(a, N, "counts")
    a, v = m.o.norm_suff_stats(N, u, return_order2=True)
    close(v, np.hstack((F, S)), "normalised statistics")
    check(np.array_equal(N, c[0]) and np.array_equal(u, c[1]), "input modified")


@case("C05", "gmm.norm_suff_stats", [TF + "norm_suff_stats", TF + "unstack_suff_stats"])
def fns(r):
    m = M(r, "full")
    d = m.d
    x = r.arr(r.size(1, 5), d)
    z = np.abs(r.arr(len(x), m.K))
    N, u = z.sum(0), z.T @ m.stats(x)
    c = N.copy(), u.copy()
    a, v = m.o.norm_suff_stats(N, u)
    a2, v2 = m.o.norm_suff_stats(N, u, return_order2=True)
    for k in range(m.K):
        f = u[k, :d] - N[k] * m.mu[k]
        C = m.o.cholLambda[k]
        close(C @ C.T, m.La[k], "factor of the precision")
        close(v[k], f @ C, "normalised first order")
        close(v2[k, :d], f @ C, "normalised first order")
        S = C.T @ sum(z[i, k] * np.outer(x[i] - m.mu[k], x[i] - m.mu[k]) for i in range(len(x))) @ C
        close(unpack(v2[k, d:], d, True), S, "normalised second order", 1e-5)
    check(np.array_equal(N, c[0]) and np.array_equal(u, c[1]), "input modified")


@case("C05", "gmm_diag.split_comp", [TD + "split_comp", TT + "split_comp", TF + "split_comp"])
def split(r):
    m = M(r, r.pick("diag", "full"))
    q = m.o.split_comp(2)
    check(q.num_comp == 2 * m.K, "number of components")
    close(q.pi, np.repeat(m.pi, 2) / 2, "weights")
    close((q.mu[::2] + q.mu[1::2]) / 2, m.mu, "the pair is centred at the old mean")
    if m.kind == "diag":
        close((q.mu[::2] - q.mu[1::2]) / 2, 1 / np.sqrt(m.raw), "one standard deviation")
    else:
        for k in range(m.K):
            dl = (q.mu[2 * k] - q.mu[2 * k + 1]) / 2
            close(dl @ m.La[k] @ dl, m.d, "one standard deviation in each direction", 1e-5)
    close(q.Lambda, 4 * np.repeat(m.raw, 2, axis=0), "precisions")
    m.same()


def io(r, kind):
    nm = r.pick(None, "g", "m2")
    fl = r.bool(), r.bool(), r.bool()
    m = M(r, kind, name=nm, update_mu=fl[0], update_Lambda=fl[1], update_pi=fl[2], var_floor=r.pick(0.1, 0.01), min_N=r.int(1, 5))
    f = r.tmp + "/m.h5"
    m.o.save(f)
    C = type(m.o)
    q = C.load(f)
    close(q.mu, m.mu, "means", 1e-6)
    close(q.Lambda, m.raw, "precisions", 1e-6)
    close(q.pi, m.pi, "weights", 1e-6)
    for a in ("x_dim", "num_comp", "var_floor", "min_N", "update_mu", "update_Lambda", "update_pi"):
        check(getattr(q, a) == getattr(m.o, a), "%s: %r != %r" % (a, getattr(q, a), getattr(m.o, a)))
    if nm:
        check(q.name == nm, "name")
    x = r.arr(3, m.d)
    close(q.log_prob(x), m.logp(x), "density of the loaded model", 1e-4)


@case("C05", "gmm_diag.save_load", [TD + "save_params", TD + "load_params", TD + "get_config", X + "get_config"])
def dio(r):
    io(r, r.pick("diag", "tied"))


@case("C05", "gmm.save_load", [TF + "save_params", TF + "load_params", TF + "get_config"])
def fio(r):
    io(r, "full")
