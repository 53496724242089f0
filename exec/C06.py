from harness import *
from hyperion.pdfs.plda.frplda import FRPLDA
from hyperion.pdfs.plda.splda import SPLDA
from hyperion.pdfs.plda.plda import PLDA
from hyperion.pdfs.plda.plda_base import PLDABase

B, FR, SP, PL = ("hyperion.pdfs.plda.plda_base:PLDABase.", "hyperion.pdfs.plda.frplda:FRPLDA.", "hyperion.pdfs.plda.splda:SPLDA.", "hyperion.pdfs.plda.plda:PLDA.")
L2P = np.log(2 * np.pi)


class M:
    def __init__(self, r, kind=None, **kw):
        self.kind = kind = kind or r.pick("fr", "s", "f")
        self.d = d = min(r.size(1, 4), 6)
        self.mu = r.arr(d)
        if kind == "fr":
            self.y_dim = d
            self.B, self.W = r.spd(d), r.spd(d)
            self.Sb, self.Sw = np.linalg.inv(self.B), np.linalg.inv(self.W)
            self.p = dict(mu=self.mu, B=self.B, W=self.W)
            C = FRPLDA
        else:
            self.y_dim = r.int(1, d)
            self.V = r.arr(self.y_dim, d)
            self.Sb = self.V.T @ self.V
            if kind == "s":
                self.W = r.spd(d)
                self.Sw = np.linalg.inv(self.W)
                self.p = dict(mu=self.mu, V=self.V, W=self.W)
                C = SPLDA
            else:
                self.z_dim = r.int(1, d)
                self.U = r.arr(self.z_dim, d)
                self.D = r.posarr(d)
                self.Sw = self.U.T @ self.U + np.diag(1 / self.D)
                self.W = np.linalg.inv(self.Sw)
                self.p = dict(mu=self.mu, V=self.V, U=self.U, D=self.D)
                C = PLDA
        self.C = C
        self.o = C(x_dim=d, **{k: v.copy() for k, v in self.p.items()}, **kw)
        check(self.o.is_init, "is_init")

    def joint(self, xs):
        """log density of the rows of xs drawn from one class"""
        n, d = xs.shape
        S = np.kron(np.eye(n), self.Sw) + np.kron(np.ones((n, n)), self.Sb)
        z = (xs - self.mu).ravel()
        return -0.5 * (n * d * L2P + np.linalg.slogdet(S)[1] + z @ np.linalg.solve(S, z))

    def post(self, n, f):
        """posterior mean and covariance of y given count n and first order statistics f"""
        if self.kind == "fr":
            L = self.B + n * self.W
            g = f @ self.W + self.mu @ self.B
        else:
            L = np.eye(self.y_dim) + n * self.V @ self.W @ self.V.T
            g = self.V @ self.W @ (f - n * self.mu)
        C = np.linalg.inv(L)
        return C @ g, C, -0.5 * self.y_dim * L2P + 0.5 * np.linalg.slogdet(L)[1] - 0.5 * g @ C @ g

    def same(self):
        for k, v in self.p.items():
            check(np.array_equal(getattr(self.o, k), v), "model modified: " + k)


def classes(r, d, lo=1, hi=4):
    m = r.size(lo, hi)
    m = min(m, 6)
    ids = np.concatenate([np.full(r.int(1, 4), k) for k in range(m)]).astype(int)
    ids = ids[np.array(r.perm(len(ids)), dtype=int)]
    return m, ids, r.arr(len(ids), d)


def stats(x, p):
    return p.sum(0), p.T @ x, x.T @ (p.sum(1, keepdims=True) * x)


def onehot(ids, m):
    p = np.zeros((len(ids), m))
    p[np.arange(len(ids)), ids] = 1
    return p


@case("C06", "plda.stats", [B + "compute_stats_soft", B + "compute_stats_hard", B + "center_stats"])
def st(r):
    d = r.size(1, 4)
    m, ids, x = classes(r, d)
    x0 = x.copy()
    w = r.posarr(len(ids)) if r.bool() else None
    ww = np.ones(len(ids)) if w is None else w
    sf = r.pick(None, 0.5, 2.0)
    s = 1 if sf is None else sf
    D = PLDABase.compute_stats_hard(x, ids, sample_weight=w, scal_factor=sf)
    E = stats(x, onehot(ids, m) * ww[:, None] * s)
    for a, b, t in zip(D, E, ("counts", "first order", "second order")):
        close(a, b, "hard statistics: " + t)
    p = r.posarr(len(ids), m)
    p0 = p.copy()
    D2 = PLDABase.compute_stats_soft(x, p, sample_weight=w, scal_factor=sf)
    for a, b, t in zip(D2, stats(x, p0 * ww[:, None] * s), ("counts", "first order", "second order")):
        close(a, b, "soft statistics: " + t)
    mu = r.arr(d)
    c = PLDABase.center_stats(D, mu)
    for a, b, t in zip(c, stats(x - mu, onehot(ids, m) * ww[:, None] * s), ("counts", "first order", "second order")):
        close(a, b, "centered statistics: " + t, 1e-6)
    check(np.array_equal(x, x0) and np.array_equal(p, p0), "input modified")
    for a, b in zip(D, E):
        close(a, b, "centering modified the statistics")


def post(r, kind):
    m = M(r, kind)
    k, ids, x = classes(r, m.d)
    D = stats(x, onehot(ids, k))
    if r.bool():
        D = stats(x, r.posarr(len(ids), k))
    D0, c = D, [v.copy() for v in D]
    ref = [m.post(n, f) for n, f in zip(D[0], D[1])]
    Y, S, lp = np.stack([a[0] for a in ref]), np.stack([a[1] for a in ref]), np.array([a[2] for a in ref])
    for fl in range(8):
        cov, l0, acc = bool(fl & 1), bool(fl & 2), bool(fl & 4)
        exp = [(Y, "posterior mean")] + [(S, "posterior covariance")] * cov + [(lp, "log posterior at 0")] * l0
        if acc:
            exp += [((D[0][:, None, None] * S).sum(0), "weighted sum of the covariances"), (S.sum(0), "sum of the covariances")]
        a = m.o.compute_py_g_x(D, return_cov=cov, return_logpy_0=l0, return_acc=acc)
        a = (a,) if fl == 0 else a
        check(len(a) == len(exp), "number of results for the flags %d" % fl)
        for u, (e, t) in zip(a, exp):
            close(u, e, t + " (flags %d)" % fl, 1e-6)
    st = m.o.Estep(D)
    R = (D[0][:, None, None] * (S + Y[:, :, None] * Y[:, None, :])).sum(0)
    P = (S + Y[:, :, None] * Y[:, None, :]).sum(0)
    if kind == "fr":
        exp = (D[0].sum(), k, D[2], lp.sum(), Y.sum(0), R, D[1].T @ Y, P)
    else:
        exp = (D[0].sum(), k, D[1].sum(0), D[2], lp.sum(), Y.sum(0), (D[0][:, None] * Y).sum(0), R, D[1].T @ Y, P)
    for j, e in enumerate(exp):
        close(st[j], e, "E-step statistic %d" % j, 1e-6)
    # the elbo at the posterior is the log-likelihood
    D = stats(x, onehot(ids, k))
    ll = sum(m.joint(x[ids == q]) for q in range(k))
    close(m.o.elbo(m.o.Estep(D)), ll, "elbo is the log-likelihood", 1e-5)
    if kind == "f":
        D = stats(x, onehot(ids, k))
        st = m.o.Estep(D)
        Lz = np.eye(m.z_dim) + (m.U * m.D) @ m.U.T
        iLz = np.linalg.inv(Lz)
        J = (m.U * m.D) @ m.V.T
        Rz1, Rz, Ryz, Cz = 0, 0, 0, 0
        for q in range(k):
            y, S, _ = m.post((ids == q).sum(), x[ids == q].sum(0))
            for v in x[ids == q]:
                z = iLz @ ((m.U * m.D) @ (v - m.mu) - J @ y)
                G = iLz @ J
                Rz1 = Rz1 + z
                Rz = Rz + iLz + np.outer(z, z) + G @ S @ G.T
                Ryz = Ryz + np.outer(y, z) - S @ G.T
                Cz = Cz + np.outer(v, z)
        for j, e, t in ((10, Rz1, "sum of z"), (11, Rz, "zz"), (12, Ryz, "yz"), (13, Cz, "xz")):
            close(st[j], e, "E-step statistic " + t, 1e-5)
    m.same()
    check(all(np.array_equal(a, b) for a, b in zip(c, D0)), "input modified")


for kind, key, T in (("fr", "frplda", FR), ("s", "splda", SP), ("f", "plda", PL)):
    case("C06", key + ".post", [T + "compute_py_g_x", T + "Estep", T + "elbo"] + ([T + "compute_aux"] if kind == "f" else []))(lambda r, kind=kind: post(r, kind))


def llr(r, kind):
    m = M(r, kind)
    a, b = r.arr(r.size(1, 3), m.d), r.arr(r.size(1, 4), m.d)
    c = a.copy(), b.copy()
    s = m.o.llr_1vs1(a, b)
    ref = np.array([[m.joint(np.stack((u, v))) - m.joint(u[None]) - m.joint(v[None]) for v in b] for u in a])
    close(s, ref, "log likelihood ratio 1 vs 1", 1e-5)
    n1, i1, x1 = classes(r, m.d, 1, 3)
    n2, i2, x2 = classes(r, m.d, 1, 3)
    D1, D2 = stats(x1, onehot(i1, n1)), stats(x2, onehot(i2, n2))
    cp = [v.copy() for v in D1 + D2]
    ref = np.array([[m.joint(np.vstack((x1[i1 == p], x2[i2 == q]))) - m.joint(x1[i1 == p]) - m.joint(x2[i2 == q]) for q in range(n2)] for p in range(n1)])
    close(m.o.llr_NvsM(D1, D2, method="book"), ref, "log likelihood ratio N vs M", 1e-5)
    check(all(np.array_equal(u, v) for u, v in zip(D1 + D2, cp)), "the given statistics were modified")
    close(m.o.llr_NvsM(x1, x2, ids1=i1, ids2=i2, method="book"), ref, "log likelihood ratio N vs M of data", 1e-5)
    ref = np.array([[m.joint(np.vstack((x1[i1 == p], v[None]))) - m.joint(x1[i1 == p]) - m.joint(v[None]) for v in b] for p in range(n1)])
    close(m.o.llr_Nvs1(x1, b, ids1=i1, method="book"), ref, "log likelihood ratio N vs 1", 1e-5)
    check(np.array_equal(a, c[0]) and np.array_equal(b, c[1]), "input modified")
    m.same()


for kind, key, T in (("fr", "frplda", FR), ("s", "splda", SP), ("f", "plda", PL)):
    case("C06", key + ".llr", [T + "llr_1vs1", T + "llr_NvsM_book"])(lambda r, kind=kind: llr(r, kind))


@case("C06", "plda.llr_avg", [B + "llr_NvsM", B + "llr_Nvs1", B + "llr_NvsM_vavg", B + "llr_NvsM_savg", B + "llr_Nvs1_vavg", B + "llr_Nvs1_savg"])
def avg(r):
    m = M(r)
    n1, i1, x1 = classes(r, m.d, 1, 3)
    n2, i2, x2 = classes(r, m.d, 1, 3)
    x1, x2 = x1 + 0.1, x2 + 0.1
    c = x1.copy(), x2.copy()
    mean = lambda x, i, n: np.stack([x[i == k].mean(0) for k in range(n)])
    ln = lambda x: x * np.sqrt(m.d) / np.linalg.norm(x, axis=1, keepdims=True)
    s = m.o.llr_1vs1
    a, b = mean(x1, i1, n1), mean(x2, i2, n2)
    close(m.o.llr_NvsM(x1, x2, i1, i2, method="vavg"), s(a, b), "vector average")
    close(m.o.llr_NvsM(x1, x2, i1, i2, method="savg"), mean(mean(s(x1, x2), i1, n1).T, i2, n2).T, "score average")
    close(m.o.llr_Nvs1(x1, x2, i1, method="vavg"), s(a, x2), "vector average N vs 1")
    close(m.o.llr_Nvs1(x1, x2, i1, method="savg"), mean(s(x1, x2), i1, n1), "score average N vs 1")
    if min(np.linalg.norm(a, axis=1).min(), np.linalg.norm(b, axis=1).min(), np.linalg.norm(x2, axis=1).min()) > 1e-3:
        close(m.o.llr_NvsM(x1, x2, i1, i2), s(ln(a), ln(b)), "length normalised average", 1e-6)
        close(m.o.llr_Nvs1(x1, x2, i1), s(ln(a), ln(x2)), "length normalised average N vs 1", 1e-6)
    check(np.array_equal(x1, c[0]) and np.array_equal(x2, c[1]), "input modified")


def q_aux(m, x, ids, k, mo, o):
    """expected complete log-likelihood of new parameters o under the posterior of the old model mo"""
    t = 0.
    S = np.linalg.inv(o["W"])
    for q in range(k):
        y, C, _ = mo.post((ids == q).sum(), x[ids == q].sum(0))
        V = o.get("V")
        for v in x[ids == q]:
            e = v - (y if V is None else o["mu"] + y @ V)
            G = C if V is None else V.T @ C @ V
            t += 0.5 * (np.linalg.slogdet(o["W"])[1] - len(v) * L2P - e @ o["W"] @ e - np.trace(o["W"] @ G))
        if V is None:
            e = y - o["mu"]
            t += 0.5 * (np.linalg.slogdet(o["B"])[1] - len(y) * L2P - e @ o["B"] @ e - np.trace(o["B"] @ C))
    return t


def em(r, kind):
    fl = dict(fr=dict(update_mu=r.bool(), update_B=r.bool(), update_W=r.bool()), s=dict(update_mu=r.bool(), update_V=r.bool(), update_W=r.bool()),
              f=dict(update_mu=r.bool(), update_V=r.bool(), update_U=r.bool(), update_D=r.bool()))[kind]
    m = M(r, kind, **fl)
    k = m.d + 3
    ids = np.concatenate([np.arange(k)] * 3 + [np.arange(k)[:r.int(0, k)]])
    x = r.arr(len(ids), m.d)
    D = stats(x, onehot(ids, k))
    ll = lambda o: o.elbo(o.Estep(D))
    l0 = sum(m.joint(x[ids == q]) for q in range(k))
    st = m.o.Estep(D)
    st0 = [np.copy(v) for v in st]
    m.o.MstepML(st)
    check(all(np.array_equal(a, b) for a, b in zip(st, st0)), "M-step modified the statistics")
    names = dict(update_mu="mu", update_B="B", update_W="W", update_V="V", update_U="U", update_D="D")
    for f, v in fl.items():
        if not v:
            check(np.array_equal(getattr(m.o, names[f]), m.p[names[f]]), "%s changed without update" % names[f])
    l1 = ll(m.o)
    check(l1 >= l0 - 1e-6 * (1 + abs(l0)), "the M-step lowered the log-likelihood from %g to %g (%s)" % (l0, l1, fl))
    if kind == "fr" and fl["update_mu"] and fl["update_B"]:
        close(m.o.mu, st[4] / k, "mean")
    st = m.o.Estep(D)
    p0 = {n: getattr(m.o, n).copy() for n in m.p}
    m.o.MstepMD(st)
    for f, v in fl.items():
        if not v:
            check(np.array_equal(getattr(m.o, names[f]), p0[names[f]]), "%s changed without update by the minimum divergence step" % names[f])
    if all(fl.values()):
        l2 = ll(m.o)
        check(l2 >= l1 - 1e-6 * (1 + abs(l1)), "the minimum divergence step lowered the log-likelihood from %g to %g" % (l1, l2))
    # the elbo of the updated model is its log-likelihood: everything derived from the parameters is up to date
    o = m.o
    if kind == "fr":
        m.Sb, m.Sw = np.linalg.inv(o.B), np.linalg.inv(o.W)
    else:
        m.Sb = o.V.T @ o.V
        m.Sw = np.linalg.inv(o.W) if kind == "s" else o.U.T @ o.U + np.diag(1 / o.D)
    m.mu = o.mu
    close(ll(o), sum(m.joint(x[ids == q]) for q in range(k)), "elbo after the updates", 1e-4)
    a, b = x[:2], x[2:5]
    close(o.llr_1vs1(a, b), np.array([[m.joint(np.stack((u, v))) - m.joint(u[None]) - m.joint(v[None]) for v in b] for u in a]), "llr after the updates", 1e-4)


for kind, key, T in (("fr", "frplda", FR), ("s", "splda", SP), ("f", "plda", PL)):
    case("C06", key + ".em", [T + "MstepML", T + "MstepMD"] + ([T + "compute_aux"] if kind == "f" else []), weight=2)(lambda r, kind=kind: em(r, kind))


@case("C06", "plda.fit", [B + "fit", FR + "initialize", SP + "initialize", PL + "initialize"])
def fit(r):
    d = r.int(2, 4)
    k = d + 4
    ids = np.concatenate([np.arange(k)] * 4)
    x = r.arr(len(ids), d) + r.arr(k, d)[ids]
    x0 = x.copy()
    kw = r.pick(dict(C=FRPLDA), dict(C=SPLDA, y_dim=r.int(1, d - 1)), dict(C=PLDA, y_dim=r.int(1, d - 1), z_dim=r.int(1, d - 1)))
    C = kw.pop("C")
    if C is SPLDA and r.bool():
        kw["fullcov_W"] = False
    o = C(**kw)
    tr = dict(ptheta=onehot(ids, k)) if r.bool() else dict(class_ids=ids)
    out = o.fit(x, epochs=3, ml_md=r.pick("ml", "ml+md", "md") if C is not FRPLDA else "ml", **tr, **(dict(x_val=x[:8], class_ids_val=ids[:8]) if r.bool() else {}))
    e = out[0]
    check(np.all(np.diff(e) >= -1e-5 * (1 + np.abs(e[:-1]))), "the elbo went down: %s" % e)
    close(out[1], e / len(x), "normalised elbo")
    if len(out) > 2:
        close(out[3], out[2] / 8, "normalised validation elbo")
    check(np.array_equal(x, x0), "input modified")


def io(r, kind):
    nm = r.pick(None, "p")
    fl = dict(fr=dict(update_mu=r.bool(), update_B=r.bool(), update_W=r.bool(), fullcov_W=r.bool()), s=dict(update_mu=r.bool(), update_V=r.bool(), update_W=r.bool(), fullcov_W=r.bool()),
              f=dict(update_mu=r.bool(), update_V=r.bool(), update_U=r.bool(), update_D=r.bool(), floor_iD=r.pick(1e-5, 1e-3)))[kind]
    m = M(r, kind, name=nm, **fl)
    f = r.tmp + "/p.h5"
    m.o.save(f)
    q = m.C.load(f)
    for k, v in m.p.items():
        close(getattr(q, k), v, "parameter " + k, 1e-5)
    for k, v in fl.items():
        check(getattr(q, k) == v, "%s: %r != %r" % (k, getattr(q, k), v))
    check(q.y_dim == m.o.y_dim and q.x_dim == m.d and (kind != "f" or q.z_dim == m.z_dim), "dimensions")
    if nm:
        check(q.name == nm, "name")
    a = r.arr(2, m.d)
    close(q.llr_1vs1(a, a), m.o.llr_1vs1(a, a), "scores of the loaded model", 1e-3)


for kind, key, T in (("fr", "frplda", FR), ("s", "splda", SP), ("f", "plda", PL)):
    case("C06", key + ".save_load", [T + "save_params", T + "load_params", T + "get_config"])(lambda r, kind=kind: io(r, kind))


@case("C06", "plda.adapt", [FR + "weighted_avg_params", SP + "weighted_avg_params", PL + "weighted_avg_params", B + "weigthed_avg_params"])
def adapt(r):
    kind = r.pick("fr", "s", "f")
    m = M(r, kind)
    st = np.random.RandomState(r.int(0, 10 ** 6))
    sh = lambda v, s=0.3: v + s * st.normal(size=v.shape)
    n = {}
    for k, v in m.p.items():
        n[k] = sh(v) if k in ("mu", "V", "U") else np.abs(sh(v)) + 0.1 if v.ndim == 1 else v * st.uniform(0.5, 2)
    o2 = m.C(x_dim=m.d, **{k: v.copy() for k, v in n.items()})
    wm, wb, ww = (round(st.uniform(0, 1), 3) for _ in range(3))
    if kind == "fr":
        Sb2, Sw2 = np.linalg.inv(n["B"]), np.linalg.inv(n["W"])
    else:
        Sb2 = n["V"].T @ n["V"]
        Sw2 = np.linalg.inv(n["W"]) if kind == "s" else n["U"].T @ n["U"] + np.diag(1 / n["D"])
    m.o.weighted_avg_model(o2, wm, wb, ww)
    close(m.o.mu, wm * n["mu"] + (1 - wm) * m.mu, "mean")
    Sb, Sw = wb * Sb2 + (1 - wb) * m.Sb, ww * Sw2 + (1 - ww) * m.Sw
    if kind == "fr":
        close(np.linalg.inv(m.o.B), Sb, "between-class covariance", 1e-5)
    else:
        w, E = np.linalg.eigh(Sb)
        E = E[:, -m.y_dim:] * np.sqrt(np.maximum(w[-m.y_dim:], 0))
        close(m.o.V.T @ m.o.V, E @ E.T, "between-class covariance of the leading directions", 1e-5)
    if kind != "f":
        close(np.linalg.inv(m.o.W), Sw, "within-class covariance", 1e-5)
    else:
        close(np.diag(m.o.U.T @ m.o.U) + 1 / m.o.D, np.maximum(np.diag(Sw), np.diag(m.o.U.T @ m.o.U) + 1e-5), "within-class variances", 1e-5)
    for k, v in n.items():
        check(np.array_equal(getattr(o2, k), v), "the other model was modified")
    # scores use the adapted parameters
    q = m.C(x_dim=m.d, **{k: getattr(m.o, k).copy() for k in m.p})
    q.is_init
    a = r.arr(2, m.d)
    close(m.o.llr_1vs1(a, a), q.llr_1vs1(a, a), "scores after the adaptation", 1e-6)


@case("C06", "plda.density", [SP + "log_probx_g_y", PL + "log_probx_g_y", PL + "log_probx_g_yz", FR + "sample", SP + "sample", PL + "sample"])
def dens(r):
    m = M(r, r.pick("s", "f"))
    n = r.size(1, 4)
    x, y = r.arr(n, m.d), r.arr(n, m.y_dim)
    e = x - m.mu - y @ m.V
    close(m.o.log_probx_g_y(x, y), 0.5 * (-m.d * L2P - np.linalg.slogdet(m.Sw)[1] - np.einsum("ni,ij,nj->n", e, np.linalg.inv(m.Sw), e)), "log p(x|y)", 1e-6)
    if m.kind == "f":
        z = r.arr(n, m.z_dim)
        e = e - z @ m.U
        close(m.o.log_probx_g_yz(x, y, z), 0.5 * (-m.d * L2P + np.log(m.D).sum() - (m.D * e * e).sum(1)), "log p(x|y,z)", 1e-6)
    m = M(r)
    a, b = m.o.sample(200, 3, seed=7), m.o.sample(200, 3, seed=7)
    check(np.array_equal(a, b), "sampling is not reproducible")
    check(a.shape == (600, m.d), "shape of the sample")
    tot = np.diag(m.Sb + m.Sw)
    v = a.var(0)
    check(np.all(v < 3 * tot) and np.all(v > tot / 3), "variance of the sample %s, model %s" % (v, tot))
    cl = a.reshape(200, 3, m.d)
    wv = cl.var(1, ddof=1).mean(0)
    check(np.all(wv < 2 * np.diag(m.Sw)) and np.all(wv > np.diag(m.Sw) / 2), "within-class variance of the sample %s, model %s" % (wv, np.diag(m.Sw)))
    check(np.all(np.abs(a.mean(0) - m.mu) < 6 * np.sqrt(tot / 200)), "mean of the sample")
