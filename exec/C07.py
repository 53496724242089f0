from harness import *
from hyperion.transforms import *
from hyperion.transforms.sb_sw import SbSw

P = "hyperion.transforms."


def sgn(V):
    V = V.copy()
    V[:, V[0] < 0] *= -1
    return V


def mkT(r, d):
    return r.arr(d, r.size(1, d)) if r.bool() else r.arr(d, d)


def spread(r, n, d):
    """samples with well separated principal variances"""
    return r.np.randn(n, d) @ np.diag(1.0 + 0.5 * np.arange(d)) @ np.linalg.qr(r.np.randn(d, d))[0] + r.arr(d)


@case("C07", "lda.predict", [P + "lda:LDA.predict", P + "pca:PCA.predict", P + "nda:NDA.predict", P + "cent_whiten:CentWhiten.predict"])
def pred(r):
    n, d = r.size(1, 5), r.size(1, 4)
    x, mu, T = r.arr(n, d), r.arr(d), mkT(r, d)
    x0 = x.copy()
    m = r.bool(0.7)
    for C in (LDA, PCA, NDA, CentWhiten):
        close(C(mu=mu if m else None, T=T).predict(x), (x0 - mu if m else x0) @ T, C.__name__)
    close(CentWhiten(mu=mu if m else None).predict(x), x0 - mu if m else x0, "centring only")
    s = r.arr(d)
    close(CentWhiten(mu=mu if m else None, T=s).predict(x), (x0 - mu if m else x0) * s, "diagonal whitening")
    same(x, x0, "input")


@case("C07", "lnorm.predict", [P + "lnorm:LNorm.predict"])
def ln(r):
    n, d = r.size(1, 5), r.size(1, 4)
    x, mu, T = r.arr(n, d), r.arr(d), mkT(r, d)
    x0 = x.copy()
    k = r.int(0, 2)
    y = (x0 - mu) if k else x0
    y = y @ T if k == 2 else y
    o = LNorm(mu=mu if k else None, T=T if k == 2 else None)
    N = np.sqrt((y ** 2).sum(1, keepdims=True))
    if (N < 1e-3).any():
        raise Skip()
    close(o.predict(x), np.sqrt(y.shape[1]) * y / N, "length normalisation", 1e-5)
    same(x, x0, "input")


@case("C07", "cent_whiten_up.predict", [P + "cent_whiten_up:CentWhitenUP.predict", P + "lnorm_up:LNormUP.predict"])
def cwup(r):
    n, d = r.size(1, 5), r.size(1, 4)
    m, s, mu, T = r.arr(n, d), r.posarr(n, d), r.arr(d), mkT(r, d)
    x = np.hstack((m, s))
    x0 = x.copy()
    if r.bool(0.2):
        T = None
    y = m - mu if T is None else (m - mu) @ T
    v = s if T is None else np.stack([np.diag(T.T @ np.diag(a) @ T) for a in s])
    close(CentWhitenUP(mu=mu, T=T).predict(x), np.hstack((y, v)), "whitening with uncertainty", 1e-7)
    same(x, x0, "input")
    N = (y ** 2).sum(1, keepdims=True)
    if (N > 1e-3).all():
        close(LNormUP(mu=mu, T=T).predict(x), np.hstack((y / np.sqrt(N), v / N)), "length normalisation with uncertainty", 1e-5)
        same(x, x0, "input")


@case("C07", "lda.fit", [P + "lda:LDA.fit", P + "nda:NDA.fit"])
def lda_fit(r):
    d = r.size(1, 4)
    Sw = r.spd(d)
    A = r.arr(d, d)
    Sb = A @ A.T
    mu = r.arr(d)
    k = r.pick(None, r.int(1, d))
    um, ut = r.bool(0.8), r.bool(0.8)
    stored = k is not None and r.bool()
    mu0, T0 = r.arr(d), r.arr(d, k if stored else d)
    o = LDA(mu=mu0, T=T0, update_mu=um, update_T=ut)
    if stored:
        same(o.lda_dim, k, "output dimension of the stored projection")
    else:
        o.lda_dim = k
    x = y = None
    if r.bool(0.4):
        n = 4 * d + 4
        y = np.repeat(np.arange(d + 2), 4)[:n]
        x = spread(r, len(y), d)
        cs = [x[y == c] for c in np.unique(y)]
        M = np.stack([c.mean(0) for c in cs])
        mu, Sb = M.mean(0), M.T @ M / len(M) - np.outer(M.mean(0), M.mean(0))
        Sw = sum((c - c.mean(0)).T @ (c - c.mean(0)) / len(c) for c in cs) / len(cs)
        o.fit(x, y)
    else:
        s0, w0 = Sb.copy(), Sw.copy()
        o.fit(None, None, mu=mu, Sb=Sb, Sw=Sw)
        same(Sb, s0, "Sb")
        same(Sw, w0, "Sw")
    close(o.mu, mu if um else mu0, "mean", 1e-7)
    if not ut:
        same(o.T, T0, "projection kept")
        return
    K = d if k is None else k
    check(o.T.shape == (d, K), "shape of the projection")
    close(o.T.T @ Sw @ o.T, np.eye(K), "the within-class covariance is whitened", 1e-5)
    D = o.T.T @ Sb @ o.T
    w = np.sort(np.linalg.eigvals(np.linalg.solve(Sw, Sb)).real)[::-1]
    close(D, np.diag(w[:K]), "the between-class covariance is diagonal, largest ratios first", 1e-4)
    check(np.all(o.T[0] >= 0), "sign of the first row")
    q = NDA()
    q.fit(mu, Sb, Sw, k)
    close(q.mu, mu, "NDA mean")
    close(q.T.T @ Sw @ q.T, np.eye(K), "NDA whitens Sw", 1e-5)
    close(q.T.T @ Sb @ q.T, np.diag(w[:K]), "NDA diagonalises Sb", 1e-4)
    check(np.all(q.T[0] >= 0), "sign of the first row")


@case("C07", "pca.fit", [P + "pca:PCA.fit"])
def pca_fit(r):
    d = r.size(1, 4)
    n = r.size(d + 3, d + 9)
    x = spread(r, n, d)
    x0 = x.copy()
    mu, C = x.mean(0), np.cov(x.T, bias=True).reshape(d, d)
    k = r.pick(None, r.int(1, d))
    um, ut = r.bool(0.8), r.bool(0.8)
    mu0, T0 = r.arr(d), r.arr(d, d)
    o = PCA(mu=mu0, T=T0, update_mu=um, update_T=ut, pca_dim=k)
    if r.bool():
        o.fit(x)
    else:
        o.fit(mu=mu, C=C)
    close(o.mu, mu if um else mu0, "mean", 1e-7)
    K = d if k is None else k
    if ut:
        check(o.T.shape == (d, K), "shape of the projection")
        close(o.T.T @ o.T, np.eye(K), "orthonormal projection", 1e-6)
        w = np.linalg.eigvalsh(C)[::-1]
        close(o.T.T @ C @ o.T, np.diag(w[:K]), "principal components, largest variance first", 1e-5)
        check(np.all(o.T[0] >= 0), "sign of the first row")
    else:
        same(o.T, T0, "projection kept")
    same(x, x0, "input")


@case("C07", "cent_whiten.fit", [P + "cent_whiten:CentWhiten.fit", P + "cent_whiten_up:CentWhitenUP.fit"])
def cw_fit(r):
    d = r.size(1, 4)
    n = r.size(d + 3, d + 9)
    x = spread(r, n, d)
    x0 = x.copy()
    w = r.posarr(n) if r.bool(0.4) else None
    ww = np.ones(n) if w is None else w
    mu = ww @ x / ww.sum()
    C = (x - mu).T @ (ww[:, None] * (x - mu)) / ww.sum()
    um, ut = r.bool(0.8), r.bool(0.8)
    mu0, T0 = r.arr(d), r.arr(d, d)
    o = (CentWhiten, CentWhitenUP, LNorm)[r.int(0, 2)](mu=mu0, T=T0, update_mu=um, update_T=ut)
    k = r.int(0, 3)
    if k == 0 and type(o) is not CentWhitenUP:
        o.fit(mu=mu, C=C)
    elif k == 1 and type(o) is not CentWhitenUP:
        # fewer samples than dimensions: the mean alone
        x = r.arr(r.int(1, d), d)
        mu, C = x.mean(0), np.eye(d)
        o.fit(x)
    else:
        o.fit(np.hstack((x, r.posarr(n, d))) if type(o) is CentWhitenUP else x, sample_weight=w)
    close(o.mu, mu if um else mu0, "mean", 1e-6)
    if not ut:
        same(o.T, T0, "transform kept")
    else:
        close(o.T.T @ C @ o.T, np.eye(d), "whitened covariance", 1e-4)
        check(np.all(o.T[0] >= 0), "sign of the first row")
        G = o.T.T @ o.T
        close(G, np.diag(np.diag(G)), "the axes are the principal axes", 1e-4)
        check(np.all(np.diff(np.diag(G)) >= -1e-6 * np.diag(G)[:-1]), "largest variance first")
    if r.bool(0.3):
        # a direction without variance is dropped
        D = np.diag([2.0, 0.0, 5.0])
        q = CentWhiten()
        q.fit(mu=np.zeros(3), C=D)
        check(q.T.shape == (3, 2), "null directions are dropped")
        close(q.T.T @ D @ q.T, np.eye(2), "whitened covariance")


@case("C07", "mvn.fit", [P + "mvn:MVN.fit", P + "mvn:MVN.predict"])
def mvn(r):
    n, d = r.size(2, 7), r.size(1, 4)
    x = r.np.randn(n, d) * 3 + 1
    x0 = x.copy()
    o = MVN()
    same(o.predict(x), x0, "no parameters")
    o.fit(x)
    close(o.mu, x0.mean(0), "mean")
    close(o.s, np.sqrt(((x0 - x0.mean(0)) ** 2).mean(0)), "standard deviation", 1e-7)
    z = r.arr(3, d)
    close(o.predict(z), (z - x0.mean(0)) / x0.std(0), "normalised", 1e-6)
    close(MVN(mu=o.mu).predict(z), z - o.mu, "mean only")
    close(MVN(s=o.s).predict(z), z / o.s, "variance only")
    same(x, x0, "input")


@case("C07", "sbsw.fit", [P + "sb_sw:SbSw.fit", P + "sb_sw:SbSw.normalize", P + "sb_sw:SbSw.accum_stats", P + "sb_sw:SbSw.__init__"])
def sbsw(r):
    n, d, c = r.size(1, 9), r.size(1, 3), r.size(1, 4)
    x, y = r.arr(n, d), r.labels(n, c)
    x0, y0 = x.copy(), y.copy()
    g = [x[y == k] for k in np.unique(y)]
    M = np.stack([v.mean(0) for v in g])
    K = len(M)
    Sw = sum((v - v.mean(0)).T @ (v - v.mean(0)) / len(v) for v in g)
    o = SbSw()
    o.fit(x, y)
    close(o.mu, M.mean(0), "mean of the class means")
    close(o.Sb, M.T @ M / K - np.outer(M.mean(0), M.mean(0)), "between class covariance", 1e-7)
    close(o.Sw, Sw / K, "within class covariance", 1e-7)
    check(o.num_classes == K, "number of classes")
    same(x, x0, "input")
    # statistics of several parts
    u = np.unique(y)
    k = r.int(0, len(u))
    parts = []
    for cl in (u[:k], u[k:]):
        i = np.isin(y, cl)
        if i.any():
            s = SbSw()
            s.fit(x[i], y[i], normalize=False)
            parts.append(s)
    c0 = [(s.mu.copy(), s.Sb.copy(), s.Sw.copy()) for s in parts]
    t = SbSw.accum_stats(parts)
    t.normalize()
    close(t.mu, o.mu, "mean from parts")
    close(t.Sb, o.Sb, "Sb from parts", 1e-7)
    close(t.Sw, o.Sw, "Sw from parts", 1e-7)
    check(t.num_classes == K, "number of classes from parts")
    for s, e in zip(parts, c0):
        for a, b in zip((s.mu, s.Sb, s.Sw), e):
            same(a, b, "the parts are not modified")


@case("C07", "nap.fit", [P + "nap:NAP.fit", P + "nap:NAP.predict"])
def nap(r):
    d, c = r.size(2, 4), r.size(2, 4)
    y = np.concatenate([np.full(r.int(2, 5), k) for k in range(c)])
    x = spread(r, len(y), d)
    x0 = x.copy()
    k = r.int(1, d)
    o = NAP()
    o.fit(x, k, y)
    g = [x0[y == q] for q in range(c)]
    Sw = sum((v - v.mean(0)).T @ (v - v.mean(0)) / len(v) for v in g) / c
    w, V = np.linalg.eigh(Sw)
    V = V[:, ::-1][:, :k]
    if w[::-1][k - 1] < 1e-4 * w[-1] or k < d and w[::-1][k - 1] - w[::-1][k] < 1e-3 * w[-1]:
        raise Skip()
    close(o.U.T @ o.U, V @ V.T, "nuisance subspace", 1e-4)
    z = r.arr(3, d)
    close(o.predict(z), z - z @ V @ V.T, "projection", 1e-4)
    U = r.arr(2, d)
    close(NAP(U=U).predict(z), z - z @ U.T @ U, "projection")
    same(x, x0, "input")


@case("C07", "gaussianizer.fit", [P + "gaussianizer:Gaussianizer.fit", P + "gaussianizer:Gaussianizer.predict"])
def gaus(r):
    from scipy.stats import norm
    n, d = r.size(1, 9), r.size(1, 3)
    x = r.arr(n, d)
    x0 = x.copy()
    m = r.pick(None, n + 3, n, r.int(1, n))
    o = Gaussianizer(max_vectors=m)
    o.fit(x)
    R = np.sort(x0, axis=0)
    if m is not None and n > m:
        R = R[np.round(np.linspace(0, n - 1, m)).astype(int)]
    z = r.arr(4, d)
    if r.bool():
        z = np.vstack((z, x0))
    e = np.array([[norm.ppf((1 + (R[:, j] < z[i, j]).sum()) / (len(R) + 2)) for j in range(d)] for i in range(len(z))])
    close(o.predict(z), e, "gaussianised values", 1e-6)
    same(x, x0, "input")


@case("C07", "transform_list", [P + "transform_list:TransformList.predict", P + "transform_list:TransformList.save_params", P + "transform_list:TransformList.load_params", P + "transform_list:TransformList.get_config"], weight=1.5)
def tl(r):
    d = r.size(1, 4)
    f32 = lambda a: a.astype("float32").astype(float)
    A = lambda *s: f32(r.arr(*s))
    mk = [lambda n: LDA(mu=A(d), T=A(d, d), name=n), lambda n: PCA(mu=A(d), T=A(d, d), name=n, pca_dim=r.pick(None, d), update_mu=r.bool()), lambda n: CentWhiten(mu=A(d), T=A(d, d), name=n, update_T=r.bool()),
          lambda n: LNorm(mu=A(d), T=A(d, d), name=n), lambda n: MVN(mu=A(d), s=f32(r.posarr(d)), name=n), lambda n: NDA(mu=A(d), T=A(d, d), name=n), lambda n: NAP(U=A(1, d), name=n),
          lambda n: LDA(T=A(d, d), name=n), lambda n: Gaussianizer(r=np.vstack((np.zeros((1, d)), np.sort(A(5, d), axis=0))), name=n), lambda n: LNorm(name=n)]
    ts = [r.pick(*mk)("t%d" % k) for k in range(r.size(1, 4))]
    o = TransformList(ts[:1] if r.bool() else ts[0], name=r.pick(None, "tl"))
    for t in ts[1:]:
        o.append(t)
    names = [t.name for t in o.transforms]
    x = r.arr(4, d)
    x0 = x.copy()
    y = x0
    for t in ts:
        y = t.predict(y)
    close(o.predict(x), y, "composition", 1e-9)
    f = os.path.join(r.tmp, "tl.h5")
    for k in range(2):
        o.save(f)
        o = TransformList.load(f)
        check([t.name for t in o.transforms] == names, "names after loading: %s, expected %s" % ([t.name for t in o.transforms], names))
        close(o.predict(x), y, "output after loading", 1e-5)
        for a, b in zip(o.transforms, ts):
            check(a.get_config() == b.get_config(), "settings after loading: %s %s" % (a.get_config(), b.get_config()))


@case("C07", "transform.save_load", [P + "lda:LDA.load_params", P + "pca:PCA.load_params", P + "cent_whiten:CentWhiten.load_params", P + "mvn:MVN.load_params", P + "nda:NDA.load_params", P + "nap:NAP.load_params", P + "gaussianizer:Gaussianizer.load_params", P + "sb_sw:SbSw.load_params"])
def io(r):
    d = r.size(1, 4)
    A = lambda *s: r.arr(*s).astype("float32").astype(float)
    nm = r.pick(None, "m")
    N = lambda v: None if r.bool(0.2) else v
    fl = dict(update_mu=r.bool(), update_T=r.bool(), name=nm)
    o = r.pick(lambda: LDA(mu=N(A(d)), T=A(d, 2), **fl), lambda: PCA(mu=N(A(d)), T=N(A(d, 2)), pca_dim=r.pick(None, 2), **fl), lambda: CentWhiten(mu=N(A(d)), T=N(A(d, 2)), **fl), lambda: LNorm(mu=N(A(d)), T=N(A(d, 2)), **fl), lambda: CentWhitenUP(mu=N(A(d)), T=N(A(d, 2)), **fl),
               lambda: LNormUP(mu=N(A(d)), T=A(d, 2), **fl), lambda: MVN(mu=N(A(d)), s=N(A(d)), name=nm), lambda: NDA(mu=N(A(d)), T=A(d, 2), name=nm), lambda: NAP(U=A(1, d), name=nm), lambda: Gaussianizer(r=A(4, d), max_vectors=r.pick(None, 5), name=nm),
               lambda: SbSw(mu=A(d), Sb=A(d, d), Sw=A(d, d), num_classes=3, name=nm))()
    f = os.path.join(r.tmp, "x.h5")
    o.save(f)
    q = type(o).load(f)
    check(type(q) is type(o), "class")
    check(q.name == nm, "name")
    check(q.get_config() == o.get_config(), "settings: %s, expected %s" % (q.get_config(), o.get_config()))
    for k in ("mu", "T", "s", "U", "r", "Sb", "Sw", "num_classes"):
        if hasattr(o, k):
            a, b = getattr(q, k), getattr(o, k)
            check((a is None) == (b is None), "%s is %s, expected %s" % (k, a, b))
            if b is not None:
                close(a, b, k)
