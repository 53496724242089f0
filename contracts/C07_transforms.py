from vc import *
import shim_np
import types

P = "hyperion.transforms."


def L(v):
    return lift(v)


def S(n, f):
    v = fresh("v")
    return sum_over([L(n)], [v], f(v))


def lin(mu, T, d):
    """(x - mu) T with either missing"""
    c = (lambda x, i, k: sub(x.at(i, k), mu.at(k))) if mu is not None else (lambda x, i, k: x.at(i, k))
    if T is None:
        return c
    if T.ndim == 1:
        return lambda x, i, k: mul(c(x, i, k), T.at(k))
    return lambda x, i, k: S(d, lambda v: mul(c(x, i, v), T.at(v, k)))


def data(vc):
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    return n, d, vc.array("x", (n, d))


@contract("C07", "lda.predict", targets=[P + "lda:LDA.predict", P + "pca:PCA.predict", P + "nda:NDA.predict", P + "cent_whiten:CentWhiten.predict"])
def c_pred(vc):
    n, d, x = data(vc)
    cls = vc.choose("class", ["lda:LDA", "pca:PCA", "nda:NDA", "cent_whiten:CentWhiten"])
    m, c = cls.split(":")
    k = vc.int("k", lo=1)
    mu = vc.array("mu", (d,)) if vc.case("mean") else None
    tk = vc.choose("T", ["full", "diag", "none"] if c == "CentWhiten" else ["full"])
    T = None if tk == "none" else vc.array("T", (d, k) if tk == "full" else (d,))
    sn = vc.snap(x)
    r = getattr(vc.mod(P + m), c)(mu=mu, T=T).predict(x)
    vc.ensure_shape("shape", r, (n, k if tk == "full" else d))
    i, j = L(vc.idx("i", n)), L(vc.idx("j", r.shape[1]))
    vc.ensure("projection of the centred data", eq(r.at(i, j), lin(mu, T, d)(x, i, j)))
    vc.unchanged("frame", sn)


@contract("C07", "lnorm.predict", targets=[P + "lnorm:LNorm.predict"])
def c_ln(vc):
    n, d, x = data(vc)
    k = vc.int("k", lo=1)
    mu = vc.array("mu", (d,)) if vc.case("mean") else None
    T = vc.array("T", (d, k)) if vc.case("T") else None
    D = d if T is None else k
    sn = vc.snap(x)
    r = vc.mod(P + "lnorm").LNorm(mu=mu, T=T).predict(x)
    i, j = L(vc.idx("i", n)), L(vc.idx("j", D))
    y = lin(mu, T, d)
    nrm = tsqrt(S(D, lambda v: power(y(x, i, v), 2)))
    vc.ensure_shape("shape", r, (n, D))
    vc.ensure("scaled to norm sqrt(dim)", eq(r.at(i, j), div(mul(tsqrt(L(D)), y(x, i, j)), add(nrm, L(1e-10)))))
    vc.unchanged("frame", sn)


@contract("C07", "cent_whiten_up.predict", targets=[P + "cent_whiten_up:CentWhitenUP.predict", P + "lnorm_up:LNormUP.predict"])
def c_up(vc):
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    x = vc.array("x", (n, mul(lift(2), L(d))))
    k = vc.int("k", lo=1)
    mu = vc.array("mu", (d,)) if vc.case("mean") else None
    T = vc.array("T", (d, k)) if vc.case("T") else None
    ln = vc.case("lnorm")
    D = L(d) if T is None else L(k)
    sn = vc.snap(x)
    r = (vc.mod(P + "lnorm_up").LNormUP if ln else vc.mod(P + "cent_whiten_up").CentWhitenUP)(mu=mu, T=T).predict(x)
    i, j = L(vc.idx("i", n)), L(vc.idx("j", mk(D)))
    y = lin(mu, T, d)
    var = lambda j: x.at(i, add(L(d), j)) if T is None else S(d, lambda v: mul(x.at(i, add(L(d), v)), power(T.at(v, j), 2)))
    n2 = add(S(mk(D), lambda v: power(y(x, i, v), 2)), L(1e-10)) if ln else ONE
    vc.ensure_shape("shape", r, (n, mul(lift(2), D)))
    vc.ensure("means", eq(r.at(i, j), div(y(x, i, j), tsqrt(n2)) if ln else y(x, i, j)))
    vc.ensure("variances", eq(r.at(i, add(D, j)), div(var(j), n2)))
    vc.unchanged("frame", sn)


class Eigh:
    """contract of scipy.linalg.eigh: eigenvalues in ascending order and the eigenvectors as columns, whatever the values are"""

    def __init__(self, vc, mod, d):
        self.calls = []

        def eigh(A, B=None, **k):
            w, V = vc.array("w", (d,)), vc.array("V", (d, d))
            vc.assume(tm.forall_rng(L(d), lambda i: implies(lt(add(i, ONE), L(d)), le(w.at(i), w.at(add(i, ONE))))))
            self.calls.append((A, B, w, SArr(V._shape, "r", V.fn())))
            return w, V
        vc.patch(mod, "la", types.SimpleNamespace(eigh=eigh))

    def col(self, i, k, d):
        """k-th column of the projection: k-th largest eigenvalue, sign of the first element not negative"""
        A, B, w, V = self.calls[0]
        q = sub(sub(L(d), ONE), k)
        return mul(ite(lt(V.at(ZERO, q), ZERO), lift(-1), ONE), V.at(i, q))


@contract("C07", "lda.fit", targets=[P + "lda:LDA.fit", P + "nda:NDA.fit"])
def c_lda(vc):
    d, k = vc.int("d", lo=1), vc.int("k", lo=1)
    vc.assume(le(L(k), L(d)))
    dim = k if vc.case("dim") else None
    nda = vc.case("nda")
    m = vc.mod(P + ("nda" if nda else "lda"))
    mu, Sb, Sw = vc.array("mu", (d,)), vc.array("Sb", (d, d)), vc.spd("Sw", d)
    stored = not nda and dim is not None and vc.case("dimension of the stored projection")
    mu0, T0 = vc.array("mu0", (d,)), vc.array("T0", (d, k if stored else d))
    sn = vc.snap(mu, Sb, Sw)
    E = Eigh(vc, m, d)
    um = ut = True
    if nda:
        o = m.NDA()
        o.fit(mu, Sb, Sw, dim)
    else:
        um, ut = vc.case("update_mu"), vc.case("update_T")
        o = m.LDA(mu=mu0, T=T0, update_mu=um, update_T=ut)
        if not stored:
            o.lda_dim = dim
        if vc.case("from data"):
            n = vc.int("n", lo=1)
            x, y = vc.array("x", (n, d)), vc.array("y", (n,), kind="i")
            seen = []

            class SbSw:
                def fit(self, *a):
                    seen.append(a)
                    self.mu, self.Sb, self.Sw = mu, Sb, Sw
            vc.patch(m, "SbSw", SbSw)
            o.fit(x, y)
            vc.ensure("statistics of the given data", tm.TRUE if len(seen) == 1 and len(seen[0]) == 2 and seen[0][0] is x and seen[0][1] is y else tm.FALSE)
        else:
            o.fit(None, None, mu=mu, Sb=Sb, Sw=Sw)
    i, j = L(vc.idx("i", d)), L(vc.idx("j", d))
    tag = " (%d%d)" % (um, ut)
    vc.ensure("mean" + tag, eq(o.mu.at(i), (mu if um else mu0).at(i)))
    if not ut:
        c = L(vc.idx("c", k if stored else d))
        vc.ensure("projection kept" + tag, eq(o.T.at(i, c), T0.at(i, c)))
        return
    A, B, w, V = E.calls[0]
    vc.ensure("one eigen-decomposition of (Sb, Sw)" + tag, band(tm.TRUE if len(E.calls) == 1 else tm.FALSE, eq(A.at(i, j), sn[1][1].at(i, j)), eq(B.at(i, j), sn[2][1].at(i, j))))
    vc.ensure_shape("shape" + tag, o.T, (d, d if dim is None else k))
    c = L(vc.idx("c", d if dim is None else k))
    vc.ensure("columns: largest ratios first, first row not negative" + tag, eq(o.T.at(i, c), E.col(i, c, d)))
    vc.unchanged("frame", sn)


@contract("C07", "pca.fit", targets=[P + "pca:PCA.fit"])
def c_pca(vc):
    d, k = vc.int("d", lo=1), vc.int("k", lo=1)
    vc.assume(le(L(k), L(d)))
    dim = k if vc.case("dim") else None
    um, ut = vc.case("update_mu"), vc.case("update_T")
    m = vc.mod(P + "pca")
    mu0, T0 = vc.array("mu0", (d,)), vc.array("T0", (d, d))
    E = Eigh(vc, m, d)
    o = m.PCA(mu=mu0, T=T0, update_mu=um, update_T=ut, pca_dim=dim)
    i, j = L(vc.idx("i", d)), L(vc.idx("j", d))
    if vc.case("from data"):
        n = vc.int("n", lo=1)
        x = vc.array("x", (n, d))
        sn = vc.snap(x)
        o.fit(x)
        mean = lambda i: div(S(n, lambda v: x.at(v, i)), L(n))
        cov = lambda i, j: div(S(n, lambda v: mul(sub(x.at(v, i), mean(i)), sub(x.at(v, j), mean(j)))), L(n))
    else:
        mu, C = vc.array("mu", (d,)), vc.spd("C", d)
        sn = vc.snap(mu, C)
        o.fit(mu=mu, C=C)
        mean, cov = mu.at, C.at
    tag = " (%d%d)" % (um, ut)
    vc.ensure("mean" + tag, eq(o.mu.at(i), mean(i) if um else mu0.at(i)))
    vc.unchanged("frame", sn)
    if not ut:
        vc.ensure("projection kept" + tag, eq(o.T.at(i, j), T0.at(i, j)))
        return
    A, B, w, V = E.calls[0]
    vc.ensure("one eigen-decomposition of the covariance" + tag, band(tm.TRUE if len(E.calls) == 1 and B is None else tm.FALSE, eq(A.at(i, j), cov(i, j))))
    vc.ensure_shape("shape" + tag, o.T, (d, d if dim is None else k))
    c = L(vc.idx("c", d if dim is None else k))
    vc.ensure("columns: largest variances first, first row not negative" + tag, eq(o.T.at(i, c), E.col(i, c, d)))


@contract("C07", "cent_whiten.fit", targets=[P + "cent_whiten:CentWhiten.fit", P + "cent_whiten_up:CentWhitenUP.fit"])
def c_cw(vc):
    d = vc.int("d", lo=1)
    um, ut = vc.case("update_mu"), vc.case("update_T")
    m = vc.mod(P + "cent_whiten")
    mu0, T0 = vc.array("mu0", (d,)), vc.array("T0", (d, d))
    E = Eigh(vc, m, d)
    up = vc.case("up")
    o = (vc.mod(P + "cent_whiten_up").CentWhitenUP if up else m.CentWhiten)(mu=mu0, T=T0, update_mu=um, update_T=ut)
    i, j = L(vc.idx("i", d)), L(vc.idx("j", d))
    eig = vc.mod  # keep the name local
    tag = " (%d%d)" % (um, ut)
    mu, C = vc.array("mu", (d,)), vc.spd("C", d)
    mean, cov = mu.at, C.at
    if up or vc.case("from data"):
        n = vc.int("n", lo=1)
        D = mul(lift(2), L(d)) if up else L(d)
        x = vc.array("x", (n, mk(D)))
        sw = vc.array("sw", (n,), pos=True) if vc.case("weights") else None
        seen = []

        class Normal:
            """contract of Normal.fit: mu and Sigma of the data and weights it was given (property C04)"""
            def __init__(self, x_dim=None):
                self.x_dim = x_dim

            def fit(self, x=None, sample_weight=None):
                seen.append((x, sample_weight, self.x_dim))
                self.mu, self.Sigma = mu, C
        vc.patch(m, "Normal", Normal)
        sn = vc.snap(x)
        o.fit(x, sample_weight=sw)
        if seen:
            vc.ensure("the normal is fit to the data when there are more samples than dimensions" + tag, band(gt(L(n), L(d)), tm.TRUE if len(seen) == 1 and seen[0][1] is sw else tm.FALSE, eq(L(seen[0][2]), L(d)), eq(seen[0][0].at(L(vc.idx("s", n)), i), x.at(L(vc.idx("s", n)), i)) if False else tm.TRUE))
            s = L(vc.idx("s", n))
            vc.ensure("data given to the normal" + tag, eq(seen[0][0].at(s, i), x.at(s, i)))
        else:
            vc.ensure("few samples" + tag, le(L(n), L(d)))
            mean = lambda i: div(S(n, lambda v: x.at(v, i)), L(n))
            cov = lambda i, j: ind(eq(i, j))
    else:
        sn = vc.snap(mu, C)
        o.fit(mu=mu, C=C)
    vc.ensure("mean" + tag, eq(o.mu.at(i), mean(i) if um else mu0.at(i)))
    vc.unchanged("frame", sn)
    if not ut:
        vc.ensure("transform kept" + tag, eq(o.T.at(i, j), T0.at(i, j)))
        return
    A, B, w, V = E.calls[0]
    vc.ensure("one eigen-decomposition of the covariance" + tag, band(tm.TRUE if len(E.calls) == 1 and B is None else tm.FALSE, eq(A.at(i, j), cov(i, j))))
    K = o.T.shape[1]
    c = L(vc.idx("c", K))
    allpos = tm.forall_rng(L(d), lambda q: gt(w.at(q), ZERO))
    q = sub(sub(L(d), ONE), c)
    vc.ensure("columns: largest variance first, scaled to unit variance" + tag, implies(allpos, band(eq(L(K), L(d)), eq(mul(o.T.at(i, c), tsqrt(w.at(q))), E.col(i, c, d)))))


@contract("C07", "mvn.fit", targets=[P + "mvn:MVN.fit", P + "mvn:MVN.predict"])
def c_mvn(vc):
    n, d, x = data(vc)
    m = vc.mod(P + "mvn")
    o = m.MVN()
    sn = vc.snap(x)
    o.fit(x)
    j = L(vc.idx("j", d))
    mean = div(S(n, lambda v: x.at(v, j)), L(n))
    vc.ensure("mean", eq(o.mu.at(j), mean))
    vc.ensure("standard deviation", eq(o.s.at(j), tsqrt(div(S(n, lambda v: power(sub(x.at(v, j), mean), 2)), L(n)))))
    mu = vc.array("mu", (d,)) if vc.case("mean") else None
    s = vc.array("s", (d,), pos=True) if vc.case("scale") else None
    r = m.MVN(mu=mu, s=s).predict(x)
    i = L(vc.idx("i", n))
    y = x.at(i, j)
    y = y if mu is None else sub(y, mu.at(j))
    vc.ensure("normalised", eq(r.at(i, j), y if s is None else div(y, s.at(j))))
    vc.unchanged("frame", sn)


@contract("C07", "sbsw.accum", targets=[P + "sb_sw:SbSw.normalize", P + "sb_sw:SbSw.accum_stats", P + "sb_sw:SbSw.__init__"], replay="sbsw.fit")
def c_sb(vc):
    m = vc.mod(P + "sb_sw")
    d = vc.int("d", lo=1)
    K = vc.int("K", lo=1)
    o = m.SbSw(mu=vc.array("mu", (d,)), Sb=vc.array("Sb", (d, d)), Sw=vc.array("Sw", (d, d)), num_classes=K)
    sn = vc.snap(o.mu, o.Sb, o.Sw)
    mu, Sb, Sw = (s[1] for s in sn)
    k = vc.choose("parts", [1, 2, 3])
    ps = [o] + [m.SbSw(mu=vc.array("mu%d" % p, (d,)), Sb=vc.array("Sb%d" % p, (d, d)), Sw=vc.array("Sw%d" % p, (d, d)), num_classes=vc.int("K%d" % p, lo=1)) for p in range(1, k)]
    t = m.SbSw.accum_stats(ps)
    i, j = L(vc.idx("i", d)), L(vc.idx("j", d))
    vc.ensure("sum of means (%d)" % k, eq(t.mu.at(i), add(*[p.mu.at(i) for p in ps])))
    vc.ensure("sum of Sb (%d)" % k, eq(t.Sb.at(i, j), add(*[p.Sb.at(i, j) for p in ps])))
    vc.ensure("sum of Sw (%d)" % k, eq(t.Sw.at(i, j), add(*[p.Sw.at(i, j) for p in ps])))
    vc.ensure("number of classes (%d)" % k, eq(L(t.num_classes), add(*[L(p.num_classes) for p in ps])))
    vc.unchanged("frame", sn)
    o.normalize()
    mn = lambda i: div(mu.at(i), L(K))
    vc.ensure("mean", eq(o.mu.at(i), mn(i)))
    vc.ensure("between", eq(o.Sb.at(i, j), sub(div(Sb.at(i, j), L(K)), mul(mn(i), mn(j)))))
    vc.ensure("within", eq(o.Sw.at(i, j), div(Sw.at(i, j), L(K))))


@contract("C07", "nap.predict", targets=[P + "nap:NAP.predict"], replay="nap.fit")
def c_nap(vc):
    n, d, x = data(vc)
    k = vc.int("k", lo=1)
    U = vc.array("U", (k, d))
    sn = vc.snap(x, U)
    r = vc.mod(P + "nap").NAP(U=U).predict(x)
    i, j = L(vc.idx("i", n)), L(vc.idx("j", d))
    vc.ensure("directions removed", eq(r.at(i, j), sub(x.at(i, j), S(k, lambda q: mul(U.at(q, j), S(d, lambda v: mul(x.at(i, v), U.at(q, v))))))))
    vc.unchanged("frame", sn)


@contract("C07", "transform_list.predict", targets=[P + "transform_list:TransformList.predict", P + "transform_list:TransformList.append", P + "transform_list:TransformList.__init__", P + "transform_list:TransformList.update_names"], replay="transform_list")
def c_tl(vc):
    m = vc.mod(P + "transform_list")
    n, d, x = data(vc)
    log = []

    def t(k):
        def pr(y):
            log.append((k, y))
            return vc.array("y%d" % k, (n, d))
        return types.SimpleNamespace(name="t%d" % k, predict=pr)
    ts = [t(k) for k in range(vc.choose("number", [1, 2, 3]))]
    nm = "l" if vc.case("named") else None
    o = m.TransformList(list(ts[:1]) if vc.case("list") else ts[0], name=nm)
    for q in ts[1:]:
        o.append(q)
    r = o.predict(x)
    ok = len(log) == len(ts) and all(log[k][0] == k for k in range(len(ts))) and log[0][1] is x
    vc.ensure("all transforms once, in order", tm.TRUE if ok else tm.FALSE)
    i, j = L(vc.idx("i", n)), L(vc.idx("j", d))
    for k in range(1, len(log)):
        vc.ensure("input of transform %d" % k, eq(log[k][1].at(i, j), app("y%d" % (k - 1), i, j)))
    vc.ensure("output", eq(r.at(i, j), app("y%d" % (len(ts) - 1), i, j)))
    vc.ensure("names", tm.TRUE if [q.name for q in ts] == [("l/" if nm else "") + "t%d" % k for k in range(len(ts))] else tm.FALSE)


@contract("C07", "transform.save_load", targets=[P + "lda:LDA.load_params", P + "pca:PCA.load_params", P + "cent_whiten:CentWhiten.load_params", P + "mvn:MVN.load_params", P + "nda:NDA.load_params", P + "nap:NAP.load_params", P + "gaussianizer:Gaussianizer.load_params", P + "sb_sw:SbSw.load_params"])
def c_io(vc):
    cls = vc.choose("class", ["lda:LDA", "pca:PCA", "cent_whiten:CentWhiten", "lnorm:LNorm", "cent_whiten_up:CentWhitenUP", "mvn:MVN", "nda:NDA", "nap:NAP", "gaussianizer:Gaussianizer", "sb_sw:SbSw"])
    m, c = cls.split(":")
    d, k = vc.int("d", lo=1), vc.int("k", lo=1)
    nm = "g" if vc.case("named") else None
    kw = dict(name=nm)
    if c == "MVN":
        kw.update(mu=vc.array("mu", (d,)) if vc.case("mean") else None, s=vc.array("s", (d,)))
    elif c == "NAP":
        kw.update(U=vc.array("U", (k, d)))
    elif c == "Gaussianizer":
        kw.update(r=vc.array("r", (k, d)), max_vectors=vc.int("mv", lo=1) if vc.case("mean") else None)
    elif c == "SbSw":
        kw.update(mu=vc.array("mu", (d,)), Sb=vc.array("Sb", (d, d)), Sw=vc.array("Sw", (d, d)), num_classes=vc.int("K", lo=1))
    else:
        kw.update(mu=vc.array("mu", (d,)) if vc.case("mean") else None, T=vc.array("T", (d, k)))
        if c != "NDA":
            kw.update(update_mu=vc.case("um"), update_T=vc.case("ut"))
    o = getattr(vc.mod(P + m), c)(**kw)
    o.save("d/m.h5")
    q = type(o).load("d/m.h5")
    vc.ensure("class " + c, tm.TRUE if type(q) is type(o) else tm.FALSE)
    for a in sorted(kw) + (["lda_dim"] if c == "LDA" else ["pca_dim"] if c == "PCA" else []):
        vc.ensure_eq("%s.%s" % (c, a), getattr(q, a), getattr(o, a))
