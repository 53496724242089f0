from vc import *
import shim_np
from shim_np import inv_el

P = "hyperion.pdfs.plda."
MB, MR, MS, MP = P + "plda_base", P + "frplda", P + "splda", P + "plda"
B, FR, SP, PL = MB + ":PLDABase.", MR + ":FRPLDA.", MS + ":SPLDA.", MP + ":PLDA."
HALF = div(ONE, lift(2))


def L(v):
    return lift(v)


def PI():
    return lift(shim_np.NP.pi)


def mth(vc):
    return vc.mod("hyperion.utils.math")


def S(n, f):
    """sum of f(k) over k < n"""
    v = fresh("v")
    return sum_over([L(n)], [v], f(v))


def S2(n, m, f):
    v, w = fresh("v"), fresh("w")
    return sum_over([L(n), L(m)], [v, w], f(v, w))


def model(vc, kind, **kw):
    d = vc.int("d", lo=1)
    mu = vc.array("mu", (d,))
    if kind == "fr":
        Bm, W = vc.spd("B", d), vc.spd("W", d)
        return d, d, dict(mu=mu, B=Bm, W=W), vc.mod(MR).FRPLDA(mu=mu, B=Bm, W=W, x_dim=d, **kw)
    q = vc.int("q", lo=1)
    vc.assume(le(L(q), L(d)))
    V = vc.array("V", (q, d))
    if kind == "s":
        W = vc.spd("W", d)
        return d, q, dict(mu=mu, V=V, W=W), vc.mod(MS).SPLDA(mu=mu, V=V, W=W, x_dim=d, **kw)
    z = vc.int("z", lo=1)
    vc.assume(le(L(z), L(d)))
    U = vc.array("U", (z, d))
    D = vc.array("D", (d,), pos=True)
    return d, q, dict(mu=mu, V=V, U=U, D=D), vc.mod(MP).PLDA(mu=mu, V=V, U=U, D=D, x_dim=d, **kw)


# ------------------------------------------------------------------ statistics
@contract("C06", "plda.stats", targets=[B + "compute_stats_soft", B + "center_stats"])
def c_st(vc):
    n, m, d = vc.int("n", lo=1), vc.int("m", lo=1), vc.int("d", lo=1)
    x, p = vc.array("x", (n, d)), vc.array("p", (n, m))
    w = vc.array("w", (n,)) if vc.case("weights") else None
    s = vc.real("s") if vc.case("scaled") else None
    sn = vc.snap(x, p) if w is None else vc.snap(x, p, w)
    C = vc.mod(MB).PLDABase
    N, F, Sx = C.compute_stats_soft(x, p, sample_weight=w, scal_factor=s)
    q = lambda i, k: mul(p.at(i, k), ONE if w is None else w.at(i), ONE if s is None else L(s))
    k, a, b = L(vc.idx("k", m)), L(vc.idx("a", d)), L(vc.idx("b", d))
    vc.ensure("counts", eq(N.at(k), S(n, lambda i: q(i, k))))
    vc.ensure("first order", eq(F.at(k, a), S(n, lambda i: mul(q(i, k), x.at(i, a)))))
    vc.ensure("second order", eq(Sx.at(a, b), S2(n, m, lambda i, j: mul(q(i, j), x.at(i, a), x.at(i, b)))))
    mu = vc.array("mu", (d,))
    N1, F1, S1 = C.center_stats((N, F, Sx), mu)
    vc.ensure("centered counts", eq(N1.at(k), N.at(k)))
    vc.ensure("centered first order", eq(F1.at(k, a), S(n, lambda i: mul(q(i, k), sub(x.at(i, a), mu.at(a))))))
    vc.ensure("centered second order", eq(S1.at(a, b), S2(n, m, lambda i, j: mul(q(i, j), sub(x.at(i, a), mu.at(a)), sub(x.at(i, b), mu.at(b))))))
    vc.unchanged("frame", sn)


@contract("C06", "plda.stats_hard", targets=[B + "compute_stats_hard"], replay="plda.stats")
def c_sth(vc):
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    x = vc.array("x", (n, d))
    ids = vc.array("ids", (n,), kind="i")
    vc.assume(tm.forall_rng(L(n), lambda i: ge(ids.at(i), ZERO)))
    w = vc.array("w", (n,)) if vc.case("weights") else None
    sn = vc.snap(x, ids) if w is None else vc.snap(x, ids, w)
    N, F, Sx = vc.mod(MB).PLDABase.compute_stats_hard(x, ids, sample_weight=w)
    q = (lambda i: ONE) if w is None else w.at
    k, a, b = L(vc.idx("k", N.shape[0])), L(vc.idx("a", d)), L(vc.idx("b", d))
    vc.ensure("every class has its counts", tm.forall_rng(L(n), lambda i: lt(ids.at(i), L(N.shape[0]))))
    vc.ensure("counts", eq(N.at(k), S(n, lambda i: mul(q(i), ind(eq(ids.at(i), k))))))
    vc.ensure("first order", eq(F.at(k, a), S(n, lambda i: mul(q(i), ind(eq(ids.at(i), k)), x.at(i, a)))))
    vc.ensure("second order", eq(Sx.at(a, b), S(n, lambda i: mul(q(i), x.at(i, a), x.at(i, b)))))
    vc.unchanged("frame", sn)


# ------------------------------------------------------------------ scores
def quad(q, M, g, h):
    """g' M^-1 h"""
    return S2(q, q, lambda a, b: mul(g(a), inv_el(L(q), M, a, b), h(b)))


def pieces(vc, kind, d, q, p, o):
    """precision of y given n samples, projection of a first order statistic (count n), constant"""
    if kind == "fr":
        Lm = lambda n: lambda a, b: add(p["B"].at(a, b), mul(n, p["W"].at(a, b)))
        g = lambda f, n: lambda a: add(S(d, lambda v: mul(f(v), p["W"].at(v, a))), S(d, lambda v: mul(p["mu"].at(v), p["B"].at(v, a))))
        return Lm, g, add(neg(L(mth(vc).logdet_pdmat(p["B"]))), S2(d, d, lambda a, b: mul(p["mu"].at(a), p["B"].at(a, b), p["mu"].at(b))))
    if kind == "s":
        WV = lambda v, a: S(d, lambda w: mul(p["W"].at(v, w), p["V"].at(a, w)))
        VV = lambda a, b: S2(d, d, lambda v, w: mul(p["V"].at(a, v), p["W"].at(v, w), p["V"].at(b, w)))
    else:
        WV, VV = o._VW.at, o._VWV.at
    Lm = lambda n: lambda a, b: add(ind(eq(a, b)), mul(n, VV(a, b)))
    g = lambda f, n: lambda a: S(d, lambda v: mul(sub(f(v), mul(n, p["mu"].at(v))), WV(v, a)))
    return Lm, g, ZERO


def ld(vc, q, M):
    return L(mth(vc).logdet_pdmat(SArr((q, q), "r", M)))


def llr_ref(vc, kind, d, q, p, o, n1, f1, n2, f2):
    Lm, g, c = pieces(vc, kind, d, q, p, o)
    n12 = add(n1, n2)
    gt_ = g(lambda v: add(f1(v), f2(v)), n12)
    return mul(HALF, add(quad(q, Lm(n12), gt_, gt_), neg(quad(q, Lm(n1), g(f1, n1), g(f1, n1))), neg(quad(q, Lm(n2), g(f2, n2), g(f2, n2))),
                         ld(vc, q, Lm(n1)), ld(vc, q, Lm(n2)), neg(ld(vc, q, Lm(n12))), c))


def given(vc, kind, **kw):
    """the values derived from the parameters under their own contract (plda.compute_aux): W V' and V W V'"""
    d, q, p, o = model(vc, kind, **kw)
    o.is_init
    if kind == "f":
        vc.patch(o, "_VW", vc.array("VW", (d, q)))
        vc.patch(o, "_VWV", vc.spd("VWV", q))
    return d, q, p, o


def llr(vc, kind):
    d, q, p, o = given(vc, kind)
    n, m = vc.int("n", lo=1), vc.int("m", lo=1)
    x1, x2 = vc.array("x1", (n, d)), vc.array("x2", (m, d))
    sn = vc.snap(x1, x2, *p.values())
    s = o.llr_1vs1(x1, x2)
    i, j = L(vc.idx("i", n)), L(vc.idx("j", m))
    vc.ensure_shape("one score per pair", s, (n, m))
    vc.ensure("log likelihood ratio", eq(s.at(i, j), llr_ref(vc, kind, d, q, p, o, ONE, lambda v: x1.at(i, v), ONE, lambda v: x2.at(j, v))))
    vc.unchanged("frame", sn)


@contract("C06", "frplda.llr", targets=[FR + "llr_1vs1", "hyperion.utils.math:invert_trimat", "hyperion.utils.math:logdet_pdmat"])
def c_lr(vc):
    llr(vc, "fr")


@contract("C06", "splda.llr", targets=[SP + "llr_1vs1"])
def c_ls(vc):
    llr(vc, "s")


@contract("C06", "plda.llr", targets=[PL + "llr_1vs1"])
def c_lp(vc):
    llr(vc, "f")


@contract("C06", "plda.compute_aux", targets=[PL + "compute_aux", PL + "is_init"], replay="plda.post")
def c_aux(vc):
    """W is the inverse of the within-class covariance U'U + 1/D, VW = W V', VWV = V W V'"""
    d, q, p, o = model(vc, "f")
    o.is_init
    U, D, V = p["U"], p["D"], p["V"]
    z = L(U.shape[0])
    a, b = L(vc.idx("a", d)), L(vc.idx("b", d))
    Lz = lambda i, j: add(ind(eq(i, j)), S(d, lambda v: mul(U.at(i, v), D.at(v), U.at(j, v))))
    vc.ensure("W", eq(o._W.at(a, b), sub(mul(ind(eq(a, b)), D.at(a)), S2(z, z, lambda i, j: mul(D.at(a), U.at(i, a), inv_el(z, Lz, i, j), U.at(j, b), D.at(b))))))
    y, y2 = L(vc.idx("y", q)), L(vc.idx("y2", q))
    vc.ensure("VW", eq(o._VW.at(a, y), S(d, lambda v: mul(o._W.at(a, v), V.at(y, v)))))
    vc.ensure("VWV", eq(o._VWV.at(y, y2), S2(d, d, lambda v, w: mul(V.at(y, v), o._W.at(v, w), V.at(y2, w)))))
    vc.ensure("log determinant", eq(L(o._log_Lz), ld(vc, mk(z), Lz)))


# ------------------------------------------------------------------ posterior
def post(vc, kind):
    d, q, p, o = given(vc, kind)
    m = vc.int("m", lo=1)
    N = vc.array("N", (m,), pos=True)
    F, Sx = vc.array("F", (m, d)), vc.array("S", (d, d))
    vc.assume(tm.exists_rng(L(m), lambda i: bnot(eq(tm.tceil(N.at(i)), N.at(i)))))
    sn = vc.snap(N, F, Sx, *p.values())
    y, Sy, lp, Ry, Py = o.compute_py_g_x((N, F, Sx), return_cov=True, return_logpy_0=True, return_acc=True)
    Lm, g, _ = pieces(vc, kind, d, q, p, o)
    k, a, b = L(vc.idx("k", m)), L(vc.idx("a", q)), L(vc.idx("b", q))
    gk = lambda k: g(lambda v: F.at(k, v), N.at(k))
    mean = lambda k, a: S(q, lambda c: mul(inv_el(L(q), Lm(N.at(k)), a, c), gk(k)(c)))
    vc.ensure("posterior mean", eq(y.at(k, a), mean(k, a)))
    vc.ensure("posterior covariance", eq(Sy.at(k, a, b), inv_el(L(q), Lm(N.at(k)), a, b)))
    vc.ensure("log posterior at 0", eq(lp.at(k), add(neg(mul(HALF, L(q), tlog(mul(lift(2), PI())))), mul(HALF, ld(vc, q, Lm(N.at(k)))), neg(mul(HALF, quad(q, Lm(N.at(k)), gk(k), gk(k)))))))
    vc.ensure("sum of the covariances", eq(Py.at(a, b), S(m, lambda k: inv_el(L(q), Lm(N.at(k)), a, b))))
    vc.ensure("weighted sum of the covariances", eq(Ry.at(a, b), S(m, lambda k: mul(N.at(k), inv_el(L(q), Lm(N.at(k)), a, b)))))
    vc.unchanged("frame", sn)


@contract("C06", "frplda.post", targets=[FR + "compute_py_g_x"])
def c_pr(vc):
    post(vc, "fr")


@contract("C06", "splda.post", targets=[SP + "compute_py_g_x"])
def c_ps(vc):
    post(vc, "s")


@contract("C06", "plda.post", targets=[PL + "compute_py_g_x"])
def c_pp(vc):
    post(vc, "f")


def stub_post(vc, o, m, q):
    """the posterior under its own contract: arbitrary values"""
    y, lp = vc.array("y", (m, q)), vc.array("lp", (m,))
    Ry, Py = vc.array("Ry0", (q, q)), vc.array("Py0", (q, q))
    vc.patch(o, "compute_py_g_x", lambda D, **k: [y, lp, SArr(Ry._shape, "r", Ry.fn()), SArr(Py._shape, "r", Py.fn())])
    return y, lp, Ry, Py


def estep(vc, kind):
    d, q, p, o = model(vc, kind)
    o.is_init
    m = vc.int("m", lo=1)
    N, F, Sx = vc.array("N", (m,), pos=True), vc.array("F", (m, d)), vc.array("S", (d, d))
    y, lp, Ry, Py = stub_post(vc, o, m, q)
    sn = vc.snap(N, F, Sx, *p.values())
    st = list(o.Estep((N, F, Sx)))
    a, b, c, e = L(vc.idx("a", q)), L(vc.idx("b", q)), L(vc.idx("c", d)), L(vc.idx("e", d))
    it = iter(range(20))
    nx = lambda: st[next(it)]
    vc.ensure("total count", eq(L(nx()), S(m, N.at)))
    vc.ensure("number of classes", eq(L(nx()), L(m)))
    if kind != "fr":
        vc.ensure("total first order", eq(nx().at(c), S(m, lambda k: F.at(k, c))))
    vc.ensure("second order", eq(nx().at(c, e), Sx.at(c, e)))
    vc.ensure("log posterior", eq(L(nx()), S(m, lp.at)))
    vc.ensure("sum of y", eq(nx().at(a), S(m, lambda k: y.at(k, a))))
    if kind != "fr":
        vc.ensure("weighted sum of y", eq(nx().at(a), S(m, lambda k: mul(N.at(k), y.at(k, a)))))
    vc.ensure("weighted sum of yy", eq(nx().at(a, b), add(Ry.at(a, b), S(m, lambda k: mul(N.at(k), y.at(k, a), y.at(k, b))))))
    vc.ensure("sum of xy", eq(nx().at(c, a), S(m, lambda k: mul(F.at(k, c), y.at(k, a)))))
    vc.ensure("sum of yy", eq(nx().at(a, b), add(Py.at(a, b), S(m, lambda k: mul(y.at(k, a), y.at(k, b))))))
    if kind == "f":
        U, D, V, mu = (p[k] for k in "U D V mu".split())
        z = L(U.shape[0])
        Lz = lambda i, j: add(ind(eq(i, j)), S(d, lambda v: mul(U.at(i, v), D.at(v), U.at(j, v))))
        iLz = lambda i, j: inv_el(z, Lz, i, j)
        J = lambda a, i: S(d, lambda v: mul(V.at(a, v), D.at(v), U.at(i, v)))
        i, j = L(vc.idx("i", z)), L(vc.idx("j", z))
        Ry1 = lambda a: S(m, lambda k: mul(N.at(k), y.at(k, a)))
        Cy = lambda c, a: S(m, lambda k: mul(F.at(k, c), y.at(k, a)))
        Ft = lambda c: S(m, lambda k: F.at(k, c))
        vc.ensure("sum of z", eq(nx().at(i), S(z, lambda h: mul(iLz(h, i), sub(S(d, lambda v: mul(sub(Ft(v), mul(S(m, N.at), mu.at(v))), D.at(v), U.at(h, v))), S(q, lambda b: mul(Ry1(b), J(b, h))))))))
        nx()
        RY = lambda a, b: add(Ry.at(a, b), S(m, lambda k: mul(N.at(k), y.at(k, a), y.at(k, b))))
        vc.ensure("sum of yz", eq(nx().at(a, i), S(z, lambda h: mul(iLz(h, i), sub(S(d, lambda v: mul(sub(Cy(v, a), mul(mu.at(v), Ry1(a))), D.at(v), U.at(h, v))), S(q, lambda b: mul(RY(a, b), J(b, h))))))))
        vc.ensure("sum of xz", eq(nx().at(c, i), S(z, lambda h: mul(iLz(h, i), sub(S(d, lambda v: mul(sub(Sx.at(c, v), mul(Ft(c), mu.at(v))), D.at(v), U.at(h, v))), S(q, lambda b: mul(Cy(c, b), J(b, h))))))))
    vc.unchanged("frame", sn)


@contract("C06", "frplda.estep", targets=[FR + "Estep"], replay="frplda.post")
def c_er(vc):
    estep(vc, "fr")


@contract("C06", "splda.estep", targets=[SP + "Estep"], replay="splda.post")
def c_es(vc):
    estep(vc, "s")


@contract("C06", "plda.estep", targets=[PL + "Estep"], replay="plda.post")
def c_ep(vc):
    estep(vc, "f")


def elbo(vc, kind):
    d, q, p, o = model(vc, kind)
    o.is_init
    N, lp = vc.real("Nt", pos=True), vc.real("lp")
    m = vc.int("m", lo=1)
    F, Sx = vc.array("F", (d,)), vc.array("S", (d, d))
    st = (N, m, Sx, lp) if kind == "fr" else (N, m, F, Sx, lp)
    r = L(o.elbo(st))
    l2 = tlog(mul(lift(2), PI()))
    if kind == "fr":
        W = p["W"].at
        lw = L(mth(vc).logdet_pdmat(p["W"]))
        sh = Sx.at
        py = mul(HALF, L(m), add(neg(mul(L(q), l2)), L(mth(vc).logdet_pdmat(p["B"])), neg(S2(d, d, lambda a, b: mul(p["mu"].at(a), p["B"].at(a, b), p["mu"].at(b))))))
    else:
        mu = p["mu"].at
        sh = lambda a, b: add(Sx.at(a, b), neg(mul(F.at(a), mu(b))), neg(mul(F.at(b), mu(a))), mul(L(N), mu(a), mu(b)))
        py = neg(mul(HALF, L(m), L(q), l2))
        if kind == "s":
            W, lw = p["W"].at, L(mth(vc).logdet_pdmat(p["W"]))
        else:
            W, lw = o._W.at, sub(S(d, lambda v: tlog(p["D"].at(v))), L(o._log_Lz))
    px = mul(HALF, add(neg(mul(L(N), L(d), l2)), mul(L(N), lw), neg(S2(d, d, lambda a, b: mul(W(a, b), sh(a, b))))))
    vc.ensure("elbo is log p(x,y=0) - log p(y=0|x)", eq(r, add(px, py, neg(L(lp)))))


@contract("C06", "frplda.elbo", targets=[FR + "elbo"], replay="frplda.post")
def c_br(vc):
    elbo(vc, "fr")


@contract("C06", "splda.elbo", targets=[SP + "elbo"], replay="splda.post")
def c_bs(vc):
    elbo(vc, "s")


@contract("C06", "plda.elbo", targets=[PL + "elbo"], replay="plda.post")
def c_bp(vc):
    elbo(vc, "f")


# ------------------------------------------------------------------ M-step
@contract("C06", "frplda.em", targets=[FR + "MstepML", FR + "MstepMD"])
def c_mr(vc):
    um, ub, uw, fc = vc.case("update_mu"), vc.case("update_B"), vc.case("update_W"), vc.case("fullcov")
    d, q, p, o = model(vc, "fr", update_mu=um, update_B=ub, update_W=uw, fullcov_W=fc)
    N, m = vc.real("Nt", pos=True), vc.real("m", pos=True)
    ya, Cy = vc.array("ya", (d,)), vc.array("Cy", (d, d))
    Py, Ry, Sx = vc.spd("Py", d), vc.spd("Ry", d), vc.spd("S", d)
    sn = vc.snap(ya, Cy, Py, Ry, Sx)
    o.MstepML((N, m, Sx, ZERO, ya, Ry, Cy, Py))
    a, b = L(vc.idx("a", d)), L(vc.idx("b", d))
    yb = lambda a: div(ya.at(a), L(m))
    mu = yb if um else p["mu"].at
    tag = " (%d%d%d%d)" % (um, ub, uw, fc)
    vc.ensure("mean" + tag, eq(o.mu.at(a), mu(a)))
    if ub:
        iB = lambda a, b: add(div(Py.at(a, b), L(m)), neg(mul(mu(a), yb(b))), neg(mul(yb(a), mu(b))), mul(mu(a), mu(b)))
        vc.ensure("between-class precision" + tag, eq(o.B.at(a, b), inv_el(L(d), iB, a, b)))
    else:
        vc.ensure("between-class precision kept" + tag, eq(o.B.at(a, b), p["B"].at(a, b)))
    iW = lambda a, b: div(add(Sx.at(a, b), neg(Cy.at(a, b)), neg(Cy.at(b, a)), Ry.at(a, b)), L(N))
    vc.ensure("within-class precision" + tag, eq(o.W.at(a, b), p["W"].at(a, b) if not uw else inv_el(L(d), iW, a, b) if fc else mul(ind(eq(a, b)), div(ONE, iW(a, a)))))
    vc.unchanged("frame", sn)


@contract("C06", "splda.em", targets=[SP + "MstepML"])
def c_msl(vc):
    um, uv = vc.case("update_mu"), vc.case("update_V")
    d, q, p, o = model(vc, "s", update_mu=um, update_V=uv, update_W=vc.case("update_W"), fullcov_W=vc.case("fullcov"))
    uw, fc = o.update_W, o.fullcov_W
    N = vc.real("Nt", pos=True)
    F, R1, Cy = vc.array("F", (d,)), vc.array("R1", (q,)), vc.array("Cy", (d, q))
    Ry, Sx = vc.spd("Ry", q), vc.spd("S", d)
    sn = vc.snap(F, R1, Cy, Ry, Sx)
    o.MstepML((N, ZERO, F, Sx, ZERO, ZERO, R1, Ry, Cy, ZERO))
    y, a, b = L(vc.idx("y", q)), L(vc.idx("a", d)), L(vc.idx("b", d))
    tag = " (%d%d%d%d)" % (um, uv, uw, fc)
    V, mu = o.V.at, o.mu.at
    if um and uv:
        # the joint normal equations [Ry R1; R1' N] [V; mu] = [Cy'; F'] solved with the inverse of the (positive definite) block matrix
        A = lambda k, l: ite(lt(k, L(q)), ite(lt(l, L(q)), Ry.at(k, l), R1.at(k)), ite(lt(l, L(q)), R1.at(l), L(N)))
        sol = lambda k, a: S(add(L(q), ONE), lambda l: mul(inv_el(add(L(q), ONE), A, k, l), ite(lt(l, L(q)), Cy.at(a, l), F.at(a))))
        vc.ensure("V solves the joint normal equations" + tag, eq(V(y, a), sol(y, a)))
        vc.ensure("mu solves the joint normal equations" + tag, eq(mu(a), sol(L(q), a)))
    elif um:
        vc.ensure("stationary in mu" + tag, eq(add(S(q, lambda k: mul(R1.at(k), V(k, a))), mul(L(N), mu(a))), F.at(a)))
    else:
        vc.ensure("mu kept" + tag, eq(mu(a), p["mu"].at(a)))
    if uv and not um:
        vc.ensure("stationary in V" + tag, eq(add(S(q, lambda k: mul(Ry.at(y, k), V(k, a))), mul(R1.at(y), mu(a))), Cy.at(a, y)))
    elif not uv:
        vc.ensure("V kept" + tag, eq(V(y, a), p["V"].at(y, a)))
    if uw:
        res = lambda a, b: div(add(Sx.at(a, b), neg(S(q, lambda k: mul(Cy.at(a, k), V(k, b)))), neg(S(q, lambda k: mul(Cy.at(b, k), V(k, a)))), neg(mul(F.at(a), mu(b))), neg(mul(F.at(b), mu(a))),
                                   S2(q, q, lambda k, l: mul(V(k, a), Ry.at(k, l), V(l, b))), mul(S(q, lambda k: mul(R1.at(k), V(k, a))), mu(b)), mul(S(q, lambda k: mul(R1.at(k), V(k, b))), mu(a)), mul(L(N), mu(a), mu(b))), L(N))
        if not (um and uv):
            vc.ensure("within-class precision" + tag, eq(o.W.at(a, b), inv_el(L(d), res, a, b) if fc else mul(ind(eq(a, b)), div(ONE, res(a, a)))))
        else:
            r2 = lambda a, b: div(add(Sx.at(a, b), neg(S(q, lambda k: mul(Cy.at(a, k), V(k, b)))), neg(mul(F.at(a), mu(b)))), L(N))
            vc.ensure("within-class precision" + tag, eq(o.W.at(a, b), inv_el(L(d), r2, a, b) if fc else mul(ind(eq(a, b)), div(ONE, r2(a, a)))))
    else:
        vc.ensure("W kept" + tag, eq(o.W.at(a, b), p["W"].at(a, b)))
    vc.unchanged("frame", sn)


@contract("C06", "splda.md", targets=[SP + "MstepMD"], replay="splda.em")
def c_msm(vc):
    um, uv = vc.case("update_mu"), vc.case("update_V")
    d, q, p, o = model(vc, "s", update_mu=um, update_V=uv)
    V0, mu0 = SArr(p["V"]._shape, "r", p["V"].fn()), SArr(p["mu"]._shape, "r", p["mu"].fn())
    M = vc.real("M", pos=True)
    ya, Py = vc.array("ya", (q,)), vc.spd("Py", q)
    o.MstepMD((ZERO, M, ZERO, ZERO, ZERO, ya, ZERO, ZERO, ZERO, Py))
    a, b = L(vc.idx("a", d)), L(vc.idx("b", d))
    yb = lambda k: div(ya.at(k), L(M))
    tag = " (%d%d)" % (um, uv)
    vc.ensure("mean" + tag, eq(o.mu.at(a), add(mu0.at(a), S(q, lambda k: mul(yb(k), V0.at(k, a)))) if um else mu0.at(a)))
    cov = lambda k, l: sub(div(Py.at(k, l), L(M)), mul(yb(k), yb(l)))
    vc.ensure("between-class covariance" + tag, eq(S(q, lambda k: mul(o.V.at(k, a), o.V.at(k, b))), S2(q, q, lambda k, l: mul(V0.at(k, a), cov(k, l), V0.at(l, b))) if uv else S(q, lambda k: mul(V0.at(k, a), V0.at(k, b)))))


def io(vc, kind, names, flags):
    w = vc.choose("w", list(range(len(flags) + 1)))
    kw = {f: w == k for k, f in enumerate(flags)}
    if kind == "f":
        kw["floor_iD"] = vc.real("fl")
    d, q, p, o = model(vc, kind, name=("g", None, "h")[w % 3], **kw)
    o.save("d/m.h5")
    r = type(o).load("d/m.h5")
    for k in names + ("name", "x_dim", "y_dim") + tuple(kw):
        vc.ensure_eq(k, getattr(r, k), getattr(o, k))


@contract("C06", "frplda.save_load", targets=[FR + "save_params", FR + "load_params", FR + "get_config", B + "get_config"])
def c_ir(vc):
    io(vc, "fr", ("mu", "B", "W"), ("update_mu", "update_B", "update_W", "fullcov_W"))


@contract("C06", "splda.save_load", targets=[SP + "save_params", SP + "load_params", SP + "get_config"])
def c_is(vc):
    io(vc, "s", ("mu", "V", "W"), ("update_mu", "update_V", "update_W", "fullcov_W"))


@contract("C06", "plda.save_load", targets=[PL + "save_params", PL + "load_params", PL + "get_config"])
def c_ip(vc):
    io(vc, "f", ("mu", "V", "U", "D", "z_dim"), ("update_mu", "update_V", "update_U", "update_D"))


# ------------------------------------------------------------------ averaged scores
@contract("C06", "plda.llr_avg", targets=[B + "llr_NvsM", B + "llr_Nvs1", B + "llr_NvsM_vavg", B + "llr_NvsM_savg", B + "llr_Nvs1_vavg", B + "llr_Nvs1_savg"])
def c_av(vc):
    d, q, p, o = model(vc, "fr")
    n1, n2, m1, m2 = (vc.int(k, lo=1) for k in ("n1", "n2", "m1", "m2"))
    x1, x2 = vc.array("x1", (n1, d)), vc.array("x2", (n2, d))
    D1 = (vc.array("N1", (m1,), pos=True), vc.array("F1", (m1, d)), None)
    D2 = (vc.array("N2", (m2,), pos=True), vc.array("F2", (m2, d)), None)
    vc.patch(o, "llr_1vs1", lambda a, b: SArr((a._shape[0], b._shape[0]), "r", lambda i, j: S2(d, d, lambda k, l: mul(a.at(i, k), app("G", k, l), b.at(j, l)))))
    av = lambda D: SArr(D[1]._shape, "r", lambda i, k: div(D[1].at(i, k), D[0].at(i)))
    vc.ensure_eq("vector average", o.llr_NvsM(D1, D2, method="vavg"), o.llr_1vs1(av(D1), av(D2)))
    vc.ensure_eq("vector average N vs 1", o.llr_Nvs1(D1, x2, method="vavg"), o.llr_1vs1(av(D1), x2))
    i1, i2 = vc.array("i1", (n1,), kind="i"), vc.array("i2", (n2,), kind="i")
    vc.assume(tm.forall_rng(L(n1), lambda i: ge(i1.at(i), ZERO)))
    vc.assume(tm.forall_rng(L(n2), lambda i: ge(i2.at(i), ZERO)))
    s = o.llr_1vs1(x1, x2)
    r = o.llr_Nvs1(x1, x2, ids1=i1, method="savg")
    a, b = L(vc.idx("a", r.shape[0])), L(vc.idx("b", n2))
    cnt = lambda ids, n, k: S(n, lambda i: ind(eq(ids.at(i), k)))
    vc.ensure("score average N vs 1", eq(r.at(a, b), div(S(n1, lambda i: mul(ind(eq(i1.at(i), a)), s.at(i, b))), cnt(i1, n1, a))))
    r = o.llr_NvsM(x1, x2, ids1=i1, ids2=i2, method="savg")
    c = L(vc.idx("c", r.shape[1]))
    vc.ensure("score average", eq(r.at(a, c), div(S2(n1, n2, lambda i, j: mul(ind(eq(i1.at(i), a)), ind(eq(i2.at(j), c)), s.at(i, j))), mul(cnt(i1, n1, a), cnt(i2, n2, c)))))


@contract("C06", "plda.em", targets=[PL + "MstepML"], timeout=400)
def c_pml(vc):
    um, uv, uu = vc.case("update_mu"), vc.case("update_V"), vc.case("update_U")
    fl = vc.real("floor", pos=True)
    d, q, p, o = model(vc, "f", update_mu=um, update_V=uv, update_U=uu, update_D=vc.case("update_D"), floor_iD=fl)
    z = p["U"].shape[0]
    N = vc.real("Nt", pos=True)
    F, R1, Z1, Cy, Cz, Ryz = vc.array("F", (d,)), vc.array("R1", (q,)), vc.array("Z1", (z,)), vc.array("Cy", (d, q)), vc.array("Cz", (d, z)), vc.array("Ryz", (q, z))
    Ry, Rz, Sx = vc.spd("Ry", q), vc.spd("Rz", z), vc.spd("S", d)
    sn = vc.snap(F, R1, Z1, Cy, Cz, Ryz, Ry, Rz, Sx)
    done = []
    vc.patch(o, "compute_aux", lambda: done.append(tuple(getattr(o, k) for k in ("V", "U", "mu", "D"))))
    solved = []

    def inv(A, right_inv=False, **kw):
        """contract of invert_pdmat: the first result solves A X = B (any X with the right shape stands for the solution)"""
        def mult(b):
            X = vc.array("X", (A.shape[0], b.shape[1]))
            solved.append((A, b, X))
            return X
        return [mult]
    vc.patch(vc.mod(MP), "invert_pdmat", inv)
    o.MstepML((N, ZERO, F, Sx, ZERO, ZERO, R1, Ry, Cy, ZERO, Z1, Rz, Ryz, Cz))
    vc.ensure("cached values are refreshed once, after the update", tm.TRUE if len(done) == 1 and all(done[0][i] is getattr(o, k) for i, k in enumerate(("V", "U", "mu", "D"))) else tm.FALSE)
    y, w, a = L(vc.idx("y", q)), L(vc.idx("w", z)), L(vc.idx("a", d))
    V, U, mu = o.V.at, o.U.at, o.mu.at
    tag = " (%d%d%d%d)" % (um, uv, uu, o.update_D)
    # block k of the unknowns [V; U; mu]: size, moments with block l, cross moments with x
    R = {("V", "V"): Ry.at, ("V", "U"): Ryz.at, ("U", "V"): lambda i, j: Ryz.at(j, i), ("U", "U"): Rz.at, ("V", "m"): lambda i, j: R1.at(i), ("m", "V"): lambda i, j: R1.at(j),
         ("U", "m"): lambda i, j: Z1.at(i), ("m", "U"): lambda i, j: Z1.at(j), ("m", "m"): lambda i, j: L(N)}
    size = dict(V=L(q), U=L(z), m=ONE)
    C = dict(V=lambda i, a: Cy.at(a, i), U=lambda i, a: Cz.at(a, i), m=lambda i, a: F.at(a))
    new = dict(V=V, U=U, m=lambda i, a: mu(a))
    old = dict(V=p["V"].at, U=p["U"].at, m=lambda i, a: p["mu"].at(a))
    act = [k for k, f in (("V", uv), ("U", uu), ("m", um)) if f]
    fix = [k for k in ("V", "U", "m") if k not in act]
    rhs = lambda k, i, a: add(C[k](i, a), *[neg(S(size[l], lambda j, l=l: mul(R[k, l](i, j), new[l](j, a)))) for l in fix])
    ix = dict(V=y, U=w, m=ZERO)
    for k in fix:
        vc.ensure({"V": "V", "U": "U", "m": "mu"}[k] + " kept" + tag, eq(new[k](ix[k], a), old[k](ix[k], a)))
    off, t = {}, ZERO
    for k in act:
        off[k] = t
        t = add(t, size[k])

    if act == ["m"]:
        vc.ensure("mu" + tag, eq(mu(a), div(rhs("m", ZERO, a), L(N))))
    elif act:
        vc.ensure("one linear system is solved" + tag, tm.TRUE if len(solved) == 1 else tm.FALSE)
        A, b, X = solved[0]
        vc.ensure("size of the system" + tag, band(eq(L(A.shape[0]), t), eq(L(b.shape[1]), L(d))))
        for k in act:
            vc.ensure({"V": "V", "U": "U", "m": "mu"}[k] + " is its part of the solution" + tag, eq(new[k](ix[k], a), X.at(add(off[k], ix[k]), a)))
            vc.ensure("right hand side %s" % k + tag, eq(b.at(add(off[k], ix[k]), a), rhs(k, ix[k], a)))
            for l in act:
                jx = dict(V=L(vc.idx("y2", q)), U=L(vc.idx("w2", z)), m=ZERO)[l]
                vc.ensure("matrix block %s%s" % (k, l) + tag, eq(A.at(add(off[k], ix[k]), add(off[l], jx)), R[k, l](ix[k], jx)))
    if o.update_D:
        B = ("V", "U", "m")
        res = Sx.at(a, a)
        for k in B:
            res = add(res, mul(lift(-2), S(size[k], lambda i: mul(C[k](i, a), new[k](i, a)))))
            for l in B:
                res = add(res, S2(size[k], size[l], lambda i, j: mul(new[k](i, a), R[k, l](i, j), new[l](j, a))))
        res = div(res, L(N))
        vc.ensure("residual precision" + tag, eq(o.D.at(a), div(ONE, ite(lt(res, L(fl)), L(fl), res))))
    else:
        vc.ensure("D kept" + tag, eq(o.D.at(a), p["D"].at(a)))
    vc.unchanged("frame", sn)


@contract("C06", "plda.md", targets=[PL + "MstepMD"], replay="plda.em")
def c_pmd(vc):
    um, uv, uu = vc.case("update_mu"), vc.case("update_V"), vc.case("update_U")
    d, q, p, o = model(vc, "f", update_mu=um, update_V=uv, update_U=uu)
    z = p["U"].shape[0]
    keep = lambda A: SArr(A._shape, "r", A.fn())
    V0, U0, mu0 = keep(p["V"]), keep(p["U"]), keep(p["mu"])
    N, M = vc.real("Nt", pos=True), vc.real("M", pos=True)
    ya, R1, Z1, Ryz = vc.array("ya", (q,)), vc.array("R1", (q,)), vc.array("Z1", (z,)), vc.array("Ryz", (q, z))
    Py, Ry, Rz = vc.spd("Py", q), vc.spd("Ry", q), vc.spd("Rz", z)
    done, solved = [], []
    vc.patch(o, "compute_aux", lambda: done.append(tuple(getattr(o, k) for k in ("V", "U", "mu"))))
    H = vc.array("H", (z, q))

    def inv(A, right_inv=False, **kw):
        """contract of invert_pdmat with right_inv: the first result maps B to B A^-1"""
        def mult(b):
            solved.append((A, b, right_inv))
            return H
        return [mult]
    vc.patch(vc.mod(MP), "invert_pdmat", inv)
    o.MstepMD((N, M, ZERO, ZERO, ZERO, ya, R1, Ry, ZERO, Py, Z1, Rz, Ryz, ZERO))
    vc.ensure("cached values are refreshed once, after the update", tm.TRUE if len(done) == 1 and all(done[0][i] is getattr(o, k) for i, k in enumerate(("V", "U", "mu"))) else tm.FALSE)
    y, y2, w, a, b = L(vc.idx("y", q)), L(vc.idx("y2", q)), L(vc.idx("w", z)), L(vc.idx("a", d)), L(vc.idx("b", d))
    A, B, right = solved[0]
    tag = " (%d%d%d)" % (um, uv, uu)
    vc.ensure("regression of z on y: moments" + tag, band(tm.TRUE if len(solved) == 1 and right is True else tm.FALSE, eq(A.at(y, y2), sub(Ry.at(y, y2), div(mul(R1.at(y), R1.at(y2)), L(N))))))
    vc.ensure("regression of z on y: cross moments" + tag, eq(B.at(w, y), sub(Ryz.at(y, w), div(mul(Z1.at(w), R1.at(y)), L(N)))))
    yb = lambda k: div(ya.at(k), L(M))
    zb = lambda h: div(sub(Z1.at(h), S(q, lambda k: mul(R1.at(k), H.at(h, k)))), L(N))
    V1 = lambda k, v: add(V0.at(k, v), S(z, lambda h: mul(H.at(h, k), U0.at(h, v))))
    vc.ensure("mean" + tag, eq(o.mu.at(a), add(mu0.at(a), S(q, lambda k: mul(yb(k), V1(k, a))), S(z, lambda h: mul(zb(h), U0.at(h, a)))) if um else mu0.at(a)))
    covy = lambda k, l: sub(div(Py.at(k, l), L(M)), mul(yb(k), yb(l)))
    covz = lambda g, h: sub(div(add(Rz.at(g, h), neg(S(q, lambda k: mul(Ryz.at(k, g), H.at(h, k)))), neg(S(q, lambda k: mul(Ryz.at(k, h), H.at(g, k)))), S2(q, q, lambda k, l: mul(H.at(g, k), Ry.at(k, l), H.at(h, l)))), L(N)), mul(zb(g), zb(h)))
    vc.ensure("between-class covariance" + tag, eq(S(q, lambda k: mul(o.V.at(k, a), o.V.at(k, b))), S2(q, q, lambda k, l: mul(V1(k, a), covy(k, l), V1(l, b))) if uv else S(q, lambda k: mul(V0.at(k, a), V0.at(k, b)))))
    vc.ensure("channel covariance" + tag, eq(S(z, lambda k: mul(o.U.at(k, a), o.U.at(k, b))), S2(z, z, lambda g, h: mul(U0.at(g, a), covz(g, h), U0.at(h, b))) if uu else S(z, lambda k: mul(U0.at(k, a), U0.at(k, b)))))
