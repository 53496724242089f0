from vc import *
import shim_np
from shim_np import NP

P = "hyperion.classifiers."
GM, GUM, LM, BM, SVM, QM = P + "linear_gbe", P + "linear_gbe_up", P + "logistic_regression", P + "binary_logistic_regression", P + "linear_svmc", P + "q_scoring_homo_gbe"
G, GU, LR, BLR, SV, Q = GM + ":LinearGBE.", GUM + ":LinearGBEUP.", LM + ":LogisticRegression.", BM + ":BinaryLogisticRegression.", SVM + ":LinearSVMC.", QM + ":QScoringHomoGBE."
F = Fraction
HALF = num(F(1, 2))


def L(x):
    return lift(x)


def S1(n, f):
    k = fresh("k")
    return sum_over([L(n)], [k], f(k))


def S2(n, m, f):
    a, b = fresh("a"), fresh("b")
    return sum_over([L(n), L(m)], [a, b], f(a, b))


@contract("C18", "lgbe.eval", targets=[G + "eval_linear", G + "eval_llk", G + "predict", G + "_compute_Ab", G + "__init__"], replay="lgbe.eval")
def c_eval(vc):
    mod = vc.mod(GM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    mu, W, x = vc.array("mu", (K, d)), vc.spd("W", d), vc.array("x", (n, d))
    ld = vc.real("logdetW")
    args = []

    def logdet(A, *a, **k):
        args.append(A)
        return ld
    vc.patch(mod, "logdet_pdmat", logdet)
    m = mod.LinearGBE(mu=mu, W=W)
    s = vc.snap(mu, W, x)
    i, k = L(vc.idx("i", n)), L(vc.idx("k", K))
    meth = vc.choose("method", ["linear", "llk"])
    y = m.eval_linear(x) if meth == "linear" else m.eval_llk(x)
    vc.ensure_shape("shape", y, (n, K))
    vc.unchanged("inputs", s)
    lin = add(S2(d, d, lambda a, b: mul(x.at(i, a), W.at(a, b), mu.at(k, b))), mul(num(F(-1, 2)), S2(d, d, lambda a, b: mul(mu.at(k, a), W.at(a, b), mu.at(k, b)))))
    if meth == "linear":
        vc.ensure_eq("linear score", mk(y.at(i, k)), mk(lin))
    else:
        q = S2(d, d, lambda a, b: mul(sub(x.at(i, a), mu.at(k, a)), W.at(a, b), sub(x.at(i, b), mu.at(k, b))))
        l2 = L(NP.log(2 * NP.pi))
        vc.ensure_eq("log of the Gaussian", mk(y.at(i, k)), mk(mul(HALF, sub(sub(L(ld), mul(L(d), l2)), q))))
        A = args[-1]
        a, b = L(vc.idx("a", d)), L(vc.idx("b", d))
        vc.ensure_eq("precision in the determinant", mk(A.at(a, b)), mk(W.at(a, b)))


@contract("C18", "lgbe.predict", targets=[G + "predict"], replay="lgbe.eval")
def c_pred(vc):
    mod = vc.mod(GM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    m = mod.LinearGBE(x_dim=d, num_classes=K)
    x = vc.array("x", (n, d))
    outs = {}
    for nm in ("linear", "llk", "predictive"):
        outs[nm] = vc.array(nm, (n, K))

        def f(z, nm=nm):
            vc.ensure("%s of the data" % nm, tm_bool(z is x))
            return outs[nm].copy()
        setattr(m, "eval_" + nm, f)
    used = []
    soft = vc.array("soft", (n, K), pos=True)

    def softmax(r, axis=-1):
        used.append((r.copy(), axis))
        return soft.copy()
    vc.patch(mod, "softmax", softmax)
    meth = vc.choose("method", ["linear", "llk", "predictive", "bad"])
    if meth == "bad":
        vc.raises("unknown method refused", lambda: m.predict(x, "xx"), ValueError)
        return
    norm = vc.choose("normalize", [False, True])
    y = m.predict(x, meth, norm)
    vc.ensure_shape("shape", y, (n, K))
    i, k = L(vc.idx("i", n)), L(vc.idx("k", K))
    if norm:
        vc.ensure("normalised along the classes", tm_bool(len(used) == 1 and used[0][1] in (1, -1)))
        vc.ensure_eq("score normalised", mk(used[0][0].at(i, k)), mk(outs[meth].at(i, k)))
        vc.ensure_eq("log of the softmax", mk(y.at(i, k)), mk(tlog(soft.at(i, k))))
    else:
        vc.ensure_eq("score", mk(y.at(i, k)), mk(outs[meth].at(i, k)))


@contract("C18", "lgbe.predictive", targets=[G + "eval_predictive"], replay="lgbe.eval")
def c_predictive(vc):
    mod = vc.mod(GM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    mu, W, x = vc.array("mu", (K, d)), vc.spd("W", d), vc.array("x", (n, d))
    beta, nu = vc.array("beta", (K,), pos=True), vc.real("nu", pos=True)
    c = sub(add(L(nu), num(1)), L(d))
    vc.assume(gt(c, num(0)))
    args = []
    ld = vc.real("logdetK")

    def logdet(A, *a, **k):
        args.append(A.copy())
        return ld
    vc.patch(mod, "logdet_pdmat", logdet)
    vc.patch(mod, "gammaln", lambda z: vc.fn("gammaln", z))
    m = mod.LinearGBE(mu=mu, W=W, beta=beta, nu=nu)
    s = vc.snap(mu, W, x, beta)
    y = m.eval_predictive(x)
    vc.unchanged("inputs", s)
    vc.ensure_shape("shape", y, (n, K))
    i, k = L(vc.idx("i", n)), L(vc.idx("k", K))
    a, b = L(vc.idx("a", d)), L(vc.idx("b", d))
    vc.ensure_eq("matrix of the determinant", mk(args[-1].at(a, b)), mk(div(W.at(a, b), L(nu))))
    # Student t with c degrees of freedom, mean mu_k and precision Lambda = c r W / nu
    r = div(beta.at(k), add(beta.at(k), num(1)))
    quad = S2(d, d, lambda a, b: mul(sub(x.at(i, a), mu.at(k, a)), W.at(a, b), sub(x.at(i, b), mu.at(k, b))))
    lam = div(mul(c, r), L(nu))
    l = vc.fn("gammaln", mk(div(add(c, L(d)), num(2))))
    l2 = vc.fn("gammaln", mk(div(c, num(2))))
    hd = mul(HALF, L(d))
    ref = add(L(l), neg(L(l2)), neg(mul(hd, tlog(mul(c, L(NP.pi))))),
              mul(HALF, L(ld)), mul(hd, tlog(mul(c, r))),
              neg(mul(HALF, add(c, L(d)), tlog(add(num(1), div(mul(lam, quad), c))))))
    vc.ensure_eq("Student t density", mk(y.at(i, k)), mk(ref))



def tm_bool(b):
    return TRUE if b else FALSE


def fit_data(vc, mod, n, K):
    """arguments of fit and the weight p(i, k) of sample i in class k they mean"""
    how = vc.choose("labels", ["ids", "soft", "weighted"])
    p = vc.array("p", (n, K))
    kw = {}
    if how != "soft":
        # int2onehot by its contract (C09): a one-hot matrix of the labels
        ids = vc.array("ids", (n,), "i")

        def onehot(c, m=None):
            vc.ensure("labels of the one-hot matrix", tm_bool(c is ids))
            vc.ensure_eq("number of classes of the one-hot matrix", m, K)
            return p.copy()
        vc.patch(mod, "int2onehot", onehot)
        kw["class_ids"] = ids
    else:
        kw["p_theta"] = p
    pw = p.at
    if how == "weighted":
        w = vc.array("w", (n,))
        kw["sample_weight"] = w
        pw = lambda i, k: mul(w.at(i), p.at(i, k))
    return kw, pw


def fit_spec(vc, n, d, K, x, pw, mu0, b0, S0, nu0, balance, up_mu, mu):
    """count, posterior mean and scatter matrix of each class, and the pooled within-class covariance"""
    N = lambda k: S1(n, lambda i: pw(i, k))
    F1 = lambda k, j: S1(n, lambda i: mul(pw(i, k), x.at(i, j)))
    map_ = mu0 is not None
    if up_mu:
        beta = (lambda k: add(N(k), b0(k))) if map_ else N
        m = (lambda k, j: div(add(F1(k, j), mul(b0(k), mu0(k, j))), beta(k))) if map_ else (lambda k, j: div(F1(k, j), N(k)))
        xbar = lambda k, j: div(F1(k, j), N(k))
    else:
        beta, m, xbar = None, mu, mu

    def Sk(k, a, b):
        t = S1(n, lambda i: mul(pw(i, k), sub(x.at(i, a), xbar(k, a)), sub(x.at(i, b), xbar(k, b))))
        if map_ and up_mu:
            t = add(t, mul(N(k), sub(num(1), div(N(k), add(N(k), b0(k)))), sub(xbar(k, a), mu0(k, a)), sub(xbar(k, b), mu0(k, b))))
        return t

    def S(a, b):
        if balance:
            per = div(nu0, L(K)) if map_ else num(0)
            # (nu0/K S0 + S_k) / (nu0/K + N_k), averaged over the classes
            t = S1(K, lambda k: div(Sk(k, a, b), add(N(k), per)))
            if map_:
                t = add(mul(S0(a, b), sub(L(K), S1(K, lambda k: div(N(k), add(N(k), per))))), t)
            return div(t, L(K))
        t = S1(K, lambda k: Sk(k, a, b))
        Nt = S1(K, N)
        return div(add(mul(nu0, S0(a, b)), t), add(nu0, Nt)) if map_ else div(t, Nt)
    return N, beta, m, S


def inverse_stub(vc, mod, d, known=()):
    """contract of invert_pdmat (C09): with return_inv the last result is the inverse of the argument"""
    args = []

    def inv(A, *a, **k):
        vc.ensure("inverse asked for", tm_bool(k.get("return_inv") is True))
        for B, iB in known:
            if A is B:
                return [None, None, iB.copy()]
        out = vc.array("inverse%d" % len(args), (d, d))
        args.append((A.copy(), out))
        return [None, None, out.copy()]
    vc.patch(mod, "invert_pdmat", inv)
    return args


def c_fit(vc, prior, balance):
    mod = vc.mod(GM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    x = vc.array("x", (n, d))
    fkw, pw = fit_data(vc, mod, n, K)
    um, uW = vc.choose("update", [(True, True), (True, False), (False, True)])
    kw = dict(balance_class_weight=balance, update_mu=um, update_W=uW, num_classes=K)
    mu0 = b0 = S0 = nu0 = None
    known = []
    if prior:
        pmu, pW, pb, pnu, iS0 = vc.array("mu0", (K, d)), vc.spd("W0", d), vc.array("beta0", (K,), pos=True), vc.real("nu0", pos=True), vc.array("S0", (d, d))
        pr = mod.LinearGBE(mu=pmu.copy(), W=pW, beta=pb.copy(), nu=pnu)
        known.append((pr.W, iS0))
        mu0, b0, S0, nu0 = pmu.at, pb.at, iS0.at, L(pnu)
        kw["prior"] = pr
        if prior == "relevance":
            pb2, pnu2 = vc.real("prior_beta", pos=True), vc.real("prior_nu", pos=True)
            kw["prior_beta"], kw["prior_nu"] = pb2, pnu2
            b0, nu0 = (lambda k: L(pb2)), mul(L(K), L(pnu2))
    post = vc.choose("post", [False, True])
    if post:
        kw["post_beta"], kw["post_nu"] = vc.real("post_beta", pos=True), vc.real("post_nu", pos=True)
    mu, W = vc.array("mu", (K, d)), vc.spd("W", d)
    if not (um and uW):
        kw.update(mu=mu, W=W)
    N = lambda k: S1(n, lambda i: pw(i, k))
    vc.assume(tm.forall_rng(L(K), lambda k: gt(N(k), num(0))))
    vc.assume(gt(S1(K, N), num(0)))
    args = inverse_stub(vc, mod, d, known)
    m = mod.LinearGBE(**kw)
    arrs = [x] + [v for v in fkw.values()]
    s = vc.snap(*arrs)
    m.fit(x, **fkw)
    vc.unchanged("inputs", s)
    N, beta, ms, S = fit_spec(vc, n, d, K, x, pw, mu0, b0, S0, nu0, balance, um, mu.at)
    k, a, b = L(vc.idx("k", K)), L(vc.idx("a", d)), L(vc.idx("b", d))
    vc.ensure_eq("mean", mk(m.mu.at(k, a)), mk(ms(k, a)))
    if post:
        vc.ensure_eq("beta", mk(m.beta.at(k)), kw["post_beta"])
        vc.ensure_eq("nu", m.nu, mk(mul(L(K), L(kw["post_nu"]))))
    else:
        if um:
            vc.ensure_eq("beta", mk(m.beta.at(k)), mk(beta(k)))
        if uW:
            Nt = S1(K, N)
            vc.ensure_eq("nu", m.nu, mk(add(nu0, Nt) if prior else Nt))
    if uW:
        vc.ensure("one covariance", tm_bool(len(args) == 1))
        A, out = args[0]
        vc.ensure_shape("covariance shape", A, (d, d))
        vc.ensure_eq("within-class covariance", mk(A.at(a, b)), mk(S(a, b)))
        vc.ensure_eq("precision is its inverse", mk(m.W.at(a, b)), mk(out.at(a, b)))
    else:
        vc.ensure_eq("precision kept", mk(m.W.at(a, b)), mk(W.at(a, b)))
    # the linear scores use the new parameters
    vc.ensure_eq("linear coefficients", mk(m.A.at(a, k)), mk(S1(d, lambda j: mul(m.W.at(a, j), m.mu.at(k, j)))))
    vc.ensure_eq("offset", mk(m.b.at(k)), mk(mul(num(F(-1, 2)), S2(d, d, lambda i, j: mul(m.mu.at(k, i), m.W.at(i, j), m.mu.at(k, j))))))


for _pr in (None, "prior", "relevance"):
    for _b in (True, False):
        contract("C18", "lgbe.fit.%s.%s" % (_pr or "ml", "balanced" if _b else "pooled"),
                 targets=[G + "fit", G + "_load_prior", G + "_change_post_r", G + "_compute_Ab"], replay="lgbe.fit")(lambda vc, pr=_pr, b=_b: c_fit(vc, pr, b))


@contract("C18", "lgbe_up.fit", targets=[GU + "fit"], replay="lgbe.up")
def c_upfit(vc):
    mod = vc.mod(GUM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    x = vc.array("x", (n, 2 * d))
    fkw, pw = fit_data(vc, mod, n, K)
    balance = vc.choose("balance", [True, False])
    N = lambda k: S1(n, lambda i: pw(i, k))
    vc.assume(tm.forall_rng(L(K), lambda k: gt(N(k), num(0))))
    vc.assume(gt(S1(K, N), num(0)))
    args = inverse_stub(vc, mod, d)
    floor = []
    fl = vc.array("floored", (d, d))

    def varfloor(S, Fl, F_is_chol=False, lower=False):
        floor.append((S.copy(), Fl.copy(), F_is_chol))
        return fl.copy()
    vc.patch(mod, "fullcov_varfloor", varfloor)
    m = mod.LinearGBEUP(balance_class_weight=balance, num_classes=K)
    s = vc.snap(x)
    m.fit(x, **fkw)
    vc.unchanged("inputs", s)
    N, beta, ms, S = fit_spec(vc, n, d, K, x, pw, None, None, None, None, balance, True, None)
    k, a, b = L(vc.idx("k", K)), L(vc.idx("a", d)), L(vc.idx("b", d))
    vc.ensure_eq("mean", mk(m.mu.at(k, a)), mk(ms(k, a)))
    vc.ensure_eq("beta", mk(m.beta.at(k)), mk(beta(k)))
    vc.ensure_eq("nu", m.nu, mk(S1(K, N)))
    A, Fl, chol = floor[0]
    vc.ensure_eq("covariance before the floor", mk(A.at(a, b)), mk(S(a, b)))
    # the floor is a multiple greater than one of the mean uncertainty (diagonal)
    sm = lambda j: div(S1(n, lambda i: x.at(i, add(L(d), j))), L(n))
    same = ENG.branch(eq(a, b))
    vc.assume(gt(sm(a), num(0)))
    f2 = sq(Fl.at(a, a)) if chol else Fl.at(a, a)
    if same:
        vc.ensure("floor above the uncertainty", gt(f2, sm(a)))
    else:
        vc.ensure_eq("diagonal floor", mk(Fl.at(a, b)), mk(num(0)))
    B, out = args[0]
    vc.ensure_eq("covariance without the uncertainty", mk(B.at(a, b)), mk(sub(fl.at(a, b), sm(a)) if same else fl.at(a, b)))
    vc.ensure_eq("precision is its inverse", mk(m.W.at(a, b)), mk(out.at(a, b)))


def sq(a):
    return mul(a, a)


@contract("C18", "lgbe_up.eval", targets=[GU + "eval_linear", GU + "_compute_Ab_i"], replay="lgbe.up")
def c_upeval(vc):
    mod = vc.mod(GUM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    mu, W, x = vc.array("mu", (K, d)), vc.spd("W", d), vc.array("x", (n, 2 * d))
    S = vc.array("S", (d, d))
    m = mod.LinearGBEUP(mu=mu, W=W)

    def inv(A, *a, **k):
        vc.ensure("inverse asked for", tm_bool(k.get("return_inv") is True))
        if A is m.W:
            return [None, None, S.copy()]
        return [None, None, invm(A)]
    vc.patch(mod, "invert_pdmat", inv)
    y = m.eval_linear(x)
    vc.ensure_shape("shape", y, (n, K))
    i, k = L(vc.idx("i", n)), L(vc.idx("k", K))
    Wi = invm(SArr((d, d), "r", lambda a, b: add(S.at(a, b), mul(ind(eq(a, b)), x.at(i, add(L(d), a))))))
    lin = add(S2(d, d, lambda a, b: mul(x.at(i, a), Wi.at(a, b), mu.at(k, b))), mul(num(F(-1, 2)), S2(d, d, lambda a, b: mul(mu.at(k, a), Wi.at(a, b), mu.at(k, b)))))
    vc.ensure_eq("linear score with the precision of the segment", mk(y.at(i, k)), mk(lin))


def invm(A):
    n, f = A.shape[0], A.fn()
    return SArr((n, n), "r", lambda i, j: shim_np.inv_el(L(n), f, i, j))


def sk_stub(vc, mod, name, d, C):
    """the sklearn estimator: fit gives arbitrary coefficients (C x d) and intercepts (C); its decision function is x coef_' + intercept_"""
    made = []

    class Est(object):
        def __init__(self, **kw):
            self.kw = kw
            self.fits = []
            made.append(self)

        def fit(self, x, y, sample_weight=None):
            self.fits.append((x, y, None if sample_weight is None else sample_weight.copy()))
            self.coef_, self.intercept_ = vc.array("coef", (C, d)), vc.array("intercept", (C,))
            self.raw = (self.coef_.copy(), self.intercept_.copy())
    vc.patch(mod, name, Est)
    return made


@contract("C18", "logreg.fit", targets=[LR + "fit", LR + "__init__", LR + "_get_priors", LR + "A", LR + "b"], replay="logreg")
def c_lr(vc):
    mod = vc.mod(LM)
    d, n = vc.int("d", lo=1), vc.int("n", lo=1)
    K, given = vc.choose("classes", [(3, True), (4, False)])
    mc = vc.choose("multi_class", ["multinomial", "ovr"])
    made = sk_stub(vc, mod, "LR", d, K)
    x, ids = vc.array("x", (n, d)), vc.array("ids", (n,), "i")
    v = fresh("k")
    vc.assume(tm.forall_rng(L(n), lambda i: band(le(num(0), ids.at(i)), lt(ids.at(i), num(K)))))
    cnt = lambda c: S1(n, lambda i: ind(eq(ids.at(i), c)))
    for c in range(K):
        vc.assume(gt(cnt(num(c)), num(0)))
    # every class occurs: contracts of the maximum and of bincount on these labels
    mx, bc = NP.max, NP.bincount
    vc.patch(NP, "max", lambda z, *a, **k: K - 1 if z is ids and not a and not k else mx(z, *a, **k))
    vc.patch(NP, "bincount", lambda z, *a, **k: SArr((K,), "i", cnt) if z is ids and not a and not k else bc(z, *a, **k))
    if given:
        ps = [vc.real("prior%d" % c, pos=True) for c in range(K)]
        for q in ps:
            vc.assume(lt(L(q), num(1)))
        pri = dict(enumerate(ps))
    else:
        pri, ps = None, [mk(num(F(1, K)))] * K
    lam = vc.real("lambda", pos=True)
    bs = vc.real("scaling", pos=True)
    m = mod.LogisticRegression(priors=pri, lambda_reg=lam, multi_class=mc, bias_scaling=bs)
    vc.ensure_eq("regularization", made[0].kw["C"], mk(div(num(1), L(lam))))
    vc.ensure_eq("scaling of the bias", made[0].kw["intercept_scaling"], bs)
    w = vc.array("w", (n,)) if vc.choose("weighted", [False, True]) else None
    s = vc.snap(*([x, ids] + ([w] if w is not None else [])))
    m.fit(x, ids, sample_weight=w)
    vc.unchanged("inputs", s)
    e = made[0]
    fx, fy, fw = e.fits[0]
    vc.ensure("data", tm_bool(fx is x and fy is ids))
    if vc.choose("goal", ["weights", "prediction"]) == "weights":
        i = L(vc.idx("i", n))
        c = vc.choose("label", list(range(K)))
        vc.assume(eq(ids.at(i), num(c)))
        ref = div(L(ps[c]), cnt(ids.at(i)))
        vc.ensure_eq("weight of a sample", mk(fw.at(i)), mk(mul(w.at(i), ref) if w is not None else ref))
        return
    co, ic = e.raw
    z = vc.array("z", (vc.int("t", lo=1), d))
    y = m.predict(z)
    t = L(vc.idx("r", z.shape[0]))
    k = vc.choose("column", list(range(K)))
    pk = L(ps[k])
    adj = tlog(pk) if mc == "multinomial" else tlog(div(pk, sub(num(1), pk)))
    vc.ensure_eq("prediction is the decision of the estimator without the prior", mk(y.at(t, num(k))),
                 mk(sub(add(S1(d, lambda a: mul(z.at(t, a), co.at(num(k), a))), ic.at(num(k))), adj)))


@contract("C18", "logreg.predict", targets=[LR + "predict", LR + "_get_priors"], replay="logreg")
def c_lrp(vc):
    mod = vc.mod(LM)
    d, n, K = vc.int("d", lo=1), vc.int("n", lo=1), 3
    sk_stub(vc, mod, "LR", d, K)
    ps = [vc.real("prior%d" % c, pos=True) for c in range(K)]
    A, b = vc.array("A", (d, K)), vc.array("b", (K,))
    m = mod.LogisticRegression(A=A, b=b, priors=dict(enumerate(ps)), bias_scaling=vc.real("scaling", pos=True))
    one = vc.choose("x", ["matrix", "vector"]) == "vector"
    if one:
        vc.assume(eq(L(d), num(1)))
    x = vc.array("x", (n,) if one else (n, d))
    xa = (lambda i, j: x.at(i)) if one else x.at
    used = []
    soft = vc.array("soft", (n, K), pos=True)

    def softmax(r, axis=-1):
        used.append((r.copy(), axis))
        return soft.copy()
    vc.patch(mod, "softmax", softmax)
    s = vc.snap(x, A, b)
    y = m.predict(x)
    i = L(vc.idx("i", n))
    k = vc.choose("column", list(range(K)))
    ref = add(S1(d, lambda a: mul(xa(i, a), A.at(a, num(k)))), b.at(num(k)))
    vc.ensure_shape("shape", y, (n, K))
    vc.ensure_eq("log-likelihood", mk(y.at(i, num(k))), mk(ref))
    for t in ("post", "log-post"):
        y = m.predict(x, t)
        vc.ensure("softmax along the classes", tm_bool(used[-1][1] in (1, -1)))
        vc.ensure_eq("log joint of " + t, mk(used[-1][0].at(i, num(k))), mk(add(ref, tlog(L(ps[k])))))
        v = soft.at(i, num(k))
        vc.ensure_eq(t, mk(y.at(i, num(k))), mk(v if t == "post" else tlog(add(v, L(1e-10)))))
    vc.unchanged("inputs", s)


@contract("C18", "logreg.binary", targets=[BLR + "predict", BLR + "__init__", LR + "fit", LR + "_get_priors"], replay="logreg.binary")
def c_blr(vc):
    mod, bmod = vc.mod(LM), vc.mod(BM)
    d, n = vc.int("d", lo=1), vc.int("n", lo=1)
    made = sk_stub(vc, mod, "LR", d, 1)
    x, ids = vc.array("x", (n, d)), vc.array("ids", (n,), "i")
    vc.assume(tm.forall_rng(L(n), lambda i: band(le(num(0), ids.at(i)), lt(ids.at(i), num(2)))))
    cnt = lambda c: S1(n, lambda i: ind(eq(ids.at(i), c)))
    mx, bc = NP.max, NP.bincount
    vc.patch(NP, "max", lambda z, *a, **k: 1 if z is ids and not a and not k else mx(z, *a, **k))
    vc.patch(NP, "bincount", lambda z, *a, **k: SArr((2,), "i", cnt) if z is ids and not a and not k else bc(z, *a, **k))
    p, lam, bs = vc.real("prior", pos=True), vc.real("lambda", pos=True), vc.real("scaling", pos=True)
    vc.assume(lt(L(p), num(1)))
    seed = vc.int("seed", lo=0)
    m = bmod.BinaryLogisticRegression(prior=p, lambda_reg=lam, bias_scaling=bs, random_state=seed)
    vc.ensure_eq("regularization", made[0].kw["C"], mk(div(num(1), L(lam))))
    vc.ensure_eq("scaling of the bias", made[0].kw["intercept_scaling"], bs)
    vc.ensure("solver", tm_bool(made[0].kw["solver"] == "liblinear" and made[0].kw["random_state"] is seed))
    m.fit(x, ids)
    e = made[0]
    fx, fy, fw = e.fits[0]
    vc.ensure("data", tm_bool(fx is x and fy is ids))
    q = [sub(num(1), L(p)), L(p)]
    if vc.choose("goal", ["weights", "prediction"]) == "weights":
        i = L(vc.idx("i", n))
        c = vc.choose("label", [0, 1])
        vc.assume(eq(ids.at(i), num(c)))
        vc.ensure_eq("weight of a sample", mk(fw.at(i)), mk(div(q[c], cnt(ids.at(i)))))
        return
    co, ic = e.raw
    z = vc.array("z", (vc.int("t", lo=1), d))
    t = L(vc.idx("r", z.shape[0]))
    lo = tlog(div(L(p), sub(num(1), L(p))))
    llr = sub(add(S1(d, lambda a: mul(z.at(t, a), co.at(num(0), a))), ic.at(num(0))), lo)
    y = m.predict(z)
    vc.ensure_shape("shape", y, (z.shape[0],))
    vc.ensure_eq("log-likelihood ratio", mk(y.at(t)), mk(llr))
    s = add(num(1), texp(neg(add(llr, lo))))
    vc.ensure_eq("posterior", mk(m.predict(z, "post").at(t)), mk(div(num(1), s)))
    vc.ensure_eq("log-posterior", mk(m.predict(z, "log-post").at(t)), mk(neg(tlog(s))))


@contract("C18", "svm", targets=[SV + "predict", SV + "__init__", SV + "fit", SV + "A", SV + "b"], replay="svm")
def c_svm(vc):
    mod = vc.mod(SVM)
    d, n, K = vc.int("d", lo=1), vc.int("n", lo=1), vc.int("K", lo=1)
    made = sk_stub(vc, mod, "SVC", d, K)
    C, bs = vc.real("C", pos=True), vc.real("scaling", pos=True)
    bal = vc.choose("balance", [True, False])
    m = mod.LinearSVMC(C=C, bias_scaling=bs, balance_class_weight=bal)
    kw = made[0].kw
    vc.ensure_eq("cost", kw["C"], C)
    vc.ensure_eq("scaling of the bias", kw["intercept_scaling"], bs)
    vc.ensure("class weights", tm_bool(kw["class_weight"] == ("balanced" if bal else None)))
    x, ids, w = vc.array("x", (n, d)), vc.array("ids", (n,), "i"), vc.array("w", (n,))
    s = vc.snap(x, ids, w)
    m.fit(x, ids, sample_weight=w)
    fx, fy, fw = made[0].fits[0]
    vc.ensure("data", tm_bool(fx is x and fy is ids))
    i0 = L(vc.idx("i0", n))
    vc.ensure_eq("sample weights", mk(fw.at(i0)), mk(w.at(i0)))
    co, ic = made[0].raw
    used = []
    z = vc.array("z", (vc.int("t", lo=1), d))
    soft = vc.array("soft", (z.shape[0], K), pos=True)

    def softmax(r, axis=-1):
        used.append((r.copy(), axis))
        return soft.copy()
    vc.patch(mod, "softmax", softmax)
    t, k = L(vc.idx("r", z.shape[0])), L(vc.idx("k", K))
    if vc.choose("model", ["fitted", "stored"]) == "stored":
        # a model built from the coefficients of the fitted one decides the same
        m = mod.LinearSVMC(A=m.A, b=m.b, bias_scaling=bs)
    y = m.predict(z)
    ref = add(S1(d, lambda a: mul(z.at(t, a), co.at(k, a))), ic.at(k))
    vc.ensure_shape("shape", y, (z.shape[0], K))
    vc.ensure_eq("decision function", mk(y.at(t, k)), mk(ref))
    e = add(num(1), texp(neg(ref)))
    vc.ensure_eq("binary posterior", mk(m.predict(z, "bin-post").at(t, k)), mk(div(num(1), e)))
    vc.ensure_eq("binary log-posterior", mk(m.predict(z, "bin-logpost").at(t, k)), mk(neg(tlog(e))))
    for nm in ("cat-post", "cat-logpost"):
        y = m.predict(z, nm)
        vc.ensure("softmax along the classes", tm_bool(used[-1][1] in (1, -1)))
        vc.ensure_eq("softmax of the decisions " + nm, mk(used[-1][0].at(t, k)), mk(ref))
        vc.ensure_eq(nm, mk(y.at(t, k)), mk(soft.at(t, k) if nm == "cat-post" else tlog(soft.at(t, k))))
    vc.unchanged("inputs", s)


@contract("C18", "qscoring.fit", targets=[Q + "fit", Q + "_load_prior", Q + "_change_post_N"], replay="qscoring")
def c_qfit(vc):
    mod = vc.mod(QM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    x = vc.array("x", (n, 2 * d))
    v, u = fresh("k"), fresh("k")
    vc.assume(tm.forall_rng(L(n), lambda i: tm.forall_rng(L(d), lambda j: gt(x.at(i, add(L(d), j)), num(0)))))
    fkw, pw = fit_data(vc, mod, n, K)
    prior, post = vc.choose("prior", [None, "prior", "relevance"]), vc.choose("post", [False, True])
    kw = {}
    N = lambda k: S1(n, lambda i: pw(i, k))
    w0 = mu0 = n0 = None
    if prior:
        pmu, pW, pN = vc.array("mu0", (K, d)), vc.array("W0", (d,), pos=True), vc.array("N0", (K,), pos=True)
        kw["prior"] = mod.QScoringHomoGBE(mu=pmu.copy(), W=pW.copy(), N=pN.copy())
        w0, mu0, n0 = pW.at, pmu.at, pN.at
        if prior == "relevance":
            r = vc.real("prior_N", pos=True)
            kw["prior_N"] = r
            mean = div(S1(K, pN.at), L(K))
            w0 = lambda j: add(num(1), mul(div(L(r), mean), sub(pW.at(j), num(1))))
            n0 = lambda k: L(r)
    if post:
        kw["post_N"] = vc.real("post_N", pos=True)
    m = mod.QScoringHomoGBE(**kw)
    if "class_ids" in fkw and not prior:
        # the number of classes comes from the labels
        mx = NP.max
        vc.patch(NP, "max", lambda z, *a, **k: K - 1 if z is fkw["class_ids"] and not a and not k else mx(z, *a, **k))
    elif "class_ids" in fkw:
        m.mu = vc.array("old", (K, d))
    s = vc.snap(x)
    m.fit(x, **fkw)
    vc.unchanged("inputs", s)
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    var = lambda i: x.at(i, add(L(d), j))
    prec = lambda k: add(num(1), S1(n, lambda i: mul(pw(i, k), sub(div(num(1), var(i)), num(1)))), sub(w0(j), num(1)) if prior else num(0))
    eta = add(S1(n, lambda i: div(mul(pw(i, k), x.at(i, j)), var(i))), mul(w0(j), mu0(k, j)) if prior else num(0))
    vc.ensure_eq("mean", mk(m.mu.at(k, j)), mk(div(eta, prec(k))))
    Nn = (lambda k: add(N(k), n0(k))) if prior else N
    W = div(S1(K, lambda k: prec(k)), L(K))
    if post:
        mean = div(S1(K, Nn), L(K))
        W = add(num(1), mul(div(L(kw["post_N"]), mean), sub(W, num(1))))
        vc.ensure_eq("count", mk(m.N.at(k)), kw["post_N"])
    else:
        vc.ensure_eq("count", mk(m.N.at(k)), mk(Nn(k)))
    vc.ensure_eq("precision", mk(m.W.at(j)), mk(W))


@contract("C18", "qscoring.predict", targets=[Q + "predict", Q + "x_dim"], replay="qscoring")
def c_qpred(vc):
    mod = vc.mod(QM)
    d, K, n = vc.int("d", lo=1), vc.int("K", lo=1), vc.int("n", lo=1)
    mu, W, x = vc.array("mu", (K, d)), vc.array("W", (d,), pos=True), vc.array("x", (n, 2 * d))
    vc.assume(tm.forall_rng(L(d), lambda j: gt(W.at(j), num(0))))
    vc.assume(tm.forall_rng(L(n), lambda i: tm.forall_rng(L(d), lambda j: gt(x.at(i, add(L(d), j)), num(0)))))
    m = mod.QScoringHomoGBE(mu=mu, W=W)
    used = []
    soft = vc.array("soft", (n, K), pos=True)

    def softmax(r, axis=-1):
        used.append((r.copy(), axis))
        return soft.copy()
    vc.patch(mod, "softmax", softmax)
    s = vc.snap(mu, W, x)
    norm = vc.choose("normalize", [False, True])
    y = m.predict(x, normalize=norm)
    vc.unchanged("inputs", s)
    vc.ensure_shape("shape", y, (n, K))
    i, k = L(vc.idx("i", n)), L(vc.idx("k", K))
    if norm:
        vc.ensure("normalised along the classes", tm_bool(used[0][1] in (1, -1)))
        vc.ensure_eq("log of the softmax", mk(y.at(i, k)), mk(tlog(soft.at(i, k))))
        y = used[0][0]
    # log of the integral over the class variable of N(y; mu_k, 1/W) N(y; x, 1/p) / N(y; 0, 1), p the precision of the segment
    def term(j):
        p = div(num(1), x.at(i, add(L(d), j)))
        l = sub(add(p, W.at(j)), num(1))
        ee, et = mul(mu.at(k, j), W.at(j)), mul(x.at(i, j), p)
        return add(tlog(W.at(j)), tlog(p), neg(tlog(l)), div(sq(add(ee, et)), l), neg(div(sq(ee), W.at(j))), neg(div(sq(et), p)))
    vc.ensure_eq("score", mk(y.at(i, k)), mk(mul(HALF, S1(d, term))))
