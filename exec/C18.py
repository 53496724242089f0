from harness import *
import scipy.stats as st
import scipy.linalg as la
from sklearn.linear_model import LogisticRegression as SkLR
from sklearn.svm import LinearSVC as SkSVC
from hyperion.classifiers.linear_gbe import LinearGBE
from hyperion.classifiers.linear_gbe_up import LinearGBEUP
from hyperion.classifiers.logistic_regression import LogisticRegression
from hyperion.classifiers.binary_logistic_regression import BinaryLogisticRegression
from hyperion.classifiers.linear_svmc import LinearSVMC
from hyperion.classifiers.q_scoring_homo_gbe import QScoringHomoGBE

P = "hyperion.classifiers."
G, GU, LR, BLR = P + "linear_gbe:LinearGBE.", P + "linear_gbe_up:LinearGBEUP.", P + "logistic_regression:LogisticRegression.", P + "binary_logistic_regression:BinaryLogisticRegression."
SV, Q = P + "linear_svmc:LinearSVMC.", P + "q_scoring_homo_gbe:QScoringHomoGBE."


def lsm(y):
    m = y.max(axis=1, keepdims=True)
    return y - m - np.log(np.exp(y - m).sum(axis=1, keepdims=True))


@case("C18", "lgbe.eval", targets=[G + "eval_linear", G + "eval_llk", G + "eval_predictive", G + "predict", G + "_compute_Ab"])
def k1(r):
    d, K, n = r.size(1, 4), r.size(1, 4), r.size(1, 5)
    mu, W = r.arr(K, d), r.spd(d)
    m = LinearGBE(mu=mu, W=W, beta=r.posarr(K) * 5, nu=float(d + r.pos() * 4))
    x = r.arr(n, d)
    C = la.inv(W)
    llk = np.array([[st.multivariate_normal.logpdf(x[i], mu[k], C) for k in range(K)] for i in range(n)])
    close(m.eval_llk(x), llk, "log-likelihood of the class", 1e-5)
    lin = m.eval_linear(x)
    close((lin - llk) - (lin - llk)[:, :1], np.zeros((n, K)), "linear score and log-likelihood rank the classes differently", atol=1e-5)
    p = m.eval_predictive(x)
    c, rr = m.nu + 1 - d, m.beta / (m.beta + 1)
    ref = np.array([[st.multivariate_t.logpdf(x[i], mu[k], la.inv(c * rr[k] * W / m.nu), df=c) for k in range(K)] for i in range(n)])
    close(p, ref, "predictive density", 1e-5)
    for nm, y in (("linear", lin), ("llk", m.eval_llk(x)), ("predictive", p)):
        close(m.predict(x, nm), y, "predict " + nm)
        z = lsm(y)
        ok = z > -30
        close(m.predict(x, nm, normalize=True)[ok], z[ok], "normalised " + nm, 1e-5)
    raises(lambda: m.predict(x, "other"), "unknown method accepted", ValueError)


def data(r, d, K, extra=3):
    ids = np.concatenate((np.arange(K), r.labels(K * extra + d + 2, K)))
    ids = ids[r.perm(len(ids))]
    x = r.arr(len(ids), d, ties=False) + r.arr(K, d)[ids]
    return x, ids


def ref_fit(x, p, mu0, b0, W0, nu0, balance, up_mu=True, up_W=True, mu=None, W=None):
    K, d = p.shape[1], x.shape[1]
    N = p.sum(axis=0)
    xbar = (p.T @ x) / N[:, None]
    map_ = mu0 is not None
    beta = None
    if up_mu:
        beta = N + (b0 if map_ else 0)
        mu = (p.T @ x + (b0[:, None] * mu0 if map_ else 0)) / beta[:, None]
    else:
        xbar = mu
    nu = None
    if up_W:
        S0, n0 = (la.inv(W0), nu0) if map_ else (np.zeros((d, d)), 0)
        Sk = []
        for k in range(K):
            D = x - xbar[k]
            S = (p[:, k, None] * D).T @ D
            if map_ and up_mu:
                e = xbar[k] - mu0[k]
                S = S + N[k] * b0[k] / (N[k] + b0[k]) * np.outer(e, e)
            Sk.append(S)
        if balance:
            S = sum((n0 / K * S0 + Sk[k]) / (N[k] + n0 / K) for k in range(K)) / K
        else:
            S = (n0 * S0 + sum(Sk)) / (n0 + N.sum())
        W, nu = S, N.sum() + n0
    return mu, beta, W, nu


@case("C18", "lgbe.fit", targets=[G + "fit", G + "_load_prior", G + "_change_post_r", G + "__init__"], weight=1.5)
def k2(r):
    d, K = r.size(1, 3), r.int(1, 4)
    x, ids = data(r, d, K)
    n = len(ids)
    w = r.posarr(n) if r.bool() else None
    soft = r.bool(.4)
    p = np.eye(K)[ids]
    if soft:
        p = r.posarr(n, K)
        p /= p.sum(axis=1, keepdims=True)
    bal, map_ = r.bool(), r.bool()
    um, uW = r.bool(.8), r.bool(.8)
    kw = dict(balance_class_weight=bal, update_mu=um, update_W=uW)
    mu0 = b0 = W0 = nu0 = None
    if map_:
        mu0, W0, b0, nu0 = r.arr(K, d), r.spd(d), r.posarr(K) * 4, r.pos() * 5
        pr = LinearGBE(mu=mu0.copy(), W=W0.copy(), beta=b0.copy(), nu=nu0)
        kw["prior"] = pr
        if r.bool(.4):
            kw["prior_beta"] = r.pos() * 3
            b0 = kw["prior_beta"] * np.ones(K)
        if r.bool(.4):
            kw["prior_nu"] = r.pos() * 3
            nu0 = K * kw["prior_nu"]
    if r.bool(.3):
        kw["post_beta"] = r.pos()
    if r.bool(.3):
        kw["post_nu"] = r.pos()
    mu, W = r.arr(K, d), r.spd(d)
    m = LinearGBE(mu=mu.copy(), W=W.copy(), **kw) if (not um or not uW or r.bool()) else LinearGBE(**kw)
    x0, w0 = x.copy(), None if w is None else w.copy()
    if soft:
        m.fit(x, p_theta=p, sample_weight=w)
    else:
        m.fit(x, ids, sample_weight=w)
    same(x, x0, "data")
    if w is not None:
        same(w, w0, "weights")
        p = w[:, None] * p
    rmu, rbeta, rS, rnu = ref_fit(x, p, mu0, b0, W0, nu0, bal, um, uW, mu, la.inv(W))
    close(m.mu, rmu if um else mu, "means", 1e-5)
    if uW:
        close(la.inv(m.W), rS, "within-class covariance", 1e-4)
    else:
        close(m.W, W, "fixed precision")
    if "post_beta" in kw:
        close(m.beta, kw["post_beta"] * np.ones(K), "fixed beta")
    elif um:
        close(m.beta, rbeta, "beta")
    if "post_nu" in kw:
        close(m.nu, K * kw["post_nu"], "fixed nu")
    elif uW:
        close(m.nu, rnu, "nu")
    z = r.arr(2, d)
    close(m.eval_linear(z), z @ m.W @ m.mu.T - .5 * np.sum((m.mu @ m.W) * m.mu, axis=1), "scores after fit", 1e-5)


@case("C18", "lgbe.up", targets=[GU + "eval_linear", GU + "fit", GU + "_compute_Ab_i", "hyperion.utils.math:fullcov_varfloor"])
def k3(r):
    d, K = r.size(1, 3), r.int(1, 3)
    x, ids = data(r, d, K)
    s = r.posarr(len(ids), d) * r.pick(.01, 1, 10)
    m = LinearGBEUP(balance_class_weight=r.bool())
    m.fit(np.hstack((x, s)), ids)
    p = np.eye(K)[ids]
    rmu, rbeta, rS, rnu = ref_fit(x, p, None, None, None, None, m.balance_class_weight)
    close(m.mu, rmu, "means")
    close(m.beta, rbeta, "beta")
    D = np.diag(s.mean(axis=0))
    S = la.inv(m.W) + D
    # floor at 1.21 times the mean uncertainty
    T = la.inv(np.sqrt(D))
    u, e, _ = np.linalg.svd(T @ rS @ T)
    want = np.sqrt(D) @ (u * np.maximum(e, 1.21)) @ u.T @ np.sqrt(D)
    close(S, want, "covariance with the uncertainty", 1e-3)
    n = r.size(1, 4)
    z, t = r.arr(n, d), r.posarr(n, d)
    y = m.eval_linear(np.hstack((z, t)))
    C = la.inv(m.W)
    for i in range(n):
        l = np.array([st.multivariate_normal.logpdf(z[i], m.mu[k], C + np.diag(t[i])) for k in range(K)])
        close((y[i] - l) - (y[i] - l)[0], np.zeros(K), "scores of a segment are not the log-likelihoods up to a constant", 1e-3)


@case("C18", "gbe.save", targets=[G + "save_params", G + "load_params", LR + "load_params", SV + "load_params", Q + "load_params", G + "get_config"])
def k4(r):
    d, K = r.size(1, 3), r.int(3, 5)
    x, ids = data(r, d, K, 5)
    name = r.pick(None, "m", "a_b")
    f = os.path.join(r.tmp, "m.h5")
    pri = r.posarr(K)
    pri /= pri.sum()
    t = r.arr(3, d)
    for m, ev in ((LinearGBE(name=name), ["linear", "llk", "predictive"]),
                  (LogisticRegression(name=name, priors=dict(enumerate(pri)), lambda_reg=1e-2), ["logit", "post", "log-post"]),
                  (LinearSVMC(name=name, bias_scaling=r.pick(1, 2.5), max_iter=50), [None, "cat-post"])):
        m.fit(x, ids)
        m.save(f)
        m2 = m.__class__.load(f)
        for e in ev:
            a, b = (m.predict(t, e), m2.predict(t, e)) if e else (m.predict(t), m2.predict(t))
            close(b, a, "scores after loading", 1e-4)
    mq = QScoringHomoGBE(name=name)
    s = r.posarr(len(ids), d, lo=.2, hi=.9)
    mq.fit(np.hstack((x, s)), ids)
    mq.save(f)
    tq = np.hstack((t, r.posarr(3, d, lo=.2, hi=.9)))
    close(QScoringHomoGBE.load(f).predict(tq), mq.predict(tq), "scores after loading", 1e-3)


@case("C18", "logreg", targets=[LR + "fit", LR + "predict", LR + "__init__", LR + "_get_priors"])
def k5(r):
    d, K = r.size(1, 3), r.int(3, 4)
    x, ids = data(r, d, K, 4)
    n = len(ids)
    pri = None
    p = np.ones(K) / K
    if r.bool(.6):
        p = r.posarr(K)
        p /= p.sum()
        pri = dict(enumerate(p))
    w = r.posarr(n) if r.bool() else None
    lam = r.pick(1e-1, 1e-2)
    solver = r.pick("lbfgs", "liblinear")
    mc = "multinomial" if solver == "lbfgs" else "ovr"
    bs = 1 if solver == "lbfgs" else r.pick(1, 10)
    m = LogisticRegression(priors=pri, lambda_reg=lam, solver=solver, multi_class=mc, bias_scaling=bs)
    w0 = None if w is None else w.copy()
    m.fit(x, ids, sample_weight=w)
    if w is not None:
        same(w, w0, "the caller's sample weights")
    sw = (p / np.bincount(ids))[ids] * (1 if w is None else w0)
    sk = SkLR(C=1 / lam, solver=solver, multi_class=mc, intercept_scaling=bs, random_state=np.random.RandomState(1024), warm_start=True)
    sk.fit(x, ids, sample_weight=sw)
    z = r.arr(4, d)
    dec = sk.decision_function(z)
    adj = np.log(p) if mc == "multinomial" else np.log(p / (1 - p))
    close(m.predict(z), dec - adj, "log-likelihoods", 1e-5)
    if mc == "multinomial":
        close(m.predict(z, "post"), sk.predict_proba(z), "posteriors at the training priors", 1e-5)
        close(np.exp(m.predict(z, "log-post")), sk.predict_proba(z), "log-posteriors", 1e-5)


@case("C18", "logreg.binary", targets=[BLR + "predict", BLR + "__init__", LR + "fit", BLR + "get_config"])
def k6(r):
    d = r.size(1, 3)
    x, ids = data(r, d, 2, 5)
    p = r.pick(.5, .1, .9)
    bs = r.pick(1, 1, 10)
    lam = r.pick(1e-1, 1e-2)
    m = BinaryLogisticRegression(prior=p, bias_scaling=bs, lambda_reg=lam, name="lr")
    x1 = x[:, 0] if d == 1 and r.bool() else x
    m.fit(x1, ids)
    sw = (np.array([1 - p, p]) / np.bincount(ids))[ids]
    sk = SkLR(C=1 / lam, solver="liblinear", multi_class="ovr", intercept_scaling=bs, random_state=np.random.RandomState(1024))
    sk.fit(x, ids, sample_weight=sw)
    z = r.arr(4, d)
    z1 = z[:, 0] if x1.ndim == 1 else z
    llr = sk.decision_function(z) - np.log(p / (1 - p))
    close(m.predict(z1), llr, "log-likelihood ratio", 1e-5)
    close(m.predict(z1, "post"), sk.predict_proba(z)[:, 1], "posterior at the training prior", 1e-5)
    close(np.exp(m.predict(z1, "log-post")), sk.predict_proba(z)[:, 1], "log-posterior", 1e-5)
    f = os.path.join(r.tmp, "m.h5")
    m.save(f)
    close(BinaryLogisticRegression.load(f).predict(z1, "post"), m.predict(z1, "post"), "after loading", 1e-4)


@case("C18", "svm", targets=[SV + "fit", SV + "predict", SV + "__init__"])
def k7(r):
    d, K = r.size(1, 3), r.int(2, 4)
    x, ids = data(r, d, K, 4)
    bs = r.pick(1, 3.0)
    C = r.pick(1., .1)
    bal = r.bool()
    m = LinearSVMC(C=C, bias_scaling=bs, balance_class_weight=bal, max_iter=200)
    m.fit(x, ids)
    sk = SkSVC(C=C, intercept_scaling=bs, class_weight="balanced" if bal else None, random_state=np.random.RandomState(1024), max_iter=200)
    sk.fit(x, ids)
    z = r.arr(4, d)
    s = sk.decision_function(z).reshape(4, -1)
    close(m.predict(z), s, "decision function", 1e-5)
    close(m.predict(z, "bin-post"), 1 / (1 + np.exp(-s)), "binary posterior", 1e-5)
    close(m.predict(z, "bin-logpost"), -np.log(1 + np.exp(-s)), "binary log-posterior", 1e-5)
    if K > 2:
        close(m.predict(z, "cat-post"), np.exp(lsm(s)), "categorical posterior", 1e-5)
        close(m.predict(z, "cat-logpost"), lsm(s), "categorical log-posterior", 1e-5)


@case("C18", "qscoring", targets=[Q + "fit", Q + "predict", Q + "_load_prior", Q + "_change_post_N"])
def k8(r):
    d, K = r.size(1, 3), r.int(1, 4)
    x, ids = data(r, d, K)
    n = len(ids)
    s = r.posarr(n, d, lo=.1, hi=.95)
    w = r.posarr(n) if r.bool(.3) else None
    kw = {}
    mu0 = None
    if r.bool(.4):
        mu0, W0, N0 = r.arr(K, d), 1 + r.posarr(d), r.posarr(K) * 3
        kw["prior"] = QScoringHomoGBE(mu=mu0.copy(), W=W0.copy(), N=N0.copy())
        if r.bool():
            kw["prior_N"] = r.pos()
            W0 = 1 + kw["prior_N"] / N0.mean() * (W0 - 1)
            N0 = kw["prior_N"] * np.ones(K)
    if r.bool(.3):
        kw["post_N"] = r.pos()
    m = QScoringHomoGBE(**kw)
    m.fit(np.hstack((x, s)), ids, sample_weight=w)
    p = np.eye(K)[ids] * (1 if w is None else w[:, None])
    N = p.sum(axis=0)
    eta = p.T @ (x / s)
    prec = 1 + p.T @ (1 / s - 1)
    if mu0 is not None:
        eta, prec, N = eta + W0 * mu0, prec + W0 - 1, N + N0
    close(m.mu, eta / prec, "means", 1e-5)
    W = 1 + (prec - 1).mean(axis=0)
    if "post_N" in kw:
        W = 1 + kw["post_N"] / N.mean() * (W - 1)
        N = kw["post_N"] * np.ones(K)
    close(m.W, W, "precision", 1e-5)
    close(m.N, N, "counts", 1e-6)
    z, t = r.arr(3, d), r.posarr(3, d, lo=.1, hi=.95)
    y = m.predict(np.hstack((z, t)))
    # log of the integral of N(y; mu, 1/W) N(y; z, t) / N(y; 0, 1)
    ref = np.zeros((3, K))
    for k in range(K):
        Lt, L = 1 / t, 1 / t + m.W - 1
        e = z / t + m.mu[k] * m.W
        ref[:, k] = .5 * np.sum(np.log(m.W) + np.log(Lt) - np.log(L) + e ** 2 / L - (m.mu[k] * m.W) ** 2 / m.W - (z / t) ** 2 / Lt, axis=1)
    close(y, ref, "score", 1e-5)
    z = lsm(ref)
    ok = z > -30
    close(m.predict(np.hstack((np.nan_to_num(r.arr(1, d) * 0), t[:1])), normalize=True).shape, (1, K), "shape")


