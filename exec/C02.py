from harness import *
from hyperion.score_norm import TNorm, ZNorm, SNorm, ZTNorm, TZNorm, AdaptSNorm

P = "hyperion.score_norm."


def line_stats(x, m, floor):
    x = np.asarray(x, float)
    if m is not None:
        x = x[m]
    return x.mean(), max(np.sqrt(((x - x.mean()) ** 2).mean()), floor)


def tn(s, ct, m, floor):
    o = np.zeros(s.shape)
    for j in range(s.shape[1]):
        mu, sd = line_stats(ct[:, j], None if m is None else m[:, j], floor)
        o[:, j] = (s[:, j] - mu) / sd
    return o


def zn(s, ec, m, floor):
    return tn(s.T, ec.T, None if m is None else m.T, floor).T


def gen(r, mask):
    m, t, c = r.size(1, 5), r.size(1, 5), r.size(1, 7)
    S, CT, EC, CC = r.arr(m, t), r.arr(c, t), r.arr(m, c), r.arr(c, c)
    if r.bool(0.15):
        CT[:, r.int(0, t - 1)] = r.real()
    if r.bool(0.15):
        EC[r.int(0, m - 1)] = r.real()
    if r.bool(0.2):
        sc = 10 ** r.np.uniform(-3, 2)
        S, CT, EC, CC = S * sc, CT * sc, EC * sc, CC * sc
    floor = r.pick(None, 1e-5, 0.5, 2.0)
    mk = lambda a, b: fix(r.mask(a, b, p=r.pick(0.3, 0.6, 0.9)))

    def fix(M):
        # precondition: every row and column keeps a cohort score
        for i in range(M.shape[0]):
            if not M[i].any():
                M[i, r.int(0, M.shape[1] - 1)] = True
        for j in range(M.shape[1]):
            if not M[:, j].any():
                M[r.int(0, M.shape[0] - 1), j] = True
        return M
    M = (mk(c, t), mk(m, c), mk(c, c)) if mask else (None, None, None)
    return S, CT, EC, CC, floor, M


def opts(floor):
    return {} if floor is None else dict(std_floor=floor)


def frame(args, copies):
    for a, b in zip(args, copies):
        if a is not None:
            check(np.array_equal(a, b), "an input array was modified")


def cmp(got, exp, S, msg):
    # conditioning: the masked variance is computed from moments
    close(got, exp, msg, tol=2e-4)


def runner(cls, spec, mask, pick, nm):
    def f(r):
        S, CT, EC, CC, fl, (Mct, Mec, Mcc) = gen(r, mask)
        floor = 1e-5 if fl is None else fl
        if mask and floor < 0.1:
            # near-constant lines: only the floored result is well defined
            fl = floor = 0.05
        args, margs = pick(S, CT, EC, CC, Mct, Mec, Mcc)
        cp = [None if a is None else a.copy() for a in args + margs]
        o = cls(**opts(fl))
        got = o.predict(*(args + (margs if mask else [])))
        frame(args + margs, cp)
        cmp(got, spec(S, CT, EC, CC, Mct, Mec, Mcc, floor), S, nm)
        got2 = o.predict(*(args + (margs if mask else [])))
        same(got2, got, "second call differs")
    return f


SPECS = dict(
    t_norm=(TNorm, lambda S, CT, EC, CC, a, b, c, f: tn(S, CT, a, f), lambda S, CT, EC, CC, a, b, c: ([S, CT], [a])),
    z_norm=(ZNorm, lambda S, CT, EC, CC, a, b, c, f: zn(S, EC, b, f), lambda S, CT, EC, CC, a, b, c: ([S, EC], [b])),
    s_norm=(SNorm, lambda S, CT, EC, CC, a, b, c, f: (tn(S, CT, a, f) + zn(S, EC, b, f)) / np.sqrt(2), lambda S, CT, EC, CC, a, b, c: ([S, CT, EC], [a, b])),
    zt_norm=(ZTNorm, lambda S, CT, EC, CC, a, b, c, f: tn(zn(S, EC, b, f), zn(CT, CC, c, f), a, f), lambda S, CT, EC, CC, a, b, c: ([S, CT, EC, CC], [a, b, c])),
    tz_norm=(TZNorm, lambda S, CT, EC, CC, a, b, c, f: zn(tn(S, CT, a, f), tn(EC, CC, c, f), b, f), lambda S, CT, EC, CC, a, b, c: ([S, CT, EC, CC], [a, b, c])))
for _n, (_c, _s, _p) in SPECS.items():
    CASES["score_norm." + _n] = dict(prop="C02", fn=runner(_c, _s, False, _p, _n), targets=[P + _n], weight=1, key="score_norm." + _n)
    CASES["score_norm." + _n + ".masked"] = dict(prop="C02", fn=runner(_c, _s, True, _p, _n + " masked"), targets=[P + _n], weight=1, key="score_norm." + _n + ".masked")


@case("C02", "score_norm.adapt_s_norm", targets=[P + "adapt_s_norm"])
def k_as(r):
    m, t, c = r.size(1, 5), r.size(1, 5), r.size(1, 9)
    S, CT, EC = r.arr(m, t), r.arr(c, t, ties=False), r.arr(m, c, ties=False)
    nb, nd = r.int(1, c + 2), r.int(0, c - 1)
    fl = r.pick(1e-5, 0.3)
    cp = [x.copy() for x in (S, CT, EC)]
    kw = dict(nbest=nb, nbest_discard=nd)
    if fl != 1e-5:
        kw["std_floor"] = fl
    got = AdaptSNorm(**kw).predict(S, CT, EC)
    frame([S, CT, EC], cp)
    k = min(nb, c - nd)
    exp = np.zeros((m, t))
    for i in range(m):
        for j in range(t):
            iz = np.argsort(-CT[:, j])[nd:nd + k]
            it = np.argsort(-EC[i])[nd:nd + k]
            mz, sz = line_stats(EC[i, iz], None, fl)
            mt, st = line_stats(CT[it, j], None, fl)
            exp[i, j] = ((S[i, j] - mz) / sz + (S[i, j] - mt) / st) / np.sqrt(2)
    close(got, exp, "adaptive s-norm", tol=1e-6)


@case("C02", "score_norm.adapt_s_norm.masked", targets=[P + "adapt_s_norm"])
def k_asm(r):
    """with every cohort score kept, the masks change nothing; masked scores never matter"""
    m, t, c = r.size(1, 4), r.size(1, 4), r.size(2, 8)
    S, CT, EC = r.arr(m, t), r.arr(c, t, ties=False), r.arr(m, c, ties=False)
    nb, nd = r.int(1, c + 2), r.int(0, c - 1)
    o = AdaptSNorm(nbest=nb, nbest_discard=nd, std_floor=0.05)
    full = o.predict(S, CT.copy(), EC.copy())
    close(o.predict(S, CT, EC, np.ones((c, t), bool), np.ones((m, c), bool)), full, "full mask", tol=1e-4)
    Mct, Mec = r.mask(c, t), r.mask(m, c)
    a = o.predict(S, CT.copy(), EC.copy(), Mct, Mec)
    CT2, EC2 = CT.copy(), EC.copy()
    CT2[~Mct] = 77.0
    EC2[~Mec] = -99.0
    cp = [CT2.copy(), EC2.copy()]
    b = o.predict(S, CT2, EC2, Mct, Mec)
    same(a, b, "masked cohort scores influence the result")
    frame([CT2, EC2], cp)


@case("C02", "score_norm.dtype", targets=[P + "score_norm"], weight=0.3)
def k_opts(r):
    fl = r.pos()
    for c in (TNorm, ZNorm, SNorm, ZTNorm, TZNorm, AdaptSNorm):
        o = c(std_floor=fl)
        check(o.std_floor == fl, "std_floor option of %s is lost" % c.__name__)
