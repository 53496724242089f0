from vc import *
import shim_np
from shim_np import NP

KMM, AHM = "hyperion.clustering.kmeans", "hyperion.clustering.ahc"
KM, AH = KMM + ":KMeans.", AHM + ":AHC."
F = Fraction


def L(x):
    return lift(x)


def S1(n, f):
    k = fresh("k")
    return sum_over([L(n)], [k], f(k))


def sq(a):
    return mul(a, a)


def dist(x, i, mu, k, d):
    return S1(d, lambda j: sq(sub(x.at(i, j), mu.at(k, j))))


@contract("C19", "kmeans.predict", targets=[KM + "predict", KM + "__init__"], replay="kmeans")
def c_pred(vc):
    mod = vc.mod(KMM)
    n, d, K = vc.int("n", lo=1), vc.int("d", lo=1), vc.int("K", lo=1)
    x, mu = vc.array("x", (n, d)), vc.array("mu", (K, d))
    m = mod.KMeans(K, mu=mu)
    s = vc.snap(x, mu)
    idx, err = m.predict(x)
    vc.unchanged("inputs", s)
    vc.ensure_shape("index", idx, (n,))
    vc.ensure_shape("error", err, (n,))
    i, k = L(vc.idx("i", n)), L(vc.idx("k", K))
    c = idx.at(i)
    vc.ensure("index of a cluster", mk(band(ge(c, num(0)), lt(c, L(K)))))
    vc.ensure("no other centre is closer", mk(le(dist(x, i, mu, c, d), dist(x, i, mu, k, d))))
    vc.ensure_eq("squared distance to the centre of its cluster", mk(err.at(i)), mk(dist(x, i, mu, c, d)))


@contract("C19", "kmeans.centroids", targets=[KM + "_compute_centroids"], replay="kmeans")
def c_cent(vc):
    mod = vc.mod(KMM)
    n, d, K = vc.int("n", lo=1), vc.int("d", lo=1), vc.int("K", lo=1)
    x, idx = vc.array("x", (n, d)), vc.array("index", (n,), "i")
    m = mod.KMeans(K)
    s = vc.snap(x, idx)
    mu = m._compute_centroids(x, idx)
    vc.unchanged("inputs", s)
    vc.ensure_shape("shape", mu, (K, d))
    k, j = L(vc.idx("k", K)), L(vc.idx("j", d))
    N = S1(n, lambda i: ind(eq(idx.at(i), k)))
    vc.ensure_eq("mean of the points of the cluster", mk(ite(gt(N, num(0)), mul(mu.at(k, j), N), num(0))), mk(ite(gt(N, num(0)), S1(n, lambda i: mul(ind(eq(idx.at(i), k)), x.at(i, j))), num(0))))


@contract("C19", "kmeans.seeds", targets=[KM + "_choose_seeds"], replay="kmeans")
def c_seeds(vc):
    mod = vc.mod(KMM)
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    K = vc.choose("K", [1, 2, 3])
    x = vc.array("x", (n, d))
    m = mod.KMeans(K)
    s = vc.snap(x)
    mu = m._choose_seeds(x)
    vc.unchanged("inputs", s)
    vc.ensure_shape("shape", mu, (K, d))
    j = L(vc.idx("j", d))
    vc.ensure_eq("first seed", mk(mu.at(0, j)), mk(x.at(0, j)))
    i = L(vc.idx("i", n))
    for k in range(1, K):
        far = lambda f: add(num(0), *[S1(d, lambda q, a=a: sq(sub(f(q), mu.at(a, q)))) for a in range(k)])
        vc.ensure("seed %d is the farthest point from the seeds before" % k, mk(le(far(lambda q: x.at(i, q)), far(lambda q: mu.at(k, q)))))


@contract("C19", "kmeans.fit", targets=[KM + "fit"], replay="kmeans")
def c_fit(vc):
    mod = vc.mod(KMM)
    n, d, K = vc.int("n", lo=1), vc.int("d", lo=1), vc.int("K", lo=1)
    E = vc.choose("epochs", [1, 2, 3])
    x = vc.array("x", (n, d))
    rtol = vc.real("rtol")
    m = mod.KMeans(K, rtol=rtol)
    seeds = vc.array("seeds", (K, d))
    cents = [vc.array("centroids%d" % e, (K, d)) for e in range(E)]
    idxs = [vc.array("index%d" % e, (n,), "i") for e in range(E + 1)]
    errs = [vc.array("err%d" % e, (n,), pos=True) for e in range(E + 1)]
    for e in errs:
        vc.assume(tm.forall_rng(L(n), lambda i, e=e: gt(e.at(i), num(0))))
    log = []

    def choose(z):
        vc.same("seeds of the data", z, x)
        log.append("seeds")
        return seeds

    def pred(z):
        t = sum(1 for a in log if a == "predict")
        vc.same("data of predict %d" % t, z, x)
        vc.same("centres of predict %d" % t, m.mu, seeds if t == 0 else cents[t - 1])
        log.append("predict")
        return idxs[t], errs[t]

    def comp(z, i):
        t = sum(1 for a in log if a == "centroids")
        vc.same("data of the update %d" % t, z, x)
        vc.same("clusters of the update %d" % t, i, idxs[t])
        log.append("centroids")
        return cents[t]
    m._choose_seeds, m.predict, m._compute_centroids = choose, pred, comp
    loss, idx = m.fit(x, epochs=E)
    T = sum(1 for a in log if a == "centroids")
    vc.ensure("sequence of steps", tm_b(log == ["seeds", "predict"] + ["centroids", "predict"] * T))
    vc.same("last assignment", idx, idxs[T])
    vc.same("last centres", m.mu, cents[T - 1])
    vc.ensure_shape("one loss for each epoch", loss, (T,))
    mean = lambda e: div(S1(n, lambda i: errs[e].at(i)), L(n))
    for t in range(T):
        vc.ensure_eq("loss of epoch %d" % t, mk(loss.at(t)), mk(mean(t + 1)))
    dl = lambda t: div(tm.tabs(sub(mean(t), mean(t + 1))), mean(t))
    for t in range(1, T - 1):
        vc.ensure("not converged at epoch %d" % t, mk(ge(dl(t), L(rtol))))
    if T < E:
        vc.ensure("stops once converged", mk(band(tm_b(T > 1), lt(dl(T - 1), L(rtol)))))


def tm_b(b):
    return TRUE if b else FALSE


@contract("C19", "ahc.fit", targets=[AH + "fit", AH + "__init__"], replay="ahc")
def c_ahc_fit(vc):
    mod = vc.mod(AHM)
    n = vc.int("n", lo=2)
    x = vc.array("x", (n, n))
    metric = vc.choose("metric", ["llr", "prob", "euclidean"])
    method = vc.choose("method", ["average", "complete"])
    mask = vc.array("mask", (n, n), "b") if vc.case("mask") else None
    Z = vc.array("Z", (n - 1, 4))
    used = []

    def linkage(y, method="single", metric="euclidean", **kw):
        used.append((y.copy(), method, metric, kw))
        return Z.copy()
    vc.patch(mod, "linkage", linkage)
    m = mod.AHC(method=method, metric=metric)
    s = vc.snap(x)
    m.fit(x, mask)
    vc.unchanged("the scores", s)
    y, me, mt, kw = used[0]
    vc.ensure("one call to linkage", tm_b(len(used) == 1 and me == method and not kw and mt in (metric, "euclidean")))
    v = (lambda i, j: ite(mask.at(i, j), x.at(i, j), num(-10 ** 10))) if mask is not None else x.at
    t, c = L(vc.idx("t", n - 1)), L(vc.idx("c", 4))
    vc.ensure_eq("other columns of the tree", mk(ite(eq(c, num(2)), num(0), m.Z.at(t, c))), mk(ite(eq(c, num(2)), num(0), Z.at(t, c))))
    # pairs i<j in the order of the rows: what the mask i<j selects
    w = SArr((n, n), "f", v)[SArr((n, n), "b", lambda i, j: lt(i, j))]
    vc.ensure_shape("a distance for each pair", y, w.shape)
    p, q = L(vc.idx("p", w.shape[0])), L(vc.idx("q", w.shape[0]))
    sc, of = y.at(p), w.at(p)
    if metric == "llr":
        # score = M - distance in the pairs and in the tree
        vc.ensure_eq("distance of the pair and height of the merge", mk(add(sc, of)), mk(add(m.Z.at(t, 2), Z.at(t, 2))))
        vc.ensure("distances are not negative", mk(ge(sc, num(0))))
    elif metric == "prob":
        vc.ensure_eq("distance of the pair", mk(sc), mk(sub(num(1), of)))
        vc.ensure_eq("threshold in the units of the scores", mk(m.Z.at(t, 2)), mk(sub(num(1), Z.at(t, 2))))
    else:
        vc.ensure_eq("distance of the pair", mk(sc), mk(of))
        vc.ensure_eq("tree", mk(m.Z.at(t, 2)), mk(Z.at(t, 2)))


@contract("C19", "ahc.threshold", targets=[AH + "get_flat_clusters_from_thr", AH + "get_flat_clusters"], replay="ahc")
def c_thr(vc):
    mod = vc.mod(AHM)
    n = vc.int("n", lo=2)
    Z = vc.array("Z", (n - 1, 4))
    metric = vc.choose("metric", ["llr", "prob", "euclidean"])
    m = mod.AHC(metric=metric)
    m.Z = Z
    got = []
    out = vc.array("clusters", (n,), "i")

    def by_num(k):
        got.append(k)
        return out
    m.get_flat_clusters_from_num_clusters = by_num
    t = vc.real("t")
    s = vc.snap(Z)
    via = vc.choose("via", ["threshold", "num", "direct"])
    if via == "num":
        k = vc.int("k", lo=1)
        y = m.get_flat_clusters(k, criterion="num_clusters")
        vc.ensure("one cut", tm_b(len(got) == 1))
        vc.same("number of clusters", got[0], k)
        vc.same("clusters", y, out)
        return
    y = m.get_flat_clusters(t) if via == "threshold" else m.get_flat_clusters_from_thr(t)
    vc.unchanged("tree", s)
    vc.ensure("one cut", tm_b(len(got) == 1))
    vc.same("clusters", y, out)
    ok = (lambda i: le(Z.at(i, 2), L(t))) if metric == "euclidean" else (lambda i: ge(Z.at(i, 2), L(t)))
    vc.ensure_eq("merges not worse than the threshold are done", mk(L(got[0])), mk(sub(L(n), S1(n - 1, lambda i: ind(ok(i))))))


def number(N, lab, i):
    """numpy contract of unique with inverse: the number of the label among those of the leaves (arbitrary)"""
    return app("number", lab(i), *[lab(k) for k in range(N)], isint=True)


def np_unique(vc, N):
    def unique(a, return_inverse=False):
        a = a.copy()
        lab = [a.at(k) for k in range(N)]
        g = SArr((num(N),), "i", lambda i: app("number", a.at(i), *lab, isint=True))
        return (None, g) if return_inverse else None
    vc.patch(NP, "unique", unique)


def labels(Z, N, p, i):
    """cluster of the leaf i after p merges (N leaves; the merge t makes the cluster N+t out of Z[t,0] and Z[t,1])"""
    l = num(i)
    for t in range(p):
        l = ite(bor(eq(l, Z.at(t, 0)), eq(l, Z.at(t, 1))), num(N + t), l)
    return l


@contract("C19", "ahc.flat", targets=[AH + "get_flat_clusters_from_num_clusters"], replay="ahc")
def c_flat(vc):
    mod = vc.mod(AHM)
    N = vc.choose("N", [2, 3, 4])
    Z = vc.array("Z", (N - 1, 4))
    m = mod.AHC()
    m.Z = Z
    k = vc.choose("k", [1, 2, 3, 4, 6])
    cached = vc.case("computed before")
    p = max(0, N - k)
    if cached:
        fc = vc.array("flat", (N, N), "i")
        m.flat_clusters = fc
        y = m.get_flat_clusters_from_num_clusters(k)
        for i in range(N):
            vc.ensure_eq("cluster of %d" % i, mk(y.at(i)), mk(fc.at(p, i)))
        return
    np_unique(vc, N)
    s = vc.snap(Z)
    y = m.get_flat_clusters_from_num_clusters(k)
    vc.unchanged("tree", s)
    vc.ensure_shape("shape", y, (N,))
    for i in range(N):
        vc.ensure_eq("cluster of %d" % i, mk(y.at(i)), mk(number(N, lambda q: labels(Z, N, p, q), i)))


@contract("C19", "ahc.all", targets=[AH + "compute_flat_clusters"], replay="ahc.impurity")
def c_all(vc):
    mod = vc.mod(AHM)
    N = vc.choose("N", [2, 3, 4])
    Z = vc.array("Z", (N - 1, 4))
    m = mod.AHC()
    m.Z = Z
    np_unique(vc, N)
    s = vc.snap(Z)
    m.compute_flat_clusters()
    vc.unchanged("tree", s)
    vc.ensure_shape("shape", m.flat_clusters, (N, N))
    for i in range(N):
        vc.ensure_eq("each leaf alone %d" % i, mk(m.flat_clusters.at(0, i)), mk(num(i)))
        for p in range(1, N):
            vc.ensure_eq("cluster of %d after %d merges" % (i, p), mk(m.flat_clusters.at(p, i)), mk(number(N, lambda q: labels(Z, N, p, q), i)))


@contract("C19", "ahc.impurity", targets=[AH + "evaluate_impurity_det"], replay="ahc.impurity")
def c_imp(vc):
    mod = vc.mod(AHM)
    N = vc.choose("N", [1, 2, 4])
    fc = vc.array("flat", (N, N), "i")
    lab = vc.array("labels", (N,), "i")
    m = mod.AHC()
    if vc.case("not computed before"):
        m.compute_flat_clusters = lambda: setattr(m, "flat_clusters", fc)
    else:
        m.flat_clusters = fc
    val = {f: [vc.real("%s%d" % (f, t)) for t in range(N)] for f in ("homogeneity", "completeness")}
    log = {f: [] for f in val}

    def score(f):
        def g(t, p):
            vc.same("true labels come first", t, lab)
            log[f].append(p.copy())
            return val[f][len(log[f]) - 1]
        return g
    for f in val:
        vc.patch(mod, f + "_score", score(f))
    s = vc.snap(lab)
    y = m.evaluate_impurity_det(lab)
    vc.unchanged("labels", s)
    # homogeneity: clusters with members of one class only -> cluster impurity first, class impurity second
    for f, z in zip(("homogeneity", "completeness"), y):
        vc.ensure_shape("shape of " + f, z, (N,))
        vc.ensure("a value for each number of clusters", tm_b(len(log[f]) == N))
        for t in range(N):
            vc.ensure_eq("1 - %s %d" % (f, t), mk(z.at(t)), mk(sub(num(1), L(val[f][t]))))
            for i in range(N):
                vc.ensure_eq("clusters of %s %d" % (f, t), mk(log[f][t].at(i)), mk(fc.at(t, i)))
