from harness import *
from sklearn.metrics import homogeneity_score, completeness_score
from hyperion.clustering.kmeans import KMeans
from hyperion.clustering.ahc import AHC

KM, AH = "hyperion.clustering.kmeans:KMeans.", "hyperion.clustering.ahc:AHC."


def d2(x, mu):
    return np.array([[np.sum((a - m) ** 2) for m in mu] for a in x])


@case("C19", "kmeans", targets=[KM + "fit", KM + "predict", KM + "_choose_seeds", KM + "_compute_centroids"])
def k1(r):
    n, d = r.size(1, 12), r.size(1, 3)
    K = r.int(1, 4)
    x = r.arr(n, d)
    x0 = x.copy()
    m = KMeans(K, rtol=r.pick(.001, 0.0))
    mu = m._choose_seeds(x)
    check(mu.shape == (K, d), "shape of the seeds")
    same(mu[0], x[0], "first seed")
    for k in range(1, K):
        s = d2(x, mu[:k]).sum(axis=1)
        check(any(np.array_equal(mu[k], x[i]) and s[i] >= s.max() - 1e-9 for i in range(n)), "seed %d is not a farthest sample" % k)
    idx = r.labels(n, K)
    c = m._compute_centroids(x, idx)
    check(c.shape == (K, d), "shape of the centroids")
    for k in range(K):
        close(c[k], x[idx == k].mean(axis=0) if np.any(idx == k) else np.zeros(d), "centroid")
    m.mu = r.arr(K, d)
    p, e = m.predict(x)
    D = d2(x, m.mu)
    close(e, D.min(axis=1), "distance to the nearest centroid")
    close(D[np.arange(n), p], D.min(axis=1), "not the nearest centroid")
    ep = r.int(1, 8)
    loss, p = m.fit(x, epochs=ep)
    check(1 <= len(loss) <= ep, "number of losses")
    q, e = m.predict(x)
    same(p, q, "clusters of the last model")
    close(loss[-1], e.mean(), "loss of the last model")
    same(x, x0, "data")


@case("C19", "kmeans.descent", targets=[KM + "fit"])
def k2(r):
    n, d, K = r.int(4, 20), r.size(1, 2), r.int(1, 3)
    x = r.arr(n, d, ties=False)
    loss, p = KMeans(K, rtol=0.0).fit(x, epochs=r.int(1, 10))
    if len(set(p.tolist())) == K:
        check(np.all(np.diff(loss) <= 1e-9 * (1 + loss[0])), "the loss grows: %s" % loss.tolist())


def naive(s, method):
    """greedy agglomeration of the most similar pair, similarities larger for closer"""
    n = len(s)
    cl = {i: [i] for i in range(n)}
    out = []
    for t in range(n - 1):
        best = None
        ks = sorted(cl)
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                v = [s[min(a, b), max(a, b)] for a in cl[ks[i]] for b in cl[ks[j]]]
                v = {"average": np.mean, "complete": np.min, "single": np.max}[method](v)
                if best is None or v > best[0]:
                    best = (v, ks[i], ks[j])
        v, i, j = best
        cl[n + t] = cl.pop(i) + cl.pop(j)
        out.append((v, sorted(map(tuple, map(sorted, cl.values())))))
    return out


def parts(lab):
    return sorted(tuple(np.nonzero(lab == v)[0].tolist()) for v in set(lab.tolist()))


@case("C19", "ahc", targets=[AH + "fit", AH + "get_flat_clusters", AH + "get_flat_clusters_from_num_clusters", AH + "get_flat_clusters_from_thr"], weight=1.5)
def k3(r):
    n = r.int(2, 8)
    s = r.arr(n, n, ties=False)
    metric = r.pick("llr", "prob")
    if metric == "prob":
        s = 1 / (1 + np.exp(-s))
    method = r.pick("average", "complete", "single")
    mask = None
    if r.bool(.2):
        mask = np.ones((n, n), bool)
    m = AHC(method=method, metric=metric)
    s0 = s.copy()
    m.fit(s, mask)
    same(s, s0, "scores")
    ref = naive(s, method)
    close(m.Z[:, 2], [v for v, _ in ref], "scores of the merges", 1e-6)
    if r.bool(.4):
        m.compute_flat_clusters()
    for k in range(1, n + 3):
        lab = m.get_flat_clusters(k, "num_clusters")
        kk = min(k, n)
        check(len(lab) == n and sorted(set(lab.tolist())) == list(range(kk)), "labels 0..%d: %s" % (kk - 1, lab))
        want = [(i,) for i in range(n)] if kk == n else ref[n - kk - 1][1]
        check(parts(lab) == sorted(want), "clusters %s, expected %s" % (parts(lab), want))
    for t in [r.real(1.0) for _ in range(3)] + [float(m.Z[0, 2]), float(m.Z[-1, 2])]:
        lab = m.get_flat_clusters(t)
        e = [p for v, p in zip(m.Z[:, 2], [p for _, p in ref]) if v >= t]
        want = e[-1] if e else [(i,) for i in range(n)]
        check(parts(lab) == sorted(want), "threshold %s: clusters %s, expected %s" % (t, parts(lab), want))


@case("C19", "ahc.mask", targets=[AH + "fit"])
def k4(r):
    n = r.int(3, 8)
    s = r.arr(n, n, ties=False)
    a = r.mask(n, n)
    mask = np.triu(a, 1) | np.triu(a, 1).T | np.eye(n, dtype=bool)
    m = AHC(method="single")
    s0, mask0 = s.copy(), mask.copy()
    m.fit(s, mask)
    same(s, s0, "scores")
    same(mask, mask0, "mask")
    lab = m.get_flat_clusters(-1e9)
    # joined only through pairs that are not masked
    adj = mask.copy()
    for _ in range(n):
        adj = (adj.astype(int) @ adj.astype(int)) > 0
    for i in range(n):
        for j in range(i + 1, n):
            check((lab[i] == lab[j]) == bool(adj[i, j]), "masked pairs joined")


@case("C19", "ahc.impurity", targets=[AH + "compute_flat_clusters", AH + "evaluate_impurity_det"])
def k5(r):
    n = r.int(2, 8)
    s = r.arr(n, n, ties=False)
    m = AHC()
    m.fit(s)
    lab = r.labels(n, 3)
    h, c = m.evaluate_impurity_det(lab)
    check(h.shape == (n,) and c.shape == (n,), "one value for each number of clusters")

    m2 = AHC()
    m2.Z = m.Z
    for i in range(n):
        f = m2.get_flat_clusters(n - i, "num_clusters")
        same(m.flat_clusters[i], f, "clusters after %d merges" % i)
        close(h[i], 1 - homogeneity_score(lab, f), "cluster impurity", 1e-6)
        close(c[i], 1 - completeness_score(lab, f), "class impurity", 1e-6)
