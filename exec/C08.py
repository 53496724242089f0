from harness import *
import sys as _sys
import io
import importlib
import matplotlib
matplotlib.use("Agg")
from hyperion.metrics import roc as hroc, eer as heer, dcf as hdcf, cllr as hcllr, utils as hut, acc as hacc

M = "hyperion.metrics."
hcm = importlib.import_module("hyperion.metrics.confusion_matrix")


def scores(r):
    nt, nn = r.size(1, 8), r.size(1, 8)
    k = r.pick(0, 1, 2)
    if k == 0:
        return r.arr(nt), r.arr(nn)
    if k == 1:
        return np.array([float(r.int(-2, 3)) for _ in range(nt)]), np.array([float(r.int(-3, 2)) for _ in range(nn)])
    return r.arr(nt) + 2, r.arr(nn) - 2


def roc_points(tar, non):
    """operating points over all thresholds, equal scores never split"""
    P = [(1.0, 0.0)]
    for t in np.unique(np.concatenate((tar, non))):
        P.append((np.mean(non > t), np.mean(tar <= t)))
    return P


def hull(P):
    """lower left convex hull from (1,0) to (0,1), as a polyline sorted by p_fa"""
    P = sorted(set(P), key=lambda p: (p[0], -p[1]))
    H = []
    for p in P:
        while len(H) >= 2 and (H[-1][0] - H[-2][0]) * (p[1] - H[-2][1]) - (H[-1][1] - H[-2][1]) * (p[0] - H[-2][0]) <= 1e-12:
            H.pop()
        H.append(p)
    return H


def dist_line(p, a, b):
    ax, ay = b[0] - a[0], b[1] - a[1]
    n = np.hypot(ax, ay)
    if n == 0:
        return np.hypot(p[0] - a[0], p[1] - a[1])
    t = min(1, max(0, ((p[0] - a[0]) * ax + (p[1] - a[1]) * ay) / n / n))
    return np.hypot(p[0] - a[0] - t * ax, p[1] - a[1] - t * ay)


def hull_eer(H):
    for a, b in zip(H[:-1], H[1:]):
        da, db = a[1] - a[0], b[1] - b[0]
        if da >= 0 >= db:
            if da == db:
                return a[0]
            t = da / (da - db)
            return a[0] + t * (b[0] - a[0])
    raise AssertionError("no crossing")


@case("C08", "metrics.roc", [M + "roc:compute_roc"], weight=1)
def roc(r):
    tar, non = scores(r)
    t0, n0 = tar.copy(), non.copy()
    pm, pf = hroc.compute_roc(tar, non)
    s = np.concatenate((tar, non))
    check(len(pm) == len(s) + 1 and len(pf) == len(s) + 1, "number of points")
    close([pm[0], pf[0], pm[-1], pf[-1]], [0, 1, 1, 0], "end points")
    check(np.all(np.diff(pm) >= 0) and np.all(np.diff(pf) <= 0), "monotone")
    ss = np.sort(s)
    for k in range(len(s) + 1):
        if 0 < k < len(s) and ss[k - 1] == ss[k]:
            continue
        t = -np.inf if k == 0 else ss[k - 1]
        close([pm[k], pf[k]], [np.mean(tar <= t), np.mean(non > t)], "operating point", 1e-9)
    same(tar, t0, "input"), same(non, n0, "input")


@case("C08", "metrics.rocch", [M + "roc:compute_rocch", M + "utils:pavx"], weight=1.5)
def rocch(r):
    tar, non = scores(r)
    t0, n0 = tar.copy(), non.copy()
    pm, pf = hroc.compute_rocch(tar, non)
    check(pm.shape == pf.shape, "shape")
    close([pm[0], pf[0], pm[-1], pf[-1]], [0, 1, 1, 0], "end points")
    check(np.all(np.diff(pm) >= 0) and np.all(np.diff(pf) <= 0), "monotone")
    H = hull(roc_points(tar, non))
    V = [(pf[i], pm[i]) for i in range(len(pm))]
    for p in V:
        check(min(dist_line(p, a, b) for a, b in zip(H[:-1], H[1:])) < 1e-9, "vertex not on the convex hull")
    for h in H:
        check(min(np.hypot(h[0] - v[0], h[1] - v[1]) for v in V) < 1e-9, "hull vertex missing")
    same(tar, t0, "input"), same(non, n0, "input")


@case("C08", "metrics.eer", [M + "eer:compute_eer", M + "eer:compute_prbep", M + "roc:rocch2eer"], weight=1.5)
def eer(r):
    tar, non = scores(r)
    t0, n0 = tar.copy(), non.copy()
    H = hull(roc_points(tar, non))
    close(heer.compute_eer(tar, non), hull_eer(H), "equal error rate", 1e-7)
    HN = [(h[0] * len(non), h[1] * len(tar)) for h in H]
    close(heer.compute_prbep(tar, non), hull_eer(HN), "break-even point", 1e-7)
    same(tar, t0, "input"), same(non, n0, "input")


@case("C08", "metrics.pavx", [M + "utils:pavx"], weight=1)
def pav(r):
    n = r.size(1, 10)
    y = r.arr(n) if r.bool() else np.array([float(r.int(0, 2)) for _ in range(n)])
    y0 = y.copy()
    g, w, h = hut.pavx(y)
    # isotonic regression by the min-max formula
    ref = np.array([max(min(np.mean(y0[i:j + 1]) for j in range(k, n)) for i in range(k + 1)) for k in range(n)]) if n <= 40 else None
    if ref is None:
        raise Skip()
    close(g, ref, "isotonic regression", 1e-7)
    check(np.sum(w) == n and np.all(w > 0), "widths")
    close(np.repeat(h, w), g, "heights", 1e-9)
    check(np.all(np.diff(h) > -1e-9), "heights are increasing")
    same(y, y0, "input")


@case("C08", "metrics.filter_roc", [M + "roc:filter_roc", M + "roc:compute_area_under_rocch"], weight=1)
def filt(r):
    tar, non = scores(r)
    pm, pf = hroc.compute_roc(tar, non) if r.bool() else hroc.compute_rocch(tar, non)
    pm0, pf0 = pm.copy(), pf.copy()
    a, b = hroc.filter_roc(pm, pf)
    V = list(zip(pm0, pf0))
    N = list(zip(a, b))
    check(N[0] == V[0] and N[-1] == V[-1], "end points are kept")
    check(set(N) <= set(V), "only points of the curve")
    check(np.all(np.diff(a) >= 0) and np.all(np.diff(b) <= 0), "order")
    for v in V:
        check(min(dist_line(v, p, q) for p, q in zip(N[:-1], N[1:])) < 1e-9, "same curve")
    same(pm, pm0, "input"), same(pf, pf0, "input")
    pm, pf = hroc.compute_rocch(tar, non)
    auc = sum(0.5 * (pm[i] - pm[i - 1]) * (pf[i] + pf[i - 1]) for i in range(1, len(pm)))
    close(hroc.compute_area_under_rocch(pm, pf), auc, "area under the hull", 1e-9)


def priors(r):
    if r.bool(0.3):
        p = r.pick(0.5, 0.01, 0.9, float(r.np.rand() * 0.98 + 0.01))
        return p, np.array([p])
    n = r.size(1, 4)
    p = np.sort(r.np.rand(n) * 0.98 + 0.01)
    if r.bool(0.3) and n > 1:
        p[1] = p[0]
    if r.bool(0.3):
        p = np.sort(np.round(p, 1).clip(0.1, 0.9))
    return (p if r.bool() else p.tolist()), p


@case("C08", "metrics.dcf", [M + "dcf:compute_dcf", M + "dcf:compute_min_dcf", M + "utils:effective_prior"], weight=1)
def dcf(r):
    tar, non = scores(r)
    t0, n0 = tar.copy(), non.copy()
    pr, pv = priors(r)
    nz = r.bool()
    n = r.size(1, 6)
    pm, pf = r.np.rand(n), r.np.rand(n)
    pm0, pf0 = pm.copy(), pf.copy()
    d = hdcf.compute_dcf(pm, pf, pr, normalize=nz)
    ref = np.array([[p * pm[k] + (1 - p) * pf[k] for k in range(n)] for p in pv])
    if nz:
        ref = ref / np.minimum(pv, 1 - pv)[:, None]
    close(d, ref[0] if np.ndim(pr) == 0 else ref, "detection cost", 1e-9)
    same(pm, pm0, "input"), same(pf, pf0, "input")
    md, mm, mf = hdcf.compute_min_dcf(tar, non, pr, normalize=nz)
    P = roc_points(tar, non)
    sc = np.minimum(pv, 1 - pv) if nz else np.ones(len(pv))
    ref = np.array([min(p * q[1] + (1 - p) * q[0] for q in P) for p in pv]) / sc
    close(np.atleast_1d(md), ref, "minimum detection cost", 1e-7)
    check(np.shape(md) == np.shape(pr), "shape of the minimum")
    close(np.atleast_1d(pv * mm + (1 - pv) * mf) / sc, ref, "operating point of the minimum", 1e-7)
    same(tar, t0, "input"), same(non, n0, "input")
    p, cm, cf = float(r.np.rand() * 0.9 + 0.05), r.pos(), r.pos()
    close(hut.effective_prior(p, cm, cf), p * cm / (p * cm + (1 - p) * cf), "effective prior", 1e-9)


@case("C08", "metrics.act_dcf", [M + "dcf:compute_act_dcf", M + "dcf:fast_eval_dcf_eer"], weight=1.5)
def act(r):
    tar, non = scores(r)
    pr, pv = priors(r)
    nz = r.bool()
    t = -np.log(pv) + np.log(1 - pv)
    if r.bool(0.4):        # scores equal to the thresholds
        tar[0], non[0] = t[0], t[-1]
    t0, n0 = tar.copy(), non.copy()
    d, pm, pf = hdcf.compute_act_dcf(tar, non, pr, normalize=nz)
    rm = np.array([np.mean(tar < x) for x in t])
    rf = np.array([np.mean(non >= x) for x in t])
    close(pm, rm, "misses at the threshold", 1e-9)
    close(pf, rf, "false alarms at the threshold", 1e-9)
    sc = np.minimum(pv, 1 - pv) if nz else 1
    ref = (pv * rm + (1 - pv) * rf) / sc
    close(np.atleast_1d(d), ref, "actual cost", 1e-9)
    same(tar, t0, "input"), same(non, n0, "input")
    a, b, e, q = hdcf.fast_eval_dcf_eer(tar, non, pr, normalize_dcf=nz)
    close(np.atleast_1d(b), ref, "actual cost (all together)", 1e-9)
    close(a, hdcf.compute_min_dcf(tar, non, pr, normalize=nz)[0], "minimum cost (all together)", 1e-9)
    close(e, heer.compute_eer(tar, non), "equal error rate (all together)", 1e-9)
    close(q, heer.compute_prbep(tar, non), "break-even point (all together)", 1e-9)


@case("C08", "metrics.opt_loglr", [M + "utils:opt_loglr"], weight=1)
def opt(r):
    tar, non = scores(r)
    nt, nn = len(tar), len(non)
    n = nt + nn
    t0, n0 = tar.copy(), non.copy()
    meth = r.pick("raw", "laplace")
    a, b = hut.opt_loglr(tar, non, method=meth)
    check(a.shape == (nt,) and b.shape == (nn,), "shapes")
    s = np.concatenate((tar, non))
    idx = np.argsort(s, kind="mergesort")
    y = np.concatenate((np.ones(nt), np.zeros(nn)))[idx]
    if meth == "laplace":
        y = np.concatenate(([1, 0], y, [1, 0]))
    m = len(y)
    if m > 40:
        raise Skip()
    ref = np.array([max(min(np.mean(y[i:j + 1]) for j in range(k, m)) for i in range(k + 1)) for k in range(m)])
    if meth == "laplace":
        ref = ref[2:-2]
    with np.errstate(all="ignore"):
        ll = np.log(ref) - np.log(1 - ref) - np.log(nt / nn)
    got = np.concatenate((a, b))[idx]
    fin = np.abs(ll) < 15
    close(got[fin], ll[fin], "calibrated log likelihood ratio", 1e-5)
    check(np.all(got[~fin] * np.sign(ll[~fin]) > 15), "infinite ratios")
    d = got[np.isfinite(got)]
    check(np.all(np.diff(d) >= -1e-12), "the mapping is monotone")
    same(tar, t0, "input"), same(non, n0, "input")


@case("C08", "metrics.cllr", [M + "cllr:compute_cllr", M + "cllr:compute_min_cllr"], weight=1)
def cl(r):
    tar, non = scores(r)
    t0, n0 = tar.copy(), non.copy()
    sp = lambda x: np.logaddexp(0, -x)
    z = np.zeros(len(non))
    close(hcllr.compute_cllr(tar, z), (np.mean(sp(tar)) / np.log(2) + 1) / 2, "target half of Cllr", 1e-6)
    a, b = hut.opt_loglr(tar, non, "raw")
    close(hcllr.compute_min_cllr(tar, non), hcllr.compute_cllr(a, b), "minimum Cllr", 1e-9)
    same(tar, t0, "input"), same(non, n0, "input")
    c = hcllr.compute_cllr(tar, non)
    ref = (np.mean(sp(tar)) + np.mean(sp(-non))) / np.log(2) / 2
    bad = (np.mean(sp(tar)) + np.mean(sp(non))) / np.log(2) / 2
    if abs(c - bad) < 1e-6 * max(1, bad):
        close(c, ref, "Cllr takes the non-target scores with the sign of target scores", 1e-6)
    close(c, ref, "Cllr", 1e-6)


@case("C08", "metrics.confusion", [M + "confusion_matrix:compute_confusion_matrix", M + "confusion_matrix:compute_xlabel_confusion_matrix", M + "acc:compute_accuracy", M + "confusion_matrix:write_confusion_matrix", M + "confusion_matrix:print_confusion_matrix"], weight=1.5)
def conf(r):
    K = r.size(1, 4)
    n = r.size(1, 10)
    strs = r.bool()
    lab = r.perm(list(range(0, 3 * K, 3)) if r.bool() else list(range(K)))
    nm = ["ab%03d" % k for k in lab] if strs else lab
    yt = np.array([r.py.choice(nm) for _ in range(n)])
    yp = np.array([r.py.choice(nm) for _ in range(n)])
    yt0, yp0 = yt.copy(), yp.copy()
    w = r.posarr(n) if r.bool(0.4) else None
    ww = np.ones(n) if w is None else w
    given = r.bool()
    labs = np.array(nm) if given else np.unique(np.concatenate((yt, yp)))
    L0 = labs.copy()
    C = np.array([[np.sum(ww * (yt == a) * (yp == b)) for b in labs] for a in labs])
    nz = r.bool()
    if nz and np.any(C.sum(1) == 0):
        nz = False
    R = C / C.sum(1, keepdims=True) if nz else C
    close(hcm.compute_confusion_matrix(yt, yp, labs if given else None, normalize=nz, sample_weight=w), R, "confusion matrix", 1e-9)
    close(hacc.compute_accuracy(yt, yp, normalize=True, sample_weight=w), np.average(yt == yp, weights=ww), "accuracy", 1e-9)
    close(hacc.compute_accuracy(yt, yp, normalize=False, sample_weight=w), np.sum((yt == yp) * ww), "number of correct", 1e-9)
    same(yt, yt0, "input"), same(yp, yp0, "input"), same(labs, L0, "labels")
    # different train and test labels
    K2 = r.size(1, 4)
    lt = (["cd%03d" % k for k in range(K2)] if strs else list(range(K2)))
    yq = np.array([r.py.choice(lt) for _ in range(n)]) if not strs else np.array([r.py.choice(lt) for _ in range(n)]).astype(yt.dtype)
    yq = yq.astype(yt.dtype)
    yq0 = yq.copy()
    ltr = (np.array(lt) if given else np.unique(yq)).astype(yt.dtype)
    lte = (np.array(nm) if given else np.unique(yt)).astype(yt.dtype)
    g0, h0 = ltr.copy(), lte.copy()
    C = np.array([[np.sum(ww * (yt == a) * (yq == b)) for b in ltr] for a in lte])
    nz = nz and not np.any(C.sum(1) == 0)
    R = C / C.sum(1, keepdims=True) if nz else C
    # scikit-learn 0.24 truncates weighted counts of integer weights only
    got = hcm.compute_xlabel_confusion_matrix(yt, yq, ltr if given else None, lte if given else None, normalize=nz, sample_weight=w)
    close(got, R, "confusion matrix of different label sets", 1e-9)
    same(yt, yt0, "true labels"), same(yq, yq0, "predicted labels"), same(ltr, g0, "training labels"), same(lte, h0, "test labels")
    # text output
    f = io.StringIO()
    hcm.write_confusion_matrix(f, np.asarray(np.round(C), int) + 2, [str(x) for x in lte], [str(x) for x in ltr])
    rows = [l.split() for l in f.getvalue().splitlines()]
    same(rows[0], [str(x) for x in ltr], "header")
    for i, x in enumerate(lte):
        same(rows[1 + i], [str(x)] + [str(int(c) + 2) for c in np.round(C[i])], "row of the matrix")
    old, _sys.stdout = _sys.stdout, io.StringIO()
    try:
        hcm.print_confusion_matrix(np.asarray(np.round(C), int) + 2, [str(x) for x in lte], [str(x) for x in ltr])
        out = _sys.stdout.getvalue()
    finally:
        _sys.stdout = old
    check(out == f.getvalue(), "printed matrix")
