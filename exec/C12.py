import os
import logging
from harness import *
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_scores import TrialScores
from C11 import names, some, L, ndx_of, key_of

logging.disable(logging.CRITICAL)
TS = "hyperion.utils.trial_scores:TrialScores."


def scr_of(r, lo=1, hi=6, models=None, segs=None, mask=None):
    m = names(r, r.size(lo, hi), "m") if models is None else models
    s = names(r, r.size(lo, hi), "s") if segs is None else segs
    k = r.mask(len(m), len(s)) if mask is None else mask
    if mask is None and r.bool(0.2):
        k = None
    return TrialScores(m, s, r.arr(len(m), len(s)), k)


def ds(x):
    """(model, segment) -> score of the scored trials"""
    n = (len(x.model_set), len(x.seg_set))
    check(x.scores.shape == n and x.score_mask.shape == n, "shapes")
    return {(str(m), str(s)): float(x.scores[i, j]) for i, m in enumerate(x.model_set) for j, s in enumerate(x.seg_set) if x.score_mask[i, j]}


def nm(x):
    return L(x.model_set), L(x.seg_set)


def eqd(a, b, msg, tol=0):
    check(set(a) == set(b), "%s: trials with score: %s expected %s" % (msg, sorted(a)[:5], sorted(b)[:5]))
    for q in a:
        check(abs(a[q] - b[q]) <= tol, "%s: score of %s: %s expected %s" % (msg, q, a[q], b[q]))


@case("C12", "scores.sort_split", targets=[TS + "sort", TS + "split", TS + "merge", TS + "copy"])
def k1(r):
    x = scr_of(r)
    d = ds(x)
    M, S = nm(x)
    n, t = r.int(1, len(M)), r.int(1, len(S))
    parts = [x.split(i + 1, n, j + 1, t) for i in range(n) for j in range(t)]
    cov = []
    for k, p in enumerate(parts):
        pm, ps = nm(p)
        eqd(ds(p), {(m, s): v for (m, s), v in d.items() if m in pm and s in ps}, "part %d" % k)
        cov += [(m, s) for m in pm for s in ps]
    check(sorted(cov) == sorted((m, s) for m in M for s in S), "the parts cover the trials once")
    y = TrialScores.merge(parts)
    eqd(ds(y), d, "merge of the parts")
    z = x.copy()
    z.sort()
    check(nm(z) == (sorted(M), sorted(S)), "sorted names")
    eqd(ds(z), d, "scores after sorting")
    check(nm(x) == (M, S), "input modified")
    eqd(ds(x), d, "input modified")


@case("C12", "scores.merge", targets=[TS + "merge"])
def k2(r):
    pm, ps = ["m%d" % i for i in range(7)], ["s%d" % i for i in range(7)]
    xs, used = [], set()
    for _ in range(r.size(1, 4)):
        m, s = some(r, pm, 1), some(r, ps, 1)
        k = np.array([[r.bool() and (a, b) not in used for b in s] for a in m])
        used |= set((a, b) for i, a in enumerate(m) for j, b in enumerate(s) if k[i, j])
        xs.append(scr_of(r, models=np.array(m), segs=np.array(s), mask=k))
    d = [ds(x) for x in xs]
    y = TrialScores.merge(xs)
    ref = {}
    for q in d:
        ref.update(q)
    eqd(ds(y), ref, "merged scores", tol=1e-12)
    check((set(y.model_set), set(y.seg_set)) == (set().union(*[x.model_set for x in xs]), set().union(*[x.seg_set for x in xs])), "names of the merged scores")
    for x, q in zip(xs, d):
        eqd(ds(x), q, "input modified")
    if ref:
        (a, b) = sorted(ref)[0]
        z = TrialScores(np.array([a]), np.array([b]), np.array([[1.0]]))
        raises(lambda: TrialScores.merge(xs + [z]), "the same trial twice", AssertionError)


@case("C12", "scores.filter", targets=[TS + "filter"])
def k3(r):
    x = scr_of(r)
    d = ds(x)
    M, S = nm(x)
    keep = r.bool()
    fm, fs = some(r, M), some(r, S)
    if not keep and r.bool():
        fm, fs = fm + ["m-none"], fs + ["s-none"]
    arr = lambda v: np.array(v, dtype="U20") if r.bool() else v
    y = x.filter(arr(fm), arr(fs), keep=keep)
    em, es = (fm, fs) if keep else ([m for m in M if m not in fm], [s for s in S if s not in fs])
    check(sorted(nm(y)[0]) == sorted(em) and sorted(nm(y)[1]) == sorted(es), "names after the filter: %s expected %s" % (nm(y), (em, es)))
    eqd(ds(y), {q: v for q, v in d.items() if q[0] in em and q[1] in es}, "filter")
    gm, gs = some(r, M + ["m-none"]), some(r, S + ["s-none"])
    if "m-none" in gm or "s-none" in gs:
        raises(lambda: x.filter(gm, gs), "missing names")
        y = x.filter(np.array(gm, dtype="U20"), np.array(gs, dtype="U20"), raise_missing=False)
        check(nm(y) == (gm, gs), "names of the filter with missing names")
        eqd(ds(y), {q: v for q, v in d.items() if q[0] in gm and q[1] in gs}, "filter with missing names")
    eqd(ds(x), d, "input modified")


def trials(k):
    mask = k.trial_mask if isinstance(k, TrialNdx) else k.tar | k.non
    return [(str(m), str(s)) for i, m in enumerate(k.model_set) for j, s in enumerate(k.seg_set) if mask[i, j]]


@case("C12", "scores.align", targets=[TS + "align_with_ndx", TS + "set_missing_to_value"])
def k4(r):
    x = scr_of(r)
    d = ds(x)
    M, S = nm(x)
    miss = r.bool(0.4)
    km, ks = some(r, M + (["m-none"] if miss else []), 1), some(r, S + (["s-none"] if miss else []), 1)
    k = r.pick(ndx_of, key_of)(r, models=np.array(km), segs=np.array(ks))
    if r.bool():
        mask = np.array([[(m, s) in d for s in ks] for m in km])
        if isinstance(k, TrialNdx):
            k.trial_mask &= mask
        else:
            k.tar &= mask
            k.non &= mask
    T = trials(k)
    ref = {q: d[q] for q in T if q in d}
    complete = all(q in d for q in T) and "m-none" not in km and "s-none" not in ks
    if complete:
        y = x.align_with_ndx(k)
        check(nm(y) == nm(k), "names are those of the index")
        eqd(ds(y), ref, "aligned scores")
    else:
        raises(lambda: x.align_with_ndx(k), "missing scores")
    y = x.align_with_ndx(k, raise_missing=False)
    check(nm(y) == nm(k), "names are those of the index")
    eqd(ds(y), ref, "aligned scores")
    v = r.real()
    z = x.set_missing_to_value(k, v)
    check(nm(z) == nm(k), "names are those of the index (missing)")
    eqd(ds(z), {q: d.get(q, v) for q in T}, "missing trials")
    check(nm(x) == (M, S), "input modified")
    eqd(ds(x), d, "input modified")
    check(trials(k) == T, "index modified")


@case("C12", "scores.get_tar_non", targets=[TS + "get_tar_non"])
def k5(r):
    x = scr_of(r)
    x.score_mask = np.ones(x.scores.shape, dtype=bool)
    d = ds(x)
    M, S = nm(x)
    k = key_of(r, models=np.array(some(r, M, 1)), segs=np.array(some(r, S, 1)))
    drop = [q for q in d if q not in trials(k)]
    if drop and r.bool():
        q = drop[r.int(0, len(drop) - 1)]
        x.score_mask[M.index(q[0]), S.index(q[1])] = False
    tar, non = x.get_tar_non(k)
    et = [d[str(m), str(s)] for i, m in enumerate(k.model_set) for j, s in enumerate(k.seg_set) if k.tar[i, j]]
    en = [d[str(m), str(s)] for i, m in enumerate(k.model_set) for j, s in enumerate(k.seg_set) if k.non[i, j]]
    same(np.asarray(tar), np.array(et), "target scores")
    same(np.asarray(non), np.array(en), "non-target scores")
    T = trials(k)
    if T:
        q = T[r.int(0, len(T) - 1)]
        x.score_mask[M.index(q[0]), S.index(q[1])] = False
        raises(lambda: x.get_tar_non(k), "missing score of a trial")


@case("C12", "scores.transform", targets=[TS + "transform", TS + "__eq__", TS + "__ne__", TS + "validate"])
def k6(r):
    x = scr_of(r)
    y = x.copy()
    check(x == y and not x != y, "copies are equal")
    a, b = r.real(), r.real()
    y.transform(lambda v: a * v + b)
    e = np.where(x.score_mask, a * x.scores + b, x.scores)
    same(y.scores, e, "transformed scores")
    same(y.score_mask, x.score_mask, "mask")
    z = x.copy()
    k = r.pick("scores", "mask", "model", "seg")
    i, j = r.int(0, x.num_models - 1), r.int(0, x.num_tests - 1)
    if k == "scores":
        z.scores[i, j] += 1
    elif k == "mask":
        z.score_mask[i, j] = not z.score_mask[i, j]
    elif k == "model":
        z.model_set = np.array(L(z.model_set)[:-1] + ["other"])
    else:
        z.seg_set = np.array(L(z.seg_set)[:-1] + ["other"])
    check(not x == z and x != z, "different scores (%s)" % k)
    w = TrialScores(L(x.model_set), L(x.seg_set))
    check(w.scores.shape == x.scores.shape and np.all(w.scores == 0) and np.all(w.score_mask), "scores without values")
    raises(lambda: TrialScores(["a", "a"], ["b"], np.zeros((2, 1))), "repeated model", AssertionError)
    raises(lambda: TrialScores(["a"], ["b"], np.zeros((2, 1))), "wrong shape", AssertionError)
    raises(lambda: TrialScores(["a"], ["b"], np.array([[r.pick(np.nan, np.inf)]])), "not finite", AssertionError)


@case("C12", "scores.save_load", targets=[TS + "save", TS + "load", TS + "save_h5", TS + "load_h5", TS + "save_txt", TS + "load_txt"])
def k7(r):
    ext = r.pick("h5", "scores", "txt")
    x = scr_of(r)
    if ext == "txt":
        x.score_mask[:, r.int(0, x.num_tests - 1)] = True
        x.score_mask[r.int(0, x.num_models - 1), :] = True
    d = ds(x)
    f = os.path.join(r.tmp, "x." + ext)
    x.save(f)
    y = TrialScores.load(f)
    eqd(ds(y), d, "round trip (%s)" % ext, tol=1e-6 if ext == "txt" else 0)
    if ext != "txt":
        check(nm(y) == nm(x), "order")
        check(y == x, "equal after the round trip")
    else:
        check(sorted(nm(y)[0]) == sorted(nm(x)[0]) and sorted(nm(y)[1]) == sorted(nm(x)[1]), "names")
    eqd(ds(x), d, "input modified")
