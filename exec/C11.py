import os
from harness import *
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_key import TrialKey

TN, TK = "hyperion.utils.trial_ndx:TrialNdx.", "hyperion.utils.trial_key:TrialKey."


def names(r, n, pre):
    k = [pre + x for x in r.names(n)]
    return np.array(k) if r.bool() else k


def ndx_of(r, lo=1, hi=6, models=None, segs=None):
    m = names(r, r.size(lo, hi), "m") if models is None else models
    s = names(r, r.size(lo, hi), "s") if segs is None else segs
    return TrialNdx(m, s, None if r.bool(0.15) else r.mask(len(m), len(s)))


def dn(x):
    """(model, segment) -> trial"""
    check(x.trial_mask.shape == (len(x.model_set), len(x.seg_set)), "shape of the mask")
    check(len(set(map(str, x.model_set))) == len(x.model_set) and len(set(map(str, x.seg_set))) == len(x.seg_set), "unique names")
    return {(str(m), str(s)): bool(x.trial_mask[i, j]) for i, m in enumerate(x.model_set) for j, s in enumerate(x.seg_set)}


CONDS = ("model_cond", "seg_cond", "trial_cond")


def key_of(r, lo=1, hi=6, models=None, segs=None, conds=None, nc=None):
    m = names(r, r.size(lo, hi), "m") if models is None else models
    s = names(r, r.size(lo, hi), "s") if segs is None else segs
    n, t = len(m), len(s)
    tar = r.mask(n, t)
    non = r.mask(n, t) & ~tar
    conds = [r.bool() for _ in CONDS] if conds is None else conds
    nc = [r.size(1, 3) for _ in CONDS] if nc is None else nc
    shp = ((n,), (t,), (n, t))
    c = [r.mask(nc[i], *shp[i]) if conds[i] else None for i in range(3)]
    nm = [np.array(["c%d" % j for j in range(nc[i])]) if conds[i] else None for i in range(3)]
    return TrialKey(m, s, tar, non, *(c + nm))


def dk(x):
    """((model, segment) -> trial, model -> conditions, segment -> conditions)"""
    n, t = len(x.model_set), len(x.seg_set)
    check(x.tar.shape == (n, t) and x.non.shape == (n, t), "shapes")
    M, S = [str(m) for m in x.model_set], [str(s) for s in x.seg_set]
    tr = {}
    for i, m in enumerate(M):
        for j, s in enumerate(S):
            tr[m, s] = (bool(x.tar[i, j]), bool(x.non[i, j]), None if x.trial_cond is None else tuple(bool(v) for v in x.trial_cond[:, i, j]))
    mc = None if x.model_cond is None else {m: tuple(bool(v) for v in x.model_cond[:, i]) for i, m in enumerate(M)}
    sc = None if x.seg_cond is None else {s: tuple(bool(v) for v in x.seg_cond[:, j]) for j, s in enumerate(S)}
    nm = tuple(None if v is None else tuple(map(str, v)) for v in (x.model_cond_name, x.seg_cond_name, x.trial_cond_name))
    return tr, mc, sc, nm


def subk(d, M, S):
    tr, mc, sc, nm = d
    return ({(m, s): tr[m, s] for m in M for s in S}, None if mc is None else {m: mc[m] for m in M}, None if sc is None else {s: sc[s] for s in S}, nm)


def L(x):
    return [str(v) for v in x]


def some(r, x, lo=0):
    x = list(x)
    r.py.shuffle(x)
    return x[:r.int(min(lo, len(x)), len(x))]


@case("C11", "trials.ndx_sort_split", targets=[TN + "sort", TN + "split", TN + "merge", TN + "copy"])
def k_ndx1(r):
    x = ndx_of(r)
    d = dn(x)
    M, S = L(x.model_set), L(x.seg_set)
    nm, ns = r.int(1, len(M)), r.int(1, len(S))
    parts = [x.split(i + 1, nm, j + 1, ns) for i in range(nm) for j in range(ns)]
    for k, p in enumerate(parts):
        dp = dn(p)
        check(all(d[q] == v for q, v in dp.items()), "trials of part %d" % k)
    check(sum(len(dn(p)) for p in parts) == len(d) and set().union(*[set(dn(p)) for p in parts]) == set(d), "the parts cover the trials once")
    y = TrialNdx.merge(parts)
    check(dn(y) == d, "merge of the parts")
    z = x.copy()
    z.sort()
    check(L(z.model_set) == sorted(M) and L(z.seg_set) == sorted(S), "sorted names")
    check(dn(z) == d, "trials after sorting")
    check(dn(x) == d and L(x.model_set) == M and L(x.seg_set) == S, "input modified")
    if nm * ns > 1:
        check(y == z, "merged parts are the sorted index")


@case("C11", "trials.ndx_merge", targets=[TN + "merge"])
def k_ndx2(r):
    pm, ps = ["m%d" % i for i in range(8)], ["s%d" % i for i in range(8)]
    xs = [ndx_of(r, models=np.array(some(r, pm, 1)), segs=np.array(some(r, ps, 1))) for _ in range(r.size(1, 4))]
    ds = [dn(x) for x in xs]
    y = TrialNdx.merge(xs)
    dy = dn(y)
    M, S = set().union(*[L(x.model_set) for x in xs]), set().union(*[L(x.seg_set) for x in xs])
    check(set(L(y.model_set)) == M and set(L(y.seg_set)) == S, "names of the merged index")
    for q in dy:
        check(dy[q] == any(d.get(q, False) for d in ds), "trial %s: %s" % (q, dy[q]))
    check([dn(x) for x in xs] == ds, "input modified")


@case("C11", "trials.ndx_filter", targets=[TN + "filter"])
def k_ndx3(r):
    x = ndx_of(r)
    d = dn(x)
    M, S = L(x.model_set), L(x.seg_set)
    keep = r.bool()
    fm, fs = some(r, M), some(r, S)
    if not keep and r.bool():
        fm, fs = fm + ["m-none"], fs + ["s-none"]
    y = x.filter(np.array(fm, dtype="U20") if r.bool() else fm, np.array(fs, dtype="U20") if r.bool() else fs, keep=keep)
    em, es = (fm, fs) if keep else ([m for m in M if m not in fm], [s for s in S if s not in fs])
    check(sorted(L(y.model_set)) == sorted(em) and sorted(L(y.seg_set)) == sorted(es), "names after the filter")
    check(dn(y) == {(m, s): d[m, s] for m in em for s in es}, "trials after the filter")
    check(dn(x) == d, "input modified")
    raises(lambda: x.filter(["m-none"], S), "unknown model", AssertionError)
    raises(lambda: x.filter(M, ["s-none"]), "unknown segment", AssertionError)


@case("C11", "trials.ndx_save_load", targets=[TN + "save", TN + "load", TN + "save_h5", TN + "load_h5", TN + "save_txt", TN + "load_txt"])
def k_ndx4(r):
    x = ndx_of(r)
    ext = r.pick("h5", "hdf5", "txt", "ndx")
    if ext in ("txt", "ndx"):
        # text files have the trials only
        x.trial_mask[:, r.int(0, x.num_tests - 1)] = True
        x.trial_mask[r.int(0, x.num_models - 1), :] = True
    d = dn(x)
    f = os.path.join(r.tmp, "x." + ext)
    x.save(f)
    y = TrialNdx.load(f)
    check(dn(y) == d, "round trip (%s)" % ext)
    if ext in ("h5", "hdf5"):
        check(y == x and not y != x, "equal after the round trip")
        check(L(y.model_set) == L(x.model_set) and L(y.seg_set) == L(x.seg_set), "order")
    check(dn(x) == d, "input modified")


@case("C11", "trials.ndx_eq", targets=[TN + "__eq__", TN + "__ne__", TN + "validate"])
def k_ndx5(r):
    x = ndx_of(r)
    y = x.copy()
    check(x == y and not x != y, "copies are equal")
    k = r.pick("model", "seg", "mask", "size")
    if k == "model":
        y.model_set = np.array(L(y.model_set)[:-1] + ["other"])
    elif k == "seg":
        y.seg_set = np.array(L(y.seg_set)[:-1] + ["other"])
    elif k == "mask":
        i, j = r.int(0, y.num_models - 1), r.int(0, y.num_tests - 1)
        y.trial_mask[i, j] = not y.trial_mask[i, j]
    else:
        y = TrialNdx(L(x.model_set) + ["m-x"], L(x.seg_set))
    check(not x == y and x != y, "different index (%s)" % k)
    raises(lambda: TrialNdx(["a", "a"], ["b"]), "repeated model", AssertionError)
    raises(lambda: TrialNdx(["a"], ["b"], np.ones((2, 1), dtype=bool)), "wrong shape", AssertionError)


@case("C11", "trials.key_sort_split", targets=[TK + "sort", TK + "split", TK + "merge", TK + "copy"])
def k_key1(r):
    x = key_of(r)
    d = dk(x)
    M, S = L(x.model_set), L(x.seg_set)
    nm, ns = r.int(1, len(M)), r.int(1, len(S))
    parts = [x.split(i + 1, nm, j + 1, ns) for i in range(nm) for j in range(ns)]
    seen = []
    for k, p in enumerate(parts):
        dp = dk(p)
        check(dp == subk(d, L(p.model_set), L(p.seg_set)), "part %d" % k)
        seen += list(dp[0])
    check(sorted(seen) == sorted(d[0]), "the parts cover the trials once")
    check(dk(TrialKey.merge(parts)) == d, "merge of the parts")
    z = x.copy()
    z.sort()
    check(L(z.model_set) == sorted(M) and L(z.seg_set) == sorted(S), "sorted names")
    check(dk(z) == d, "key after sorting")
    check(dk(x) == d and L(x.model_set) == M and L(x.seg_set) == S, "input modified")


@case("C11", "trials.key_merge", targets=[TK + "merge"])
def k_key2(r):
    pm, ps = ["m%d" % i for i in range(7)], ["s%d" % i for i in range(7)]
    conds, nc = [r.bool() for _ in CONDS], [r.size(1, 3) for _ in CONDS]
    xs = [key_of(r, models=np.array(some(r, pm, 1)), segs=np.array(some(r, ps, 1)), conds=conds, nc=nc) for _ in range(r.size(1, 4))]
    ds = [dk(x) for x in xs]
    y = TrialKey.merge(xs)
    ty, my, sy, ny = dk(y)
    M, S = set().union(*[L(x.model_set) for x in xs]), set().union(*[L(x.seg_set) for x in xs])
    check(set(L(y.model_set)) == M and set(L(y.seg_set)) == S, "names of the merged key")
    check(ny == ds[0][3], "names of the conditions")

    def anyof(vals, n):
        return tuple(any(v[k] for v in vals) for k in range(n))
    for q in ty:
        v = [d[0][q] for d in ds if q in d[0]]
        check(ty[q][:2] == anyof(v, 2), "trial %s" % (q,))
        if conds[2]:
            check(ty[q][2] == anyof([w[2] for w in v], nc[2]), "conditions of trial %s" % (q,))
        else:
            check(ty[q][2] is None, "no trial conditions")
    for k, g in ((1, my), (2, sy)):
        check((g is not None) == conds[k - 1], "presence of conditions")
        if g is not None:
            for q in g:
                check(g[q] == anyof([d[k][q] for d in ds if q in d[k]], nc[k - 1]), "conditions of %s" % q)
    check([dk(x) for x in xs] == ds, "input modified")


@case("C11", "trials.key_filter", targets=[TK + "filter"])
def k_key3(r):
    x = key_of(r)
    d = dk(x)
    M, S = L(x.model_set), L(x.seg_set)
    keep = r.bool()
    fm, fs = some(r, M), some(r, S)
    y = x.filter(np.array(fm, dtype="U20") if r.bool() else fm, np.array(fs, dtype="U20") if r.bool() else fs, keep=keep)
    em, es = (fm, fs) if keep else ([m for m in M if m not in fm], [s for s in S if s not in fs])
    check(sorted(L(y.model_set)) == sorted(em) and sorted(L(y.seg_set)) == sorted(es), "names after the filter")
    check(dk(y) == subk(d, em, es), "key after the filter")
    check(dk(x) == d, "input modified")
    raises(lambda: x.filter(["m-none"], S), "unknown model", AssertionError)
    raises(lambda: x.filter(M, ["s-none"]), "unknown segment", AssertionError)


@case("C11", "trials.key_save_load", targets=[TK + "save", TK + "load", TK + "save_h5", TK + "load_h5", TK + "save_txt", TK + "load_txt"])
def k_key4(r):
    ext = r.pick("h5", "key", "txt")
    x = key_of(r, conds=[False] * 3 if ext == "txt" else None)
    if ext == "txt":
        x.tar[:, r.int(0, x.num_tests - 1)] = True
        x.non[r.int(0, x.num_models - 1), :] = True
        x.non &= ~x.tar
    d = dk(x)
    f = os.path.join(r.tmp, "x." + ext)
    x.save(f)
    y = TrialKey.load(f)
    check(dk(y) == d, "round trip (%s)" % ext)
    if ext != "txt":
        check(y == x and not y != x, "equal after the round trip")
        check(L(y.model_set) == L(x.model_set) and L(y.seg_set) == L(x.seg_set), "order")
    check(dk(x) == d, "input modified")


@case("C11", "trials.key_eq", targets=[TK + "__eq__", TK + "__ne__", TK + "validate", TK + "to_ndx"])
def k_key5(r):
    x = key_of(r)
    y = x.copy()
    check(x == y and not x != y, "copies are equal")
    n = x.to_ndx()
    check(dn(n) == {q: v[0] or v[1] for q, v in dk(x)[0].items()}, "to_ndx")
    k = r.pick("tar", "non", "model_cond", "seg_cond", "trial_cond", "trial_cond_name", "seg_set")
    v = getattr(y, k)
    if v is None:
        raise Skip()
    if v.dtype == bool:
        i = tuple(r.int(0, m - 1) for m in v.shape)
        v[i] = not v[i]
    else:
        setattr(y, k, np.array(L(v)[:-1] + ["other"]))
    check(not x == y and x != y, "different key (%s)" % k)
    raises(lambda: TrialKey(["a", "a"], ["b"]), "repeated model", AssertionError)
    raises(lambda: TrialKey(["a"], ["b"], np.ones((2, 1), dtype=bool), np.ones((1, 1), dtype=bool)), "wrong shape", AssertionError)
