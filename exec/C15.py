import os
from harness import *
from hyperion.utils.fold_list import FoldList
from hyperion.utils.train_val_eval_list import TrainValEvalList

FL, TV = "hyperion.utils.fold_list:FoldList.", "hyperion.utils.train_val_eval_list:TrainValEvalList."


def data(r, many=True):
    n = r.size(1, 25)
    key = np.array(r.names(n, "k"))
    bal = np.array(["c%d" % c for c in r.labels(n, max(1, min(3, n)))]) if r.bool(.5) else None
    grp = np.array(["g%d" % g for g in r.ints_arr(0, max(1, n // 2), n)]) if r.bool(.5) else None
    mask = (r.np.uniform(size=n) < .8) if r.bool(.4) else None
    if mask is not None and not mask.any():
        mask[0] = True
    return key, bal, grp, mask


def group_counts(key, bal, grp, mask, part):
    """class -> {part: number of groups}; groups are not split inside a class"""
    g = key if grp is None else grp
    b = np.zeros(len(key), int) if bal is None else bal
    m = np.ones(len(key), bool) if mask is None else mask
    out = {}
    for c in np.unique(b[m]):
        where = {}
        for i in np.flatnonzero((b == c) & m):
            where.setdefault(g[i], set()).add(int(part[i]))
        check(all(len(s) == 1 for s in where.values()), "a group of class %s is in several parts" % c)
        out[c] = where
    return out


@case("C15", "folds.create", targets=[FL + "create", FL + "validate"])
def k1(r):
    key, bal, grp, mask = data(r)
    nf = r.int(1, 5)
    k0 = key.copy(), None if bal is None else bal.copy(), None if grp is None else grp.copy(), None if mask is None else mask.copy()
    shuffle, seed = r.bool(), r.int(0, 999)
    ref = group_counts(key, bal, grp, mask, np.zeros(len(key), int))
    try:
        f = FoldList.create(key, nf, bal, grp, mask, shuffle, seed)
    except AssertionError:
        # only when there are not enough groups to fill the folds
        check(max(len(w) for w in ref.values()) < nf, "folds refused: %d groups, %d folds" % (max(len(w) for w in ref.values()), nf))
        raise Skip
    for a, b in zip((key, bal, grp, mask), k0):
        if a is not None:
            same(a, b, "inputs")
    m = np.ones(len(key), bool) if mask is None else mask
    check(f.num_folds <= nf and len(f) == f.num_folds, "number of folds %s (len %s), asked for %d" % (f.num_folds, len(f), nf))
    check(np.all(f.fold[m] >= 0) and np.all(f.fold[m] < nf), "fold of each element")
    same(f.key, key, "keys")
    for c, w in group_counts(key, bal, grp, mask, f.fold).items():
        cnt = np.bincount([next(iter(s)) for s in w.values()], minlength=nf)
        check(cnt.max() - cnt.min() <= 1, "groups of class %s per fold: %s" % (c, cnt))
    g = FoldList.create(key, nf, bal, grp, mask, shuffle, seed)
    same(f.fold, g.fold, "same seed, same folds")
    tests = []
    for j in range(f.num_folds):
        tr, te = f[j]
        check(not set(tr) & set(te), "training and test of fold %d" % j)
        check(set(tr) | set(te) == set(key[m]), "elements of fold %d" % j)
        if grp is not None and bal is None:
            ga = dict(zip(key, grp))
            check(not {ga[k] for k in tr} & {ga[k] for k in te}, "groups in training and test of fold %d" % j)
        tests += list(te)
    check(sorted(tests) == sorted(key[m]), "each element is tested once")


@case("C15", "folds.idx", targets=[FL + "get_fold_idx", FL + "get_fold", FL + "__getitem__", FL + "num_folds", FL + "__len__", FL + "copy"])
def k2(r):
    n = r.int(1, 20)
    nf = r.int(1, min(4, n))
    fold = np.concatenate([np.arange(nf), r.ints_arr(-1, nf - 1, n - nf)])[r.perm(n)]
    key = np.array(r.names(n, "k"))
    mask = r.mask(n) if r.bool() else None
    f = FoldList(fold, key, mask)
    check(len(f) == nf and f.num_folds == nf, "number of folds")
    m = np.ones(n, bool) if mask is None else mask
    for j in range(nf):
        a, b = f.get_fold_idx(j)
        same(b, (fold == j) & m, "test of fold")
        same(a, (fold != j) & m, "training of fold")
        x, y = f[j]
        same(x, key[a], "training keys")
        same(y, key[b], "test keys")
    g = f.copy()
    g.fold[:] = -5
    check(np.all(f.fold >= -1), "copy")


@case("C15", "folds.align", targets=[FL + "align_with_key", TV + "align_with_key"])
def k3(r):
    n = r.int(1, 15)
    nf = r.int(1, min(4, n))
    fold = np.concatenate([np.arange(nf), r.ints_arr(0, nf - 1, n - nf)])[r.perm(n)]
    key = np.array(r.names(n, "k"))
    mask = r.mask(n) if r.bool() else None
    for cls, nm in ((FoldList, "fold"), (TrainValEvalList, "part")):
        f = cls(fold.copy(), key.copy(), None if mask is None else mask.copy()) if cls is FoldList else cls(key.copy(), fold.copy(), None, None if mask is None else mask.copy())
        p = r.perm(n)[:r.int(1, n)]
        f.align_with_key(key[p])
        same(f.key, key[p], "keys")
        same(getattr(f, nm), fold[p], nm)
        if mask is not None:
            same(f.mask, mask[p], "mask")
        before = f.key.copy(), getattr(f, nm).copy()
        raises(lambda: f.align_with_key(np.array(["zz"] + list(key[p]))), "missing key")
        same(f.key, before[0], "keys after refusal")
        same(getattr(f, nm), before[1], nm + " after refusal")


@case("C15", "folds.save_load", targets=[FL + "save", FL + "load", TV + "save", TV + "load"])
def k4(r):
    n = r.int(1, 15)
    nf = r.int(1, min(4, n))
    fold = np.concatenate([np.arange(nf), r.ints_arr(-1 if r.bool() else 0, nf - 1, n - nf)])[r.perm(n)]
    key = np.array(r.names(n, "k"))
    sep = r.pick(" ", ",", ":")
    p = os.path.join(r.tmp, "folds")
    FoldList(fold, key).save(p, sep=sep)
    g = FoldList.load(p, sep=sep)
    same(g.fold, fold, "folds")
    same(g.key, key, "keys")
    names = np.array(["p_%d" % i for i in r.perm(nf)]) if r.bool() else None
    if r.bool() and names is not None:
        names = list(names)
    TrainValEvalList(key, fold, names).save(p, sep=sep)
    g = TrainValEvalList.load(p, sep=sep)
    same(g.part, fold, "parts")
    same(g.key, key, "keys")
    if names is None:
        check(g.part_names is None, "no part names")
    else:
        check(list(g.part_names) == list(names), "part names: %s expected %s" % (g.part_names, names))
        for k, nm in enumerate(names):
            same(g.get_part_idx(str(nm)), fold == k, "part by name")
            same(g[str(nm)], key[fold == k], "keys of the part by name")


@case("C15", "parts.create", targets=[TV + "create", TV + "get_part_idx", TV + "get_part", TV + "__getitem__", TV + "num_parts", TV + "__len__", TV + "validate"])
def k5(r):
    key, bal, grp, mask = data(r)
    np_ = r.int(2, 3)
    prop = r.np.dirichlet(np.ones(np_))[:-1] if r.bool() else np.full(np_ - 1, 1. / np_)
    names = r.pick(None, ["a", "b", "c"][:np_])
    shuffle, seed = r.bool(), r.int(0, 999)
    ref = group_counts(key, bal, grp, mask, np.zeros(len(key), int))
    cum = np.concatenate([[0], np.cumsum(prop), [1]])
    exp = {c: [int(round(cum[j + 1] * len(w))) - int(round(cum[j] * len(w))) for j in range(np_)] for c, w in ref.items()}
    tot = np.sum([exp[c] for c in exp], axis=0)
    try:
        f = TrainValEvalList.create(key, list(prop) if r.bool() else prop, names, bal, grp, mask, shuffle, seed)
    except AssertionError:
        check(np.any(tot[:np.flatnonzero(tot)[-1]] == 0), "parts refused: sizes %s" % tot)
        raise Skip
    m = np.ones(len(key), bool) if mask is None else mask
    check(np.all(f.part[m] >= 0), "part of each element")
    same(f.key, key, "keys")
    for c, w in group_counts(key, bal, grp, mask, f.part).items():
        cnt = np.bincount([next(iter(s)) for s in w.values()], minlength=np_)
        check(np.max(np.abs(cnt - exp[c])) <= 1, "groups of class %s per part: %s expected %s" % (c, cnt, exp[c]))
        check(np.max(np.abs(cnt - np.diff(cum) * len(w))) <= 1 + 1e-9, "proportions of class %s: %s of %d" % (c, cnt, len(w)))
    nm = names or (["train", "val", "eval"] if np_ == 3 else ["train", "eval"])
    check(len(f) == f.num_parts() <= np_, "number of parts")
    seen = []
    for j in range(f.num_parts()):
        same(f.get_part_idx(nm[j]), (f.part == j) & m, "part by name")
        same(f.get_part_idx(j), (f.part == j) & m, "part by number")
        same(f[j], key[(f.part == j) & m], "keys of the part")
        same(f.get_part(nm[j]), key[(f.part == j) & m], "keys of the part by name")
        seen += list(f[j])
    check(sorted(seen) == sorted(key[m]), "each element is in one part")
    g = TrainValEvalList.create(key, prop, names, bal, grp, mask, shuffle, seed)
    same(f.part, g.part, "same seed, same parts")
