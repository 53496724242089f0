import os
from harness import *
from hyperion.utils import list_utils as L
from hyperion.utils.scp_list import SCPList

LU, SL = "hyperion.utils.list_utils", "hyperion.utils.scp_list:SCPList."


def rows(s):
    """the rows of a script list as comparable tuples"""
    n = len(s.key)
    check(len(s.file_path) == n, "length of file_path")
    o = [None] * n if s.offset is None else [int(v) for v in s.offset]
    q = [None] * n if s.range_spec is None else [tuple(int(w) for w in v) for v in s.range_spec]
    check(len(o) == n and len(q) == n, "lengths of offset and range")
    return [(str(k), str(p), a, b) for k, p, a, b in zip(s.key, s.file_path, o, q)]


def make(r, lo=0, hi=7, dup=None, rng=None, off=None, text=False):
    n = r.size(lo, hi)
    key = r.names(n, dup=r.bool(0.3) if dup is None else dup)
    fp = ["%s/f%d.%s" % (r.pick("a", "b", "d/e"), r.int(0, max(n, 1)), r.pick("ark", "h5", "wav")) for _ in range(n)]
    off = r.bool() if off is None else off
    rng = r.bool() if rng is None else rng
    o = r.ints_arr(0, 100000, n) if off else None
    q = None
    if rng and n:
        q = np.stack([r.ints_arr(0, 50, n), r.ints_arr(0, 9, n)], axis=1)
        if r.bool(0.3):
            q[r.int(0, n - 1)] = 0
    if r.bool() and not text:
        key, fp = np.array(key), np.array(fp)
    if q is not None and r.bool(0.3):
        q = q.tolist()
    if o is not None and r.bool(0.3):
        o = o.tolist()
    return SCPList(key, fp, o, q)


def eqrows(a, b, msg):
    check(a == b, "%s: got %s expected %s" % (msg, a[:6], b[:6]))


@case("C10", "list_utils.ismember", targets=[LU + ":ismember"])
def k_ismember(r):
    k = r.pick("str", "int", "list", "mixed width")
    if k == "int":
        a, b = r.ints_arr(-3, 6, r.size(0, 8)), r.ints_arr(-3, 6, r.size(0, 8))
    else:
        a, b = ["n%d" % i for i in r.ints_arr(0, 8, r.size(0, 8))], ["n%d" % i for i in r.ints_arr(0, 8, r.size(0, 8))]
        if k == "str":
            a, b = np.array(a, dtype="U9"), np.array(b, dtype="U9")
        elif k == "mixed width":
            a, b = np.array([x + "yy" if r.bool(0.3) else x for x in a], dtype="U12"), np.array(b, dtype="U4")
    f, loc = L.ismember(a, b)
    la, lb = list(a), list(b)
    check(len(f) == len(la) and len(loc) == len(la), "lengths")
    for i, x in enumerate(la):
        check(bool(f[i]) == (x in lb), "membership of element %d" % i)
        if x in lb:
            check(loc[i] == lb.index(x), "location of element %d: %s expected %d" % (i, loc[i], lb.index(x)))


@case("C10", "list_utils.sort", targets=[LU + ":sort", LU + ":list2ndarray"])
def k_sort(r):
    n = r.size(0, 10)
    a = r.names(n, dup=r.bool(0.4)) if r.bool() else list(r.ints_arr(-4, 9, n))
    if r.bool():
        a = np.array(a)
    a0 = list(a)
    rev = r.bool()
    ref = sorted(a0, reverse=rev)
    s = L.sort(a, reverse=rev)
    check(list(s) == ref, "sorted: %s expected %s" % (list(s), ref))
    s, i = L.sort(a, reverse=rev, return_index=True)
    check(list(s) == ref, "sorted (index): %s expected %s" % (list(s), ref))
    check(sorted(i) == list(range(n)), "index is a permutation")
    check([a0[k] for k in i] == ref, "index gives the sorted list")
    check(list(a) == a0, "input modified")
    z = L.list2ndarray(a)
    check(isinstance(z, np.ndarray) and list(z) == a0, "list2ndarray")


@case("C10", "list_utils.intersect", targets=[LU + ":intersect"])
def k_intersect(r):
    u = r.bool()
    def one():
        k = ["n%02d" % i for i in r.ints_arr(0, 10, r.size(0, 9))]
        if u:
            k = list(dict.fromkeys(k))
        return np.array(k, dtype="U5") if r.bool() else k
    a, b = one(), one()
    ref = sorted(set(a) & set(b))
    c = L.intersect(a, b, assume_unique=u)
    check(list(c) == ref, "intersection: %s expected %s" % (list(c), ref))
    c, ia, ib = L.intersect(a, b, assume_unique=u, return_index=True)
    check(list(c) == ref, "intersection (index)")
    check([list(a)[k] for k in ia] == ref and [list(b)[k] for k in ib] == ref, "indices")


@case("C10", "scp.access", targets=[SL + "__getitem__", SL + "get_index", SL + "__contains__", SL + "__len__", SL + "add_prefix_to_filepath", SL + "_create_dict"])
def k_access(r):
    s = make(r, dup=False)
    R_ = rows(s)
    check(len(s) == len(R_) and s.len() == len(R_), "length")
    check("not-there" not in s, "foreign key")
    for step in range(2):
        for i, (k, p, o, q) in enumerate(R_):
            check(k in s, "key %s missing" % k)
            check(s.get_index(k) == i, "index of %s" % k)
            fp, o1, q1 = s[k]
            check(fp == p and (o1 is None if o is None else o1 == o) and (q1 is None if q is None else tuple(q1) == q), "access by key")
            kk, fp, o1, q1 = s[i]
            check(kk == k and fp == p and (o1 is None if o is None else o1 == o) and (q1 is None if q is None else tuple(q1) == q), "access by index")
        # changes of the order must be seen by the lookup
        r.pick(s.sort, lambda: s.shuffle(seed=r.int(0, 99)))()
        eqrows(sorted(rows(s)), sorted(R_), "rows after reordering")
        R_ = rows(s)
    s.add_prefix_to_filepath("x/")
    eqrows(rows(s), [(k, "x/" + p, o, q) for k, p, o, q in R_], "prefix")


@case("C10", "scp.order", targets=[SL + "sort", SL + "shuffle", SL + "copy", SL + "__eq__", SL + "__ne__", SL + "__cmp__"])
def k_order(r):
    s = make(r)
    R_ = rows(s)
    c = s.copy()
    check(c == s and not (c != s) and c.__cmp__(s) == 0, "copy is equal")
    s.sort()
    check([x[0] for x in rows(s)] == sorted(x[0] for x in R_), "sorted by key")
    eqrows(sorted(rows(s), key=repr), sorted(R_, key=repr), "sort keeps the rows")
    eqrows(rows(c), R_, "copy independent")
    seed = r.int(0, 1000)
    d = c.copy()
    i1, i2 = c.shuffle(seed=seed), d.shuffle(rng=np.random.RandomState(seed))
    same(i1, i2, "same seed, same order")
    eqrows(rows(c), [R_[k] for k in i1], "shuffle permutes rows by the returned index")
    check(sorted(i1) == list(range(len(R_))), "shuffle is a permutation")
    # equality distinguishes every column
    if R_:
        w = r.pick("key", "file_path", "offset", "range_spec", "none")
        e = d.copy()
        i = r.int(0, len(R_) - 1)
        if w in ("key", "file_path"):
            z = getattr(e, w).astype("U30")
            z[i] = z[i] + "q"
            setattr(e, w, z)
        elif w == "none":
            f = r.pick("offset", "range_spec")
            if getattr(e, f) is None:
                raise Skip()
            setattr(e, f, None)
        else:
            if getattr(e, w) is None:
                raise Skip()
            z = getattr(e, w).copy()
            if w == "offset":
                z[i] += 1
            else:
                z[i, r.int(0, 1)] += 1
            setattr(e, w, z)
        check(not (e == d) and e != d and e.__cmp__(d) != 0, "lists that differ in %s compare equal" % w)


@case("C10", "scp.filter", targets=[SL + "filter", SL + "filter_paths", SL + "filter_index"])
def k_filter(r):
    s = make(r)
    R_ = rows(s)
    n = len(R_)
    keep = r.bool()
    w = r.pick("key", "path", "index")
    if w == "index":
        idx = np.array(sorted(r.py.sample(range(n), r.int(0, n))), dtype=int)
        if r.bool(0.3) and keep:
            idx = r.np.permutation(idx)
        t = s.filter_index(idx if r.bool() or not len(idx) else list(idx), keep=keep)
        ref = [R_[i] for i in idx] if keep else [x for i, x in enumerate(R_) if i not in set(idx)]
    else:
        col = 0 if w == "key" else 1
        have = sorted(set(x[col] for x in R_))
        sub = r.py.sample(have, r.int(0, len(have)))
        f = getattr(s, "filter" if w == "key" else "filter_paths")
        arg = np.array(sub) if r.bool() and sub else sub
        t = f(arg, keep=keep)
        ref = [x for x in R_ if (x[col] in sub) == keep]
        if keep:
            raises(lambda: f(list(sub) + ["not-there"]), "unknown element", AssertionError)
    eqrows(rows(t), ref, "filter by %s (keep %s)" % (w, keep))
    eqrows(rows(s), R_, "input list kept")


@case("C10", "scp.split_merge", targets=[SL + "split", SL + "merge"])
def k_split(r):
    s = make(r, lo=1)
    R_ = rows(s)
    n, P, g = len(R_), r.size(1, 5), r.bool()
    parts = [s.split(i, P, group_by_key=g) for i in range(1, P + 1)]
    allr = [x for p in parts for x in rows(p)]
    if g:
        eqrows(sorted(allr, key=repr), sorted(R_, key=repr), "parts contain each row once")
        where = {}
        for i, p in enumerate(parts):
            for x in rows(p):
                check(where.setdefault(x[0], i) == i, "key %s in two parts" % x[0])
    else:
        eqrows(allr, R_, "parts in order")
    m = SCPList.merge(parts)
    eqrows(rows(m), allr, "merge concatenates")
    eqrows(rows(s), R_, "input list kept")


@case("C10", "scp.save_load", targets=[SL + "save", SL + "load", SL + "parse_script", SL + "validate"])
def k_io(r):
    s = make(r, text=True)
    R_ = rows(s)
    sep = r.pick(" ", " ", "=")
    osep = r.pick(":", ":", ";")
    f = os.path.join(r.tmp, "x.scp")
    s.save(f, sep=sep, offset_sep=osep)
    t = SCPList.load(f, sep=sep, offset_sep=osep)
    norm = [(k, p, o, None if q in (None, (0, 0)) else q) for k, p, o, q in R_]
    got = [(k, p, o, None if q in (None, (0, 0)) else q) for k, p, o, q in rows(t)]
    eqrows(got, norm, "text round trip")
    # text forms of the ranges
    if R_:
        L_ = ["%s %s%s[%d:%d]\n" % (k, p, "" if o is None else ":%d" % o, i, i + 3 + i % 2) for i, (k, p, o, q) in enumerate(R_)]
        open(f, "w").writelines(L_)
        u = SCPList.load(f)
        eqrows(rows(u), [(k, p, o, (i, 3 + i % 2)) for i, (k, p, o, q) in enumerate(R_)], "ranges read")
