from vc import *
import sym as _s

LU = "hyperion.utils.list_utils"
SL = "hyperion.utils.scp_list"
T = SL + ":SCPList."


def isin(x, b, n):
    return tm.exists_rng(L(n), lambda k: eq(b.at(k), x))


def L(x):
    return lift(x)


@contract("C10", "list_utils.ismember", targets=[LU + ":ismember"])
def c_ismember(vc):
    m = vc.mod(LU)
    n, k = vc.int("n", lo=0), vc.int("k", lo=0)
    a, b = vc.array("a", (n,), "S"), vc.array("b", (k,), "S")
    sn = vc.snap(a, b)
    f, loc = m.ismember(a, b)
    vc.ensure_shape("shape of the flags", f, (n,))
    vc.ensure_shape("shape of the locations", loc, (n,))
    i, j = L(vc.idx("i", n)), L(vc.idx("j", k))
    first = lam("first", [L(k)], 1, lambda q: eq(b.at(q), a.at(i)), isint=True)
    vc.ensure("member", iff(f.at(i), isin(a.at(i), b, k)))
    vc.ensure("location is the first position", implies(isin(a.at(i), b, k), eq(loc.at(i), first)))
    vc.ensure("element at the location", implies(isin(a.at(i), b, k), band(le(ZERO, loc.at(i)), lt(loc.at(i), L(k)), eq(b.at(loc.at(i)), a.at(i)))))
    vc.unchanged("frame", sn)


@contract("C10", "list_utils.sort", targets=[LU + ":sort", LU + ":list2ndarray"])
def c_sort(vc):
    m = vc.mod(LU)
    n = vc.int("n", lo=1)
    kind = vc.choose("elements", ["S", "f"])
    if vc.case("python list"):
        a0 = vc.list("a", n, kind)
        a = SArr((n,), kind, a0.sym[1] if not callable(getattr(a0, "at", None)) else a0.at)
    else:
        a = a0 = vc.array("a", (n,), kind)
    rev = vc.case("reverse")
    ri = vc.case("return_index")
    sn = vc.snap(a)
    r = m.sort(a0, reverse=rev, return_index=ri)
    s = r[0] if ri else r
    vc.ensure_shape("shape", s, (n,))
    i, j = L(vc.idx("i", n)), L(vc.idx("j", n))
    le_ = lambda x, y: solve.key_le(x, y)
    vc.ensure("in order", implies(lt(i, j), le_(s.at(j), s.at(i)) if rev else le_(s.at(i), s.at(j))))
    if ri:
        idx = r[1]
        vc.ensure_shape("shape of the index", idx, (n,))
        vc.ensure("index in range", band(le(ZERO, idx.at(i)), lt(idx.at(i), L(n))))
        vc.ensure("index gives the sorted list", eq(s.at(i), a.at(idx.at(i))))
        vc.ensure("index has no repetitions", implies(ne(i, j), ne(idx.at(i), idx.at(j))))
    else:
        vc.ensure("elements of the list", isin(s.at(i), a, n))
    vc.ensure("no element is lost", isin(a.at(i), s, n))
    vc.unchanged("frame", sn)


@contract("C10", "list_utils.intersect", targets=[LU + ":intersect"])
def c_intersect(vc):
    m = vc.mod(LU)
    n, k = vc.int("n", lo=0), vc.int("k", lo=0)
    u = vc.case("assume_unique")
    a, b = vc.array("a", (n,), "S"), vc.array("b", (k,), "S")
    if u:
        vc.axiom_distinct(a)
        vc.axiom_distinct(b)
    sn = vc.snap(a, b)
    c0 = m.intersect(a, b, assume_unique=u)
    c, ia, ib = m.intersect(a, b, assume_unique=u, return_index=True)
    cn = c.vlen()
    i, j = L(vc.idx("i", cn)), L(vc.idx("j", cn))
    vc.ensure_eq("same without indices", c0, c)
    vc.ensure_shape("shapes", ia, (cn,))
    vc.ensure_shape("shapes of b", ib, (cn,))
    vc.ensure("ascending", implies(lt(i, j), solve.str_lt(c.at(i), c.at(j))))
    vc.ensure("elements of both", band(isin(c.at(i), a, n), isin(c.at(i), b, k)))
    vc.ensure("indices in the first list", band(le(ZERO, ia.at(i)), lt(ia.at(i), L(n)), eq(a.at(ia.at(i)), c.at(i))))
    vc.ensure("indices in the second list", band(le(ZERO, ib.at(i)), lt(ib.at(i), L(k)), eq(b.at(ib.at(i)), c.at(i))))
    p = L(vc.idx("p", n))
    vc.ensure("every common element", implies(isin(a.at(p), b, k), isin(a.at(p), c, cn)))
    vc.unchanged("frame", sn)


# ------------------------------------------------------------------ script lists
COLS = ("key", "file_path", "offset", "range_spec")


def scp(vc, nm="", n=None, cols=None, distinct=False):
    """a script list of any length with the columns of this case"""
    m = vc.mod(SL)
    n = vc.int("n" + nm, lo=1) if n is None else n
    off = vc.case("offset") if cols is None else cols[0]
    rng = vc.case("range") if cols is None else cols[1]
    key, fp = vc.array("key" + nm, (n,), "S"), vc.array("file" + nm, (n,), "S")
    if distinct:
        vc.axiom_distinct(key)
    o = vc.array("off" + nm, (n,), "i") if off else None
    q = vc.array("rng" + nm, (n, 2), "i") if rng else None
    return n, m.SCPList(key, fp, o, q)


def snap_rows(s):
    return {c: (None if getattr(s, c) is None else getattr(s, c).copy()) for c in COLS}


def same_rows(vc, name, t, old, n, src):
    """t has n rows; row i is row src(i) of old, in every column"""
    i = L(vc.idx("i", n))
    for c in COLS:
        v = getattr(t, c)
        if old[c] is None:
            vc.ensure("%s: no %s" % (name, c), tm.TRUE if v is None else tm.FALSE)
            continue
        vc.ensure("%s: %s present" % (name, c), tm.FALSE if v is None else tm.TRUE)
        vc.ensure_shape("%s: length of %s" % (name, c), v, (n, 2) if c == "range_spec" else (n,))
        if c == "range_spec":
            b = L(vc.idx("b", 2))
            vc.ensure("%s: %s of the row" % (name, c), eq(v.at(i, b), old[c].at(src(i), b)))
        else:
            vc.ensure("%s: %s of the row" % (name, c), eq(v.at(i), old[c].at(src(i))))


@contract("C10", "scp.order", targets=[T + "sort", T + "shuffle", T + "validate", T + "copy"])
def c_order(vc):
    n, s = scp(vc)
    old = snap_rows(s)
    s.get_index
    s._create_dict()
    k = s.copy()
    if vc.case("shuffle"):
        idx = s.shuffle(seed=vc.int("seed"))
        what = "shuffle"
        vc.ensure_shape("shuffle: index", idx, (n,))
    else:
        m = vc.mod(SL)
        key0 = s.key
        _, idx = m.sort(key0, return_index=True)
        s.sort()
        what = "sort"
        i, j = L(vc.idx("i", n)), L(vc.idx("j", n))
        vc.ensure("sort: keys ascending", implies(lt(i, j), solve.key_le(s.key.at(i), s.key.at(j))))
    i, j = L(vc.idx("i", n)), L(vc.idx("j", n))
    vc.ensure(what + ": a permutation", band(le(ZERO, idx.at(i)), lt(idx.at(i), L(n)), implies(ne(i, j), ne(idx.at(i), idx.at(j)))))
    same_rows(vc, what, s, old, n, idx.at)
    vc.ensure(what + ": lookup table is dropped", tm.TRUE if s.key_to_index is None else tm.FALSE)
    same_rows(vc, what + " leaves copies", k, old, n, lambda i: i)


@contract("C10", "scp.access", targets=[T + "__getitem__", T + "get_index", T + "__contains__", T + "__len__", T + "add_prefix_to_filepath", T + "_create_dict"])
def c_access(vc):
    n, s = scp(vc, distinct=True)
    old = snap_rows(s)
    i = vc.idx("i", n)
    vc.ensure_eq("length", s.__len__(), n)
    k = s.key[i]
    vc.ensure("its keys are in the list", lift(k in s))
    x = vc.str("x")
    vc.ensure("membership", iff(lift(s.key_to_index.contains(x)), isin(lift(x), old["key"], n)))
    vc.ensure_eq("position of the key", s.get_index(k), i)
    fp, o, q = s[k] if vc.case("by key") else s[i][1:]
    vc.ensure_eq("file", fp, mk(old["file_path"].at(L(i))))
    for nm, v, c in (("offset", o, "offset"), ("range", q, "range_spec")):
        if old[c] is None:
            vc.ensure("no " + nm, tm.TRUE if v is None else tm.FALSE)
        elif c == "offset":
            vc.ensure_eq(nm, v, mk(old[c].at(L(i))))
        else:
            b = L(vc.idx("b", 2))
            vc.ensure(nm, eq(v.at(b), old[c].at(L(i), b)))
    s.add_prefix_to_filepath(vc.str("prefix"))
    p = L(vc.idx("p", n))
    for c in ("key", "offset"):
        if old[c] is not None:
            vc.ensure("prefix keeps " + c, eq(getattr(s, c).at(p), old[c].at(p)))


def unknown_key(vc, s, f, col):
    pass


@contract("C10", "scp.filter", targets=[T + "filter", T + "filter_paths", T + "filter_index"])
def c_filter(vc):
    what = vc.choose("by", ["key", "path", "index"])
    keep = vc.case("keep")
    n, s = scp(vc)
    old = snap_rows(s)
    k = vc.int("k", lo=0)
    if what == "index":
        idx = vc.array("idx", (k,), "i")
        vc.assume(vc.forall(k, lambda a: band(le(ZERO, idx.at(a)), lt(idx.at(a), L(n)))))
        t = s.filter_index(idx, keep=keep)
        if keep:
            same_rows(vc, "rows of the index", t, old, k, idx.at)
            return
        chosen = lambda r: bnot(tm.exists_rng(L(k), lambda a: eq(idx.at(a), r)))
    else:
        col = old["key" if what == "key" else "file_path"]
        sub = vc.array("sub", (k,), "S")
        if keep:
            vc.assume(vc.forall(k, lambda a: isin(sub.at(a), col, n)))
        t = (s.filter if what == "key" else s.filter_paths)(sub, keep=keep)
        chosen = lambda r: isin(col.at(r), sub, k) if keep else bnot(isin(col.at(r), sub, k))
    v = fresh("v")
    cnt = sum_over([L(n)], [v], ind(chosen(v)))
    sel = lambda a: lam("sel", [L(n), a], 1, chosen, isint=True)
    tn = t.key.vlen()
    tag = "%s (keep %s)" % (what, keep)
    vc.ensure_eq("%s: number of rows" % tag, tn, mk(cnt))
    same_rows(vc, "%s: rows in order" % tag, t, old, tn, sel)
    same_rows(vc, "%s: input" % tag, s, old, n, lambda i: i)


@contract("C10", "scp.filter_unknown", targets=[T + "filter", T + "filter_paths"])
def c_filter_unknown(vc):
    """asking to keep something that is not in the list is refused"""
    n, s = scp(vc, cols=(False, False))
    k = vc.int("k", lo=1)
    sub = vc.array("sub", (k,), "S")
    path = vc.case("path")
    col = s.file_path if path else s.key
    a = L(vc.idx("a", k))
    vc.assume(bnot(isin(sub.at(a), col, n)))
    vc.raises("unknown element", lambda: (s.filter_paths if path else s.filter)(sub), AssertionError)


@contract("C10", "scp.split_merge", targets=[T + "split", T + "merge"])
def c_split(vc):
    n, s = scp(vc)
    old = snap_rows(s)
    P, i = vc.int("P", lo=1), vc.int("i", lo=1)
    vc.assume(i <= P)
    if vc.case("group_by_key"):
        m = vc.mod(SL)
        cnt = vc.int("c", lo=1)
        loc = vc.array("loc", (cnt,), "i")
        vc.assume(vc.forall(cnt, lambda a: band(le(ZERO, loc.at(a)), lt(loc.at(a), L(n)))))
        seen = []

        def stub(a, idx, num_parts, key=None):
            seen.append((a, idx, num_parts, key))
            return a[loc], loc
        vc.patch(m, "split_list_group_by_key", stub)
        t = s.split(i, P)
        vc.ensure("grouped split of the keys", tm.TRUE if len(seen) == 1 and seen[0][3] is None else tm.FALSE)
        vc.ensure_eq("keys given", seen[0][0], old["key"])
        vc.ensure_eq("part given", seen[0][1], i)
        vc.ensure_eq("parts given", seen[0][2], P)
        same_rows(vc, "grouped part", t, old, cnt, loc.at)
        return
    lo = tfdiv(lift((i - 1) * n), lift(P))
    hi = tfdiv(lift(i * n), lift(P))
    vc.assume(lt(lo, hi))
    t = s.split(i, P, group_by_key=False)
    same_rows(vc, "part", t, old, mk(sub(hi, lo)), lambda a: add(lo, a))


@contract("C10", "scp.merge", targets=[T + "merge"])
def c_merge(vc):
    m = vc.mod(SL)
    cols = (vc.case("offset"), vc.case("range"))
    lists, ns = [], []
    for k in range(vc.choose("lists", [1, 2, 3])):
        n, s = scp(vc, nm=str(k), cols=cols)
        lists.append(s)
        ns.append(L(n))
    old = [snap_rows(s) for s in lists]
    t = m.SCPList.merge(lists)
    tot = add(*ns)
    for k, s in enumerate(lists):
        i = L(vc.idx("i%d" % k, mk(ns[k])))
        off = add(ZERO, *ns[:k])
        for c in COLS:
            v = getattr(t, c)
            if old[k][c] is None:
                vc.ensure("no " + c, tm.TRUE if v is None else tm.FALSE)
                continue
            vc.ensure_shape("length of " + c, v, (tot, 2) if c == "range_spec" else (tot,))
            if c == "range_spec":
                b = L(vc.idx("b", 2))
                vc.ensure("rows of list %d: %s" % (k, c), eq(v.at(add(off, i), b), old[k][c].at(i, b)))
            else:
                vc.ensure("rows of list %d: %s" % (k, c), eq(v.at(add(off, i)), old[k][c].at(i)))


@contract("C10", "scp.save_load", targets=[T + "save", T + "load", T + "parse_script", T + "validate"], timeout=150)
def c_io(vc):
    """text round trip: names are tokens without white space, ':' and '['; byte offsets and rows are not negative"""
    m = vc.mod(SL)
    n, s = scp(vc)
    if s.offset is not None:
        o = s.offset
        vc.assume(vc.forall(n, lambda k: le(ZERO, o.at(k))))
    if s.range_spec is not None:
        q = s.range_spec
        # rows of one form (lists that mix them are left to the bounded stand-in)
        form = vc.choose("ranges", ["closed", "open", "none"])
        vc.assume(vc.forall(n, lambda k: band(le(ZERO, q.at(k, ZERO)), lt(ZERO, q.at(k, ONE))) if form == "closed" else
                            band(lt(ZERO, q.at(k, ZERO)), eq(ZERO, q.at(k, ONE))) if form == "open" else band(eq(ZERO, q.at(k, ZERO)), eq(ZERO, q.at(k, ONE)))))
    old = snap_rows(s)
    s.save("sym:d/x.scp")
    t = m.SCPList.load("sym:d/x.scp")
    i = L(vc.idx("i", n))
    vc.ensure_shape("number of rows", t.key, (n,))
    vc.ensure("keys", eq(t.key.at(i), old["key"].at(i)))
    vc.ensure("files", eq(t.file_path.at(i), old["file_path"].at(i)))
    if old["offset"] is None:
        vc.ensure("no offsets", tm.TRUE if t.offset is None else tm.FALSE)
    else:
        vc.ensure("offsets", eq(t.offset.at(i), old["offset"].at(i)))
    if old["range_spec"] is None:
        vc.ensure("no ranges", tm.TRUE if t.range_spec is None else tm.FALSE)
    elif t.range_spec is None:
        r = old["range_spec"]

        vc.ensure("only empty ranges are left out", band(eq(r.at(i, ZERO), ZERO), eq(r.at(i, ONE), ZERO)))
    else:
        b = L(vc.idx("b", 2))
        vc.ensure("ranges", eq(t.range_spec.at(i, b), old["range_spec"].at(i, b)))
