from vc import *
import sym as _s
from shim_np import NP

NX, KY = "hyperion.utils.trial_ndx", "hyperion.utils.trial_key"
TN, TK = NX + ":TrialNdx.", KY + ":TrialKey."
CONDS = ("model_cond", "seg_cond", "trial_cond")


def L(x):
    return lift(x)


def isin(x, b, n):
    return tm.exists_rng(L(n), lambda k: eq(b.at(k), x))


# ---- contracts of the list helpers (proved for the real functions in C10 and C01)
def st_ismember(a, b):
    a, b = _s.asarr(a), _s.asarr(b)
    n, k = a._shape[0], b._shape[0]
    f = SArr((n,), "b", lambda i: isin(a.at(i), b, k))
    loc = SArr((n,), "i", lambda i: ite(isin(a.at(i), b, k), lam("first", [k], 1, lambda q: eq(b.at(q), a.at(i)), isint=True), num(-2147483648)))
    return f, loc


def helpers(vc, mod):
    cnt = [0]

    def fresh_arr(nm, n, kind):
        cnt[0] += 1
        return vc.array("%s_%d" % (nm, cnt[0]), (n,), kind)

    def sort(a, reverse=False, return_index=False):
        n = a._shape[0]
        idx = fresh_arr("order", mk(n), "i")
        vc.assume(vc.forall(mk(n), lambda k: band(le(ZERO, idx.at(k)), lt(idx.at(k), n))))
        vc.axiom_distinct(idx)
        s = a[idx]
        i, j = fresh("i"), fresh("j")
        ENG.assume(tm.quant_from("forall", [i, j], implies(band(le(ZERO, i), lt(i, j), lt(j, n)), solve.key_le(s.at(i), s.at(j)))))
        return (s, idx) if return_index else s

    def intersect(a, b, assume_unique=False, return_index=False):
        n, k = a._shape[0], b._shape[0]
        m = vc.int("common_%d" % cnt[0], lo=0)
        c, ia, ib = fresh_arr("c", m, "S"), fresh_arr("ia", m, "i"), fresh_arr("ib", m, "i")
        vc.assume(vc.forall(m, lambda q: band(le(ZERO, ia.at(q)), lt(ia.at(q), n), eq(a.at(ia.at(q)), c.at(q)))))
        vc.assume(vc.forall(m, lambda q: band(le(ZERO, ib.at(q)), lt(ib.at(q), k), eq(b.at(ib.at(q)), c.at(q)))))
        vc.sorted_strict(c)
        w = fresh_arr("where", mk(n), "i")
        vc.assume(vc.forall(mk(n), lambda p: implies(isin(a.at(p), b, k), band(le(ZERO, w.at(p)), lt(w.at(p), L(m)), eq(c.at(w.at(p)), a.at(p))))))
        return (c, ia, ib) if return_index else c

    def union1d(a, b):
        """numpy contract: the sorted distinct elements of both"""
        n, k = a._shape[0], b._shape[0]
        cnt[0] += 1
        m = vc.int("union_%d" % cnt[0], lo=0)
        u, src, pa, pb = fresh_arr("u", m, "S"), fresh_arr("src", m, "i"), fresh_arr("pa", mk(n), "i"), fresh_arr("pb", mk(k), "i")
        vc.sorted_strict(u)
        vc.assume(vc.forall(m, lambda q: bor(band(le(ZERO, src.at(q)), lt(src.at(q), n), eq(a.at(src.at(q)), u.at(q))),
                                             band(le(ZERO, src.at(q)), lt(src.at(q), k), eq(b.at(src.at(q)), u.at(q))))))
        for x, w, z in ((a, pa, n), (b, pb, k)):
            vc.assume(vc.forall(mk(z), lambda q: band(le(ZERO, w.at(q)), lt(w.at(q), L(m)), eq(u.at(w.at(q)), x.at(q)))))
        return u

    def split_list(a, idx, num_parts):
        n = a._shape[0]
        st, k = vc.int("st_%d" % cnt[0], lo=0), fresh_arr  # noqa
        cnt[0] += 1
        m = vc.int("len_%d" % cnt[0], lo=0)
        vc.assume(le(add(L(st), L(m)), n))
        seen.append((a, idx, num_parts, st, m))
        loc = SArr((L(m),), "i", lambda q: add(L(st), q))
        return a[loc], loc
    seen = []
    vc.patch(mod, "sort", sort)
    vc.patch(mod, "ismember", st_ismember)
    vc.patch(mod, "intersect", intersect)
    vc.patch(mod, "split_list", split_list)
    vc.patch(NP, "union1d", union1d)
    return seen


def names(vc, nm, n):
    a = vc.array(nm, (n,), "S")
    vc.axiom_distinct(a)
    return a


def mask_eq(vc, name, got, old, i, j, pi, pj):
    vc.ensure(name, iff(got.at(i, j), old.at(pi, pj)))


class Obj:
    """an arbitrary index or key and its parts"""

    def __init__(self, vc, kind, nm="", conds=None):
        self.kind = kind
        self.n, self.t = vc.int("n" + nm, lo=1), vc.int("t" + nm, lo=1)
        n, t = self.n, self.t
        self.M, self.S = names(vc, "model" + nm, n), names(vc, "seg" + nm, t)
        self.mats, self.cond = {}, {}
        if kind == "ndx":
            self.mats["trial_mask"] = vc.array("mask" + nm, (n, t), "b")
            self.o = vc.mod(NX).TrialNdx(self.M, self.S, self.mats["trial_mask"])
        else:
            self.mats["tar"], self.mats["non"] = vc.array("tar" + nm, (n, t), "b"), vc.array("non" + nm, (n, t), "b")
            conds = vc.case("conditions") if conds is None else conds
            if conds:
                self.nc = [vc.int("nmc", lo=1), vc.int("nsc", lo=1), vc.int("ntc", lo=1)]
                self.cond = {"model_cond": vc.array("mc" + nm, (self.nc[0], n), "b"), "seg_cond": vc.array("sc" + nm, (self.nc[1], t), "b"),
                             "trial_cond": vc.array("tc" + nm, (self.nc[2], n, t), "b")}
            self.o = vc.mod(KY).TrialKey(self.M, self.S, self.mats["tar"], self.mats["non"], *[self.cond.get(c) for c in CONDS])
        self.sn = vc.snap(self.M, self.S, *(list(self.mats.values()) + list(self.cond.values())))


def same_cells(vc, tag, x, new, M2, S2, n2, t2, pm, ps):
    """new has the names M2 x S2; cell (i, j) is cell (pm(i), ps(j)) of x, and the conditions go along"""
    i, j = L(vc.idx("i", n2)), L(vc.idx("j", t2))
    vc.ensure_shape(tag + ": models", new.model_set, (n2,))
    vc.ensure_shape(tag + ": segments", new.seg_set, (t2,))
    vc.ensure(tag + ": model names", eq(new.model_set.at(i), x.M.at(pm(i))))
    vc.ensure(tag + ": segment names", eq(new.seg_set.at(j), x.S.at(ps(j))))
    for k, old in x.mats.items():
        v = getattr(new, k)
        vc.ensure_shape("%s: shape of %s" % (tag, k), v, (n2, t2))
        vc.ensure("%s: %s" % (tag, k), iff(v.at(i, j), old.at(pm(i), ps(j))))
    for q, c in enumerate(CONDS):
        if x.kind == "ndx":
            break
        v = getattr(new, c)
        if c not in x.cond:
            vc.ensure("%s: no %s" % (tag, c), tm.TRUE if v is None else tm.FALSE)
            continue
        a = L(vc.idx("a%d" % q, x.nc[q]))
        if c == "model_cond":
            vc.ensure("%s: %s" % (tag, c), iff(v.at(a, i), x.cond[c].at(a, pm(i))))
        elif c == "seg_cond":
            vc.ensure("%s: %s" % (tag, c), iff(v.at(a, j), x.cond[c].at(a, ps(j))))
        else:
            vc.ensure("%s: %s" % (tag, c), iff(v.at(a, i, j), x.cond[c].at(a, pm(i), ps(j))))


def c_sort(vc, kind):
    mod = vc.mod(NX if kind == "ndx" else KY)
    x = Obj(vc, kind)
    rec = []
    helpers(vc, mod)
    s0 = mod.sort

    def sort(*a, **k):
        r = s0(*a, **k)
        rec.append((a[0], r[1]))
        return r
    vc.patch(mod, "sort", sort)
    y = x.o.copy()
    y.sort()
    vc.ensure("the model and segment names are sorted", tm.TRUE if len(rec) == 2 else tm.FALSE)
    for a, p in rec:
        pass
    same_cells(vc, "sort", x, y, None, None, x.n, x.t, rec[0][1].at, rec[1][1].at)
    i, j = L(vc.idx("p", x.n)), L(vc.idx("q", x.n))
    vc.ensure("models ascending", implies(lt(i, j), solve.key_le(y.model_set.at(i), y.model_set.at(j))))
    i, j = L(vc.idx("r", x.t)), L(vc.idx("s", x.t))
    vc.ensure("segments ascending", implies(lt(i, j), solve.key_le(y.seg_set.at(i), y.seg_set.at(j))))
    vc.unchanged("frame", x.sn)


def c_split(vc, kind):
    mod = vc.mod(NX if kind == "ndx" else KY)
    x = Obj(vc, kind)
    seen = helpers(vc, mod)
    im, nm, is_, ns = vc.int("im", lo=1), vc.int("nm", lo=1), vc.int("is", lo=1), vc.int("ns", lo=1)
    y = x.o.split(im, nm, is_, ns)
    vc.ensure("two splits", tm.TRUE if len(seen) == 2 else tm.FALSE)
    for k, (a, e1, e2, nme) in enumerate(((x.M, im, nm, "models"), (x.S, is_, ns, "segments"))):
        g = seen[k]
        q = L(vc.idx("q%d" % k, mk(a._shape[0])))
        vc.ensure("split of the %s" % nme, eq(g[0].at(q), a.at(q)))
        vc.ensure_eq("part of the %s" % nme, g[1], e1)
        vc.ensure_eq("parts of the %s" % nme, g[2], e2)
    (st1, m1), (st2, m2) = seen[0][3:], seen[1][3:]
    same_cells(vc, "split", x, y, None, None, m1, m2, lambda i: add(L(st1), i), lambda j: add(L(st2), j))
    vc.unchanged("frame", x.sn)


def c_filter(vc, kind):
    mod = vc.mod(NX if kind == "ndx" else KY)
    x = Obj(vc, kind)
    helpers(vc, mod)
    keep = vc.case("keep")
    a, b = vc.int("fa", lo=0), vc.int("fb", lo=0)
    fm, fs = vc.array("fm", (a,), "S"), vc.array("fs", (b,), "S")
    if keep:
        vc.axiom_distinct(fm)
        vc.axiom_distinct(fs)
        vc.assume(vc.forall(a, lambda k: isin(fm.at(k), x.M, x.n)))
        vc.assume(vc.forall(b, lambda k: isin(fs.at(k), x.S, x.t)))
    y = x.o.filter(fm, fs, keep=keep)
    n2, t2 = y.model_set.vlen(), y.seg_set.vlen()
    i, j = L(vc.idx("i", n2)), L(vc.idx("j", t2))
    if keep:
        vc.ensure_shape("models", y.model_set, (a,))
        vc.ensure_shape("segments", y.seg_set, (b,))
        vc.ensure("model names", eq(y.model_set.at(i), fm.at(i)))
        vc.ensure("segment names", eq(y.seg_set.at(j), fs.at(j)))
    else:
        p, q = L(vc.idx("p", x.n)), L(vc.idx("q", x.t))
        vc.ensure("models that are left", iff(isin(x.M.at(p), y.model_set, n2), bnot(isin(x.M.at(p), fm, a))))
        vc.ensure("segments that are left", iff(isin(x.S.at(q), y.seg_set, t2), bnot(isin(x.S.at(q), fs, b))))
    # the cell of a pair of names is the old cell of these names
    pm, ps = L(vc.idx("pm", x.n)), L(vc.idx("ps", x.t))
    vc.assume(eq(x.M.at(pm), y.model_set.at(i)))
    vc.assume(eq(x.S.at(ps), y.seg_set.at(j)))
    for k, old in x.mats.items():
        v = getattr(y, k)
        vc.ensure_shape("shape of %s" % k, v, (n2, t2))
        vc.ensure("%s of the pair" % k, iff(v.at(i, j), old.at(pm, ps)))
    for q, c in enumerate(CONDS):
        if c not in x.cond:
            if kind == "key":
                vc.ensure("no %s" % c, tm.TRUE if getattr(y, c) is None else tm.FALSE)
            continue
        e = L(vc.idx("a%d" % q, x.nc[q]))
        v = getattr(y, c)
        g, o = ((e, i), (e, pm)) if q == 0 else ((e, j), (e, ps)) if q == 1 else ((e, i, j), (e, pm, ps))
        vc.ensure("%s of the pair" % c, iff(v.at(*g), x.cond[c].at(*o)))
    vc.unchanged("frame", x.sn)


def c_merge(vc, kind, parts):
    mod = vc.mod(NX if kind == "ndx" else KY)
    conds = parts[0] in CONDS
    xs = [Obj(vc, kind, str(k), conds) for k in range(2)]
    if conds:
        xs[1].nc = xs[0].nc
    helpers(vc, mod)
    cls = mod.TrialNdx if kind == "ndx" else mod.TrialKey
    y = cls.merge([x.o for x in xs])
    n2, t2 = y.model_set.vlen(), y.seg_set.vlen()
    i, j = L(vc.idx("i", n2)), L(vc.idx("j", t2))
    part = vc.choose("part", parts)
    if part == "names":
        vc.ensure("model names", bor(*[isin(y.model_set.at(i), x.M, x.n) for x in xs]))
        vc.ensure("segment names", bor(*[isin(y.seg_set.at(j), x.S, x.t) for x in xs]))
        for k, x in enumerate(xs):
            p, q = L(vc.idx("p%d" % k, x.n)), L(vc.idx("q%d" % k, x.t))
            vc.ensure("models of object %d" % k, isin(x.M.at(p), y.model_set, n2))
            vc.ensure("segments of object %d" % k, isin(x.S.at(q), y.seg_set, t2))
            vc.unchanged("frame", x.sn)
        if not conds and kind == "key":
            for c in CONDS:
                vc.ensure("no %s" % c, tm.TRUE if getattr(y, c) is None else tm.FALSE)
        return
    need = (0,) if part == "model_cond" else (1,) if part == "seg_cond" else (0, 1)
    # where the names of the cell are in each object
    pos = []
    for k, x in enumerate(xs):
        r = [None, None]
        for d, (a, n, w, lab) in enumerate(((x.M, x.n, y.model_set.at(i), "model"), (x.S, x.t, y.seg_set.at(j), "segment"))):
            if d not in need:
                continue
            if vc.case("%s is in object %d" % (lab, k)):
                p = L(vc.idx("pos_%s%d" % (lab, k), n))
                vc.assume(eq(a.at(p), w))
                r[d] = p
            else:
                vc.assume(vc.forall(n, lambda z, a=a, w=w: ne(a.at(z), w)))
        pos.append(r)

    def expect(get):
        vals = [get(x, *pos[k]) for k, x in enumerate(xs) if all(pos[k][d] is not None for d in need)]
        return bor(*vals) if vals else tm.FALSE
    if part == "trials":
        for k in xs[0].mats:
            v = getattr(y, k)
            vc.ensure_shape("shape of %s" % k, v, (n2, t2))
            vc.ensure("%s of the pair" % k, iff(v.at(i, j), expect(lambda x, p, q: x.mats[k].at(p, q))))
        return
    v = getattr(y, part)
    e = L(vc.idx("a", xs[0].nc[CONDS.index(part)]))
    vc.ensure_shape("shape of %s" % part, v, (xs[0].nc[CONDS.index(part)],) + tuple((n2, t2)[d] for d in need))
    vc.ensure(part, iff(v.at(e, *[(i, j)[d] for d in need]), expect(lambda x, p, r: x.cond[part].at(e, *[(p, r)[d] for d in need]))))


@contract("C11", "trials.ndx_sort", targets=[TN + "sort", TN + "copy", TN + "validate"], timeout=150, replay="trials.ndx_sort_split")
def c_ndx_sort(vc):
    c_sort(vc, "ndx")


@contract("C11", "trials.ndx_split", targets=[TN + "split"], timeout=150, replay="trials.ndx_sort_split")
def c_ndx_split(vc):
    c_split(vc, "ndx")


@contract("C11", "trials.ndx_filter", targets=[TN + "filter"], timeout=150, replay="trials.ndx_filter")
def c_ndx_filter(vc):
    c_filter(vc, "ndx")


@contract("C11", "trials.ndx_merge", targets=[TN + "merge"], timeout=150, replay="trials.ndx_merge")
def c_ndx_merge(vc):
    c_merge(vc, "ndx", ["names", "trials"])


@contract("C11", "trials.key_sort", targets=[TK + "sort", TK + "copy", TK + "validate"], timeout=150, replay="trials.key_sort_split")
def c_key_sort(vc):
    c_sort(vc, "key")


@contract("C11", "trials.key_split", targets=[TK + "split"], timeout=150, replay="trials.key_sort_split")
def c_key_split(vc):
    c_split(vc, "key")


@contract("C11", "trials.key_filter", targets=[TK + "filter"], timeout=150, replay="trials.key_filter")
def c_key_filter(vc):
    c_filter(vc, "key")


@contract("C11", "trials.key_merge", targets=[TK + "merge"], timeout=150)
def c_key_merge(vc):
    c_merge(vc, "key", ["names", "trials"])


@contract("C11", "trials.key_merge_side_cond", targets=[TK + "merge"], timeout=150, replay="trials.key_merge")
def c_key_merge_side(vc):
    c_merge(vc, "key", ["model_cond", "seg_cond"])


@contract("C11", "trials.key_merge_trial_cond", targets=[TK + "merge"], timeout=150, replay="trials.key_merge")
def c_key_merge_trial(vc):
    c_merge(vc, "key", ["trial_cond"])


@contract("C11", "trials.ndx_h5", targets=[TN + "save", TN + "load", TN + "save_h5", TN + "load_h5"], replay="trials.ndx_save_load")
def c_ndx_h5(vc):
    x = Obj(vc, "ndx")
    x.o.save("d/f.h5")
    y = vc.mod(NX).TrialNdx.load("d/f.h5")
    same_cells(vc, "h5", x, y, None, None, x.n, x.t, lambda i: i, lambda j: j)
    vc.unchanged("frame", x.sn)


@contract("C11", "trials.key_h5", targets=[TK + "save", TK + "load", TK + "save_h5", TK + "load_h5"], replay="trials.key_save_load")
def c_key_h5(vc):
    """a trial is not target and non-target at the same time"""
    x = Obj(vc, "key")
    a, b = fresh("a"), fresh("b")
    ENG.assume(tm.quant_from("forall", [a, b], implies(band(le(ZERO, a), lt(a, L(x.n)), le(ZERO, b), lt(b, L(x.t))), bnot(band(x.mats["tar"].at(a, b), x.mats["non"].at(a, b))))))
    names_ = []
    if x.cond:
        for k, c in enumerate(CONDS):
            a_ = vc.array("cn%d" % k, (x.nc[k],), "S")
            setattr(x.o, c + "_name", a_)
            names_.append((c + "_name", a_))
    x.o.save("d/f.h5")
    y = vc.mod(KY).TrialKey.load("d/f.h5")
    same_cells(vc, "h5", x, y, None, None, x.n, x.t, lambda i: i, lambda j: j)
    for c, a_ in names_:
        vc.ensure_eq(c, getattr(y, c), a_)
    vc.unchanged("frame", x.sn)


@contract("C11", "trials.key_to_ndx", targets=[TK + "to_ndx"], replay="trials.key_eq")
def c_key_to_ndx(vc):
    x = Obj(vc, "key")
    y = x.o.to_ndx()
    vc.ensure_eq("models", y.model_set, x.M)
    vc.ensure_eq("segments", y.seg_set, x.S)
    vc.ensure_shape("shape", y.trial_mask, (x.n, x.t))
    i, j = L(vc.idx("i", x.n)), L(vc.idx("j", x.t))
    vc.ensure("trials are the target and the non-target trials", iff(y.trial_mask.at(i, j), bor(x.mats["tar"].at(i, j), x.mats["non"].at(i, j))))
    vc.unchanged("frame", x.sn)


def c_eq(vc, kind):
    """two objects of the same sizes are equal exactly when all their names, cells and conditions are"""
    x = Obj(vc, kind, "0")
    conds = bool(x.cond)
    y = x.o.copy()
    vc.ensure("copies are equal", lift(x.o == y))
    vc.ensure("copies are not different", bnot(lift(x.o != y)))
    what = vc.choose("differs in", ["model_set", "seg_set"] + list(x.mats) + ([c for c in CONDS] if conds else []))
    old = getattr(y, what)
    new = vc.array("other", tuple(mk(d) for d in old._shape), old.kind)
    ix = [L(vc.idx("d%d" % k, mk(d))) for k, d in enumerate(old._shape)]
    vc.assume(bnot(iff(new.at(*ix), old.at(*ix))) if old.kind == "b" else ne(new.at(*ix), old.at(*ix)))
    setattr(y, what, new)
    vc.ensure("different %s" % what, bnot(lift(x.o == y)))
    vc.ensure("different %s (!=)" % what, lift(x.o != y))


@contract("C11", "trials.ndx_eq", targets=[TN + "__eq__", TN + "__ne__"])
def c_ndx_eq(vc):
    c_eq(vc, "ndx")


@contract("C11", "trials.key_eq", targets=[TK + "__eq__", TK + "__ne__"])
def c_key_eq(vc):
    c_eq(vc, "key")


@contract("C11", "trials.validate", targets=[TN + "validate", TK + "validate"], replay="trials.ndx_eq")
def c_validate(vc):
    kind = vc.choose("class", ["ndx", "key"])
    cls = vc.mod(NX).TrialNdx if kind == "ndx" else vc.mod(KY).TrialKey
    n, t = vc.int("n", lo=1), vc.int("t", lo=1)
    M, S = names(vc, "model", n), names(vc, "seg", t)
    if vc.case("no trials given"):
        y = cls(M, S)
        i, j = L(vc.idx("i", n)), L(vc.idx("j", t))
        for k in (["trial_mask"] if kind == "ndx" else ["tar", "non"]):
            v = getattr(y, k)
            vc.ensure_shape("shape of %s" % k, v, (n, t))
            vc.ensure("all the trials" if kind == "ndx" else "no %s" % k, v.at(i, j) if kind == "ndx" else bnot(v.at(i, j)))
        return
    what = vc.choose("wrong", ["shape", "models", "segments"])
    n2 = n
    if what == "shape":
        n2 = vc.int("n2", lo=1)
        vc.assume(ne(L(n2), L(n)))
    elif what == "models":
        M = vc.array("rep", (n,), "S")
        i, j = L(vc.idx("i", n)), L(vc.idx("j", n))
        vc.assume(band(lt(i, j), eq(M.at(i), M.at(j))))
    else:
        S = vc.array("rep", (t,), "S")
        i, j = L(vc.idx("i", t)), L(vc.idx("j", t))
        vc.assume(band(lt(i, j), eq(S.at(i), S.at(j))))
    mats = [vc.array("mat%d" % k, (n2, t), "b") for k in range(1 if kind == "ndx" else 2)]
    vc.raises("refused: " + what, lambda: cls(M, S, *mats), AssertionError)

