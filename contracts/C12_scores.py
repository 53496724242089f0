from vc import *
import sym as _s
from shim_np import NP
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from C11_trials import helpers, names, isin, L, Obj

TSM = "hyperion.utils.trial_scores"
TS = TSM + ":TrialScores."


class Scr:
    def __init__(self, vc, nm="", n=None, t=None):
        self.n, self.t = vc.int("n" + nm, lo=1) if n is None else n, vc.int("t" + nm, lo=1) if t is None else t
        n, t = self.n, self.t
        self.M, self.S = names(vc, "model" + nm, n), names(vc, "seg" + nm, t)
        self.v, self.k = vc.array("score" + nm, (n, t)), vc.array("valid" + nm, (n, t), "b")
        self.o = vc.mod(TSM).TrialScores(self.M, self.S, self.v, self.k)
        self.sn = vc.snap(self.M, self.S, self.v, self.k)


def same(vc, tag, x, y, n2, t2, pm, ps, only_valid=False):
    i, j = L(vc.idx("i", n2)), L(vc.idx("j", t2))
    vc.ensure_shape(tag + ": models", y.model_set, (n2,))
    vc.ensure_shape(tag + ": segments", y.seg_set, (t2,))
    vc.ensure_shape(tag + ": scores", y.scores, (n2, t2))
    vc.ensure_shape(tag + ": mask", y.score_mask, (n2, t2))
    vc.ensure(tag + ": model names", eq(y.model_set.at(i), x.M.at(pm(i))))
    vc.ensure(tag + ": segment names", eq(y.seg_set.at(j), x.S.at(ps(j))))
    vc.ensure(tag + ": valid scores", iff(y.score_mask.at(i, j), x.k.at(pm(i), ps(j))))
    vc.ensure(tag + ": score values", eq(y.scores.at(i, j), x.v.at(pm(i), ps(j))))


@contract("C12", "scores.sort", targets=[TS + "sort", TS + "copy", TS + "validate"], replay="scores.sort_split")
def c_sort(vc):
    mod = vc.mod(TSM)
    x = Scr(vc)
    rec = []
    helpers(vc, mod)
    s0 = mod.sort

    def sort(*a, **k):
        r = s0(*a, **k)
        rec.append(r[1])
        return r
    vc.patch(mod, "sort", sort)
    y = x.o.copy()
    y.sort()
    vc.ensure("the model and segment names are sorted", tm.TRUE if len(rec) == 2 else tm.FALSE)
    same(vc, "sort", x, y, x.n, x.t, rec[0].at, rec[1].at)
    i, j = L(vc.idx("p", x.n)), L(vc.idx("q", x.n))
    vc.ensure("models ascending", implies(lt(i, j), solve.key_le(y.model_set.at(i), y.model_set.at(j))))
    i, j = L(vc.idx("r", x.t)), L(vc.idx("s", x.t))
    vc.ensure("segments ascending", implies(lt(i, j), solve.key_le(y.seg_set.at(i), y.seg_set.at(j))))
    vc.unchanged("frame", x.sn)


@contract("C12", "scores.split", targets=[TS + "split"], replay="scores.sort_split")
def c_split(vc):
    mod = vc.mod(TSM)
    x = Scr(vc)
    seen = helpers(vc, mod)
    im, nm, is_, ns = vc.int("im", lo=1), vc.int("nm", lo=1), vc.int("is", lo=1), vc.int("ns", lo=1)
    y = x.o.split(im, nm, is_, ns)
    vc.ensure("two splits", tm.TRUE if len(seen) == 2 else tm.FALSE)
    for k, (a, e1, e2, nme) in enumerate(((x.M, im, nm, "models"), (x.S, is_, ns, "segments"))):
        g = seen[k]
        q = L(vc.idx("q%d" % k, mk(a._shape[0])))
        vc.ensure("split of the %s" % nme, eq(g[0].at(q), a.at(q)))
        vc.ensure_eq("part of the %s" % nme, g[1], e1)
        vc.ensure_eq("parts of the %s" % nme, g[2], e2)
    (st1, m1), (st2, m2) = seen[0][3:], seen[1][3:]
    same(vc, "split", x, y, m1, m2, lambda i: add(L(st1), i), lambda j: add(L(st2), j))
    vc.unchanged("frame", x.sn)


@contract("C12", "scores.filter", targets=[TS + "filter"])
def c_filter(vc):
    mod = vc.mod(TSM)
    x = Scr(vc)
    helpers(vc, mod)
    mode = vc.choose("filter", ["keep", "remove", "missing"])
    a, b = vc.int("fa", lo=1), vc.int("fb", lo=1)
    fm, fs = names(vc, "fm", a), names(vc, "fs", b)
    if mode == "keep":
        vc.assume(vc.forall(a, lambda k: isin(fm.at(k), x.M, x.n)))
        vc.assume(vc.forall(b, lambda k: isin(fs.at(k), x.S, x.t)))
    if mode == "missing":
        u = L(vc.idx("u", a))
        vc.assume(bnot(isin(fm.at(u), x.M, x.n)))
        if vc.case("raise_missing"):
            vc.raises("a missing model is refused", lambda: x.o.filter(fm, fs))
            return
        y = x.o.filter(fm, fs, raise_missing=False)
    else:
        y = x.o.filter(fm, fs, keep=mode == "keep")
    n2, t2 = y.model_set.vlen(), y.seg_set.vlen()
    i, j = L(vc.idx("i", n2)), L(vc.idx("j", t2))
    if mode != "remove":
        vc.ensure_shape("models", y.model_set, (a,))
        vc.ensure_shape("segments", y.seg_set, (b,))
        vc.ensure("model names", eq(y.model_set.at(i), fm.at(i)))
        vc.ensure("segment names", eq(y.seg_set.at(j), fs.at(j)))
    else:
        p, q = L(vc.idx("p", x.n)), L(vc.idx("q", x.t))
        vc.ensure("models that are left", iff(isin(x.M.at(p), y.model_set, n2), bnot(isin(x.M.at(p), fm, a))))
        vc.ensure("segments that are left", iff(isin(x.S.at(q), y.seg_set, t2), bnot(isin(x.S.at(q), fs, b))))
    vc.ensure_shape("shape", y.scores, (n2, t2))
    vc.ensure_shape("shape of the mask", y.score_mask, (n2, t2))
    if mode == "missing" and vc.case("cell of a missing name"):
        vc.assume(bor(bnot(isin(y.model_set.at(i), x.M, x.n)), bnot(isin(y.seg_set.at(j), x.S, x.t))))
        vc.ensure("no score for a missing name", bnot(y.score_mask.at(i, j)))
        vc.unchanged("frame", x.sn)
        return
    pm, ps = L(vc.idx("pm", x.n)), L(vc.idx("ps", x.t))
    vc.assume(eq(x.M.at(pm), y.model_set.at(i)))
    vc.assume(eq(x.S.at(ps), y.seg_set.at(j)))
    vc.ensure("valid scores of the pair", iff(y.score_mask.at(i, j), x.k.at(pm, ps)))
    vc.ensure("score of the pair", implies(x.k.at(pm, ps), eq(y.scores.at(i, j), x.v.at(pm, ps))))
    vc.unchanged("frame", x.sn)


@contract("C12", "scores.merge", targets=[TS + "merge"])
def c_merge(vc):
    mod = vc.mod(TSM)
    xs = [Scr(vc, str(k)) for k in range(2)]
    helpers(vc, mod)
    # no trial is scored twice
    a, b, c, d = (fresh("c") for _ in range(4))
    x0, x1 = xs
    ENG.assume(tm.quant_from("forall", [a, b, c, d], implies(band(le(ZERO, a), lt(a, L(x0.n)), le(ZERO, b), lt(b, L(x1.n)), le(ZERO, c), lt(c, L(x0.t)), le(ZERO, d), lt(d, L(x1.t)),
                                                                  eq(x0.M.at(a), x1.M.at(b)), eq(x0.S.at(c), x1.S.at(d))), bnot(band(x0.k.at(a, c), x1.k.at(b, d))))))
    y = mod.TrialScores.merge([x.o for x in xs])
    n2, t2 = y.model_set.vlen(), y.seg_set.vlen()
    i, j = L(vc.idx("i", n2)), L(vc.idx("j", t2))
    if vc.choose("part", ["names", "trials"]) == "names":
        vc.ensure("model names", bor(*[isin(y.model_set.at(i), x.M, x.n) for x in xs]))
        vc.ensure("segment names", bor(*[isin(y.seg_set.at(j), x.S, x.t) for x in xs]))
        for k, x in enumerate(xs):
            p, q = L(vc.idx("p%d" % k, x.n)), L(vc.idx("q%d" % k, x.t))
            vc.ensure("models of object %d" % k, isin(x.M.at(p), y.model_set, n2))
            vc.ensure("segments of object %d" % k, isin(x.S.at(q), y.seg_set, t2))
            vc.unchanged("frame", x.sn)
        return
    pos = []
    for k, x in enumerate(xs):
        r = []
        for a, n, w, lab in ((x.M, x.n, y.model_set.at(i), "model"), (x.S, x.t, y.seg_set.at(j), "segment")):
            if vc.case("%s is in object %d" % (lab, k)):
                p = L(vc.idx("pos_%s%d" % (lab, k), n))
                vc.assume(eq(a.at(p), w))
                r.append(p)
            else:
                vc.assume(vc.forall(n, lambda z, a=a, w=w: ne(a.at(z), w)))
                r.append(None)
        pos.append(r)
    here = [(x, p) for x, p in zip(xs, pos) if None not in p]
    vc.ensure_shape("shape", y.scores, (n2, t2))
    vc.ensure_shape("shape of the mask", y.score_mask, (n2, t2))
    vc.ensure("the trial has a score", iff(y.score_mask.at(i, j), bor(*[x.k.at(*p) for x, p in here]) if here else tm.FALSE))
    for x, p in here:
        vc.ensure("its score", implies(x.k.at(*p), eq(y.scores.at(i, j), x.v.at(*p))))


def filter_stub(vc, x, ndx, n, t):
    """contract of TrialScores.filter for the names of the index (proved above): cells of these names"""
    calls = []
    v, k = vc.array("fscore", (n, t)), vc.array("fvalid", (n, t), "b")
    mod = vc.mod(TSM)

    def stub(self, model_set, seg_set, keep=True, raise_missing=True):
        calls.append((self, model_set, seg_set, keep, raise_missing))
        return mod.TrialScores(model_set, seg_set, v.copy(), k.copy())
    vc.patch(mod.TrialScores, "filter", stub)
    return calls, v, k


def trials(ndx):
    if "trial_mask" in ndx.mats:
        return lambda i, j: ndx.mats["trial_mask"].at(i, j)
    return lambda i, j: bor(ndx.mats["tar"].at(i, j), ndx.mats["non"].at(i, j))


@contract("C12", "scores.align", targets=[TS + "align_with_ndx", TS + "set_missing_to_value"])
def c_align(vc):
    mod = vc.mod(TSM)
    x = Scr(vc)
    ndx = Obj(vc, vc.choose("index", ["ndx", "key"]), "k", False)
    calls, v, k = filter_stub(vc, x, ndx, ndx.n, ndx.t)
    T = trials(ndx)
    i, j = L(vc.idx("i", ndx.n)), L(vc.idx("j", ndx.t))
    what = vc.choose("call", ["align", "align, missing allowed", "set_missing_to_value", "missing"])
    if what == "missing":
        vc.assume(T(i, j))
        vc.assume(bnot(k.at(i, j)))
        vc.raises("a missing score is refused", lambda: x.o.align_with_ndx(ndx.o))
        return
    if what == "align":
        a, b = fresh("a"), fresh("b")
        ENG.assume(tm.quant_from("forall", [a, b], implies(band(le(ZERO, a), lt(a, L(ndx.n)), le(ZERO, b), lt(b, L(ndx.t)), T(a, b)), k.at(a, b))))
        y = x.o.align_with_ndx(ndx.o)
    elif what == "set_missing_to_value":
        val = vc.real("val")
        y = x.o.set_missing_to_value(ndx.o, val)
    else:
        y = x.o.align_with_ndx(ndx.o, raise_missing=False)
    vc.ensure("the scores of the names of the index", tm.TRUE if len(calls) == 1 and calls[0][3] is True else tm.FALSE)
    vc.ensure("missing names", tm.TRUE if calls[0][4] == (what == "align") else tm.FALSE)
    vc.ensure_eq("models asked", calls[0][1], ndx.M)
    vc.ensure_eq("segments asked", calls[0][2], ndx.S)
    vc.ensure_eq("models", y.model_set, ndx.M)
    vc.ensure_eq("segments", y.seg_set, ndx.S)
    if what == "set_missing_to_value":
        vc.ensure("every trial of the index has a score, and only they", iff(y.score_mask.at(i, j), T(i, j)))
        vc.ensure("the score or the value", implies(T(i, j), eq(y.scores.at(i, j), ite(k.at(i, j), v.at(i, j), L(val)))))
    else:
        vc.ensure("the trials of the index that have a score", iff(y.score_mask.at(i, j), band(T(i, j), k.at(i, j))))
        vc.ensure("their score", implies(band(T(i, j), k.at(i, j)), eq(y.scores.at(i, j), v.at(i, j))))
    vc.unchanged("frame", x.sn)
    vc.unchanged("frame of the index", ndx.sn)


@contract("C12", "scores.transform", targets=[TS + "transform"])
def c_transform(vc):
    x = Scr(vc)
    a, b = vc.real("a"), vc.real("b")
    v0 = x.v.copy()
    x.o.transform(lambda s: a * s + b)
    i, j = L(vc.idx("i", x.n)), L(vc.idx("j", x.t))
    e = ite(x.k.at(i, j), add(mul(L(a), v0.at(i, j)), L(b)), v0.at(i, j))
    vc.ensure("the valid scores are transformed", eq(x.o.scores.at(i, j), e))
    vc.ensure("the mask stays", iff(x.o.score_mask.at(i, j), x.k.at(i, j)))


@contract("C12", "scores.h5", targets=[TS + "save", TS + "load", TS + "save_h5", TS + "load_h5"], replay="scores.save_load")
def c_h5(vc):
    x = Scr(vc)
    x.o.save("d/f.h5")
    y = vc.mod(TSM).TrialScores.load("d/f.h5")
    same(vc, "h5", x, y, x.n, x.t, lambda i: i, lambda j: j)
    vc.unchanged("frame", x.sn)


@contract("C12", "scores.validate", targets=[TS + "validate", TS + "__init__"], replay="scores.transform")
def c_validate(vc):
    cls = vc.mod(TSM).TrialScores
    n, t = vc.int("n", lo=1), vc.int("t", lo=1)
    M, S = names(vc, "model", n), names(vc, "seg", t)
    if vc.case("no scores given"):
        y = cls(M, S)
        i, j = L(vc.idx("i", n)), L(vc.idx("j", t))
        vc.ensure_shape("shape of the scores", y.scores, (n, t))
        vc.ensure_shape("shape of the mask", y.score_mask, (n, t))
        vc.ensure("zero and valid", band(eq(y.scores.at(i, j), ZERO), y.score_mask.at(i, j)))
        return
    what = vc.choose("wrong", ["shape", "mask", "models", "segments"])
    n2, n3 = n, n
    if what in ("shape", "mask"):
        q = vc.int("n2", lo=1)
        vc.assume(ne(L(q), L(n)))
        n2, n3 = (q, n) if what == "shape" else (n, q)
    elif what == "models":
        M = vc.array("rep", (n,), "S")
        i, j = L(vc.idx("i", n)), L(vc.idx("j", n))
        vc.assume(band(lt(i, j), eq(M.at(i), M.at(j))))
    else:
        S = vc.array("rep", (t,), "S")
        i, j = L(vc.idx("i", t)), L(vc.idx("j", t))
        vc.assume(band(lt(i, j), eq(S.at(i), S.at(j))))
    v, k = vc.array("v", (n2, t)), vc.array("k", (n3, t), "b")
    vc.raises("refused: " + what, lambda: cls(M, S, v, k), AssertionError)


@contract("C12", "scores.eq", targets=[TS + "__eq__", TS + "__ne__"], replay="scores.transform")
def c_eq(vc):
    """scores are compared up to the tolerance of the comparison (1e-5 absolute plus 1e-5 relative)"""
    x = Scr(vc)
    y = x.o.copy()
    vc.ensure("copies are equal", lift(x.o == y))
    vc.ensure("copies are not different", bnot(lift(x.o != y)))
    what = vc.choose("differs in", ["model_set", "seg_set", "score_mask"])
    old = getattr(y, what)
    new = vc.array("other", tuple(mk(d) for d in old._shape), old.kind)
    ix = [L(vc.idx("d%d" % k, mk(d))) for k, d in enumerate(old._shape)]
    vc.assume(bnot(iff(new.at(*ix), old.at(*ix))) if old.kind == "b" else ne(new.at(*ix), old.at(*ix)))
    setattr(y, what, new)
    vc.ensure("different %s" % what, bnot(lift(x.o == y)))
    vc.ensure("different %s (!=)" % what, lift(x.o != y))


@contract("C12", "scores.tar_non", targets=[TS + "get_tar_non"], replay="scores.get_tar_non")
def c_tar_non(vc):
    """exactly the scores of the target and non-target trials, row by row (align_with_ndx by its contract)"""
    mod = vc.mod(TSM)
    x = Scr(vc)
    key = Obj(vc, "key", "k", False)
    v = vc.array("ascore", (key.n, key.t))
    tar, non = key.mats["tar"], key.mats["non"]
    k = NP.logical_or(tar, non)
    calls = []

    def stub(self, ndx, raise_missing=True):
        calls.append((self, ndx, raise_missing))
        return mod.TrialScores(key.M, key.S, v.copy(), k.copy())
    vc.patch(mod.TrialScores, "align_with_ndx", stub)
    p, q = x.o.get_tar_non(key.o)
    vc.ensure("aligned with the key, missing scores refused", tm.TRUE if len(calls) == 1 and calls[0][0] is x.o and calls[0][1] is key.o and calls[0][2] is True else tm.FALSE)
    vc.ensure_eq("target scores", p, v[tar])
    vc.ensure_eq("non-target scores", q, v[non])
    vc.unchanged("frame", x.sn)
    vc.unchanged("frame of the key", key.sn)
