from vc import *
from shim_np import NP

FM, TM = "hyperion.utils.fold_list", "hyperion.utils.train_val_eval_list"
FL, TV = FM + ":FoldList.", TM + ":TrainValEvalList."


def L(x):
    return lift(x)


def obj(vc, cls, **kw):
    """an object of the class with given attributes (validate is another contract)"""
    o = cls.__new__(cls)
    o.__dict__.update(kw)
    return o


def two(vc):
    w = vc.choose("class", ["folds", "parts"])
    mod = vc.mod(FM if w == "folds" else TM)
    cls = mod.FoldList if w == "folds" else mod.TrainValEvalList
    n = vc.int("n", lo=1)
    f, key = vc.array("part", (n,), "i"), vc.array("key", (n,), "S")
    vc.axiom_distinct(key)
    mask = vc.array("mask", (n,), "b") if vc.choose("masked", ["yes", "no"]) == "yes" else None
    if w == "folds":
        o = obj(vc, cls, fold=f, key=key, mask=mask)
    else:
        o = obj(vc, cls, part=f, key=key, mask=mask, part_names=None, _part2num=None)
    return w, mod, o, n, f, key, mask


@contract("C15", "folds.idx", targets=[FL + "get_fold_idx", TV + "get_part_idx"])
def c_idx(vc):
    """training and test of a fold, elements of a part"""
    w, mod, o, n, f, key, mask = two(vc)
    j = vc.int("fold")
    i = L(vc.idx("i", n))
    m = mask.at(i) if mask is not None else tm.TRUE
    if w == "folds":
        tr, te = o.get_fold_idx(j)
        vc.ensure_shape("shape of training", tr, (n,))
        vc.ensure_shape("shape of test", te, (n,))
        vc.ensure("test", iff(te.at(i), band(eq(f.at(i), L(j)), m)))
        vc.ensure("training", iff(tr.at(i), band(ne(f.at(i), L(j)), m)))
    else:
        if vc.choose("by", ["number", "name"]) == "name":
            names = ["train", "val", "eval"]
            o.part_names = names
            k = vc.choose("name", [0, 1, 2])
            x = o.get_part_idx(names[k])
            j = k
        else:
            x = o.get_part_idx(j)
        vc.ensure_shape("shape of part", x, (n,))
        vc.ensure("part", iff(x.at(i), band(eq(f.at(i), L(j)), m)))


@contract("C15", "folds.keys", targets=[FL + "get_fold", FL + "__getitem__", TV + "get_part", TV + "__getitem__"], replay="folds.idx")
def c_keys(vc):
    """a key is among the keys of the fold iff one of its elements is; against the contract of the indices"""
    w, mod, o, n, f, key, mask = two(vc)
    tr, te = vc.array("train", (n,), "b"), vc.array("test", (n,), "b")
    how = vc.choose("call", ["method", "index"])
    if w == "folds":
        o.get_fold_idx = lambda j: (tr, te)
        a, b = o.get_fold(1) if how == "method" else o[1]
        vc.ensure_eq("keys of training", a, key[tr])
        vc.ensure_eq("keys of test", b, key[te])
    else:
        o.get_part_idx = lambda j: te
        b = o.get_part(1) if how == "method" else o[1]
        vc.ensure_eq("keys of the part", b, key[te])


@contract("C15", "folds.align", targets=[FL + "align_with_key", TV + "align_with_key"])
def c_align(vc):
    """each key asked for keeps its fold and its mask; nothing changes when one is missing"""
    w, mod, o, n, f, key, mask = two(vc)
    m = vc.int("m", lo=1)
    q = vc.array("asked", (m,), "S")
    fnd, loc = vc.array("found", (m,), "b"), vc.array("loc", (m,), "i")
    vc.assume(vc.forall(m, lambda k: implies(fnd.at(k), band(le(num(0), loc.at(k)), lt(loc.at(k), L(n)), eq(key.at(loc.at(k)), q.at(k))))))
    vc.patch(mod, "ismember", lambda a, b: (fnd, loc))
    s = vc.snap(f), vc.snap(key)
    if vc.choose("all there", ["yes", "no"]) == "yes":
        vc.assume(vc.forall(m, lambda k: fnd.at(k)))
        o.align_with_key(q)
        g = o.fold if w == "folds" else o.part
        i = L(vc.idx("i", m))
        vc.ensure_shape("shape", g, (m,))
        vc.ensure("keys asked for", eq(o.key.at(i), q.at(i)))
        vc.ensure("part of the key", eq(g.at(i), f.at(loc.at(i))))
        if mask is not None:
            vc.ensure("mask of the key", iff(o.mask.at(i), mask.at(loc.at(i))))
    else:
        k = L(vc.idx("k", m))
        vc.assume(tm.bnot(fnd.at(k)))
        vc.raises("missing key", lambda: o.align_with_key(q), Exception)
        vc.ensure_eq("keys as they were", o.key, key)
        vc.ensure_eq("parts as they were", o.fold if w == "folds" else o.part, f)


@contract("C15", "folds.text", targets=[FL + "save", FL + "load"], replay="folds.save_load")
def c_text(vc):
    mod = vc.mod(FM)
    n = vc.int("n", lo=1)
    f, key = vc.array("fold", (n,), "i"), vc.array("key", (n,), "S")
    vc.patch(mod.FoldList, "validate", lambda self: None)
    obj(vc, mod.FoldList, fold=f, key=key, mask=None).save("sym:folds")
    g = mod.FoldList.load("sym:folds")
    i = L(vc.idx("i", n))
    vc.ensure("number", eq(L(len_(g.key)), L(n)))
    vc.ensure("fold", eq(g.fold.at(i), f.at(i)))
    vc.ensure("key", eq(g.key.at(i), key.at(i)))


@contract("C15", "parts.text", targets=[TV + "save", TV + "load"], replay="folds.save_load")
def c_ptext(vc):
    mod = vc.mod(TM)
    n = vc.int("n", lo=1)
    f, key = vc.array("part", (n,), "i"), vc.array("key", (n,), "S")
    vc.patch(mod.TrainValEvalList, "validate", lambda self: None)
    obj(vc, mod.TrainValEvalList, part=f, key=key, mask=None, part_names=None).save("sym:parts")
    g = mod.TrainValEvalList.load("sym:parts")
    i = L(vc.idx("i", n))
    vc.ensure("number", eq(L(len_(g.key)), L(n)))
    vc.ensure("part", eq(g.part.at(i), f.at(i)))
    vc.ensure("key", eq(g.key.at(i), key.at(i)))


def len_(a):
    import loader
    return loader.vc_len(a)


def groups(vc, g, G):
    """numpy contract of unique with inverse, and of max for what it returns"""
    mx = NP.max
    vc.patch(NP, "unique", lambda x, return_inverse=False: (SArr((L(G),), "S", lambda i: app("group_name", i)), g))
    vc.patch(NP, "max", lambda x, *a, **k: mk(sub(L(G), num(1))) if x is g else mx(x, *a, **k))


@contract("C15", "folds.create", targets=[FL + "create"])
def c_create(vc):
    """one class, one to three folds: consecutive groups, never split, every element in one fold, sizes as even as they can be"""
    mod = vc.mod(FM)
    nf = vc.choose("folds", [1, 2, 3])
    n, G = vc.int("n", lo=1), vc.int("groups", lo=1)
    seg = vc.array("seg", (n,), "S")
    gk = vc.array("group_name", (n,), "S") if vc.choose("group", ["name", "each"]) == "name" else None
    g = vc.array("group", (n,), "i")
    w = vc.array("member", (G,), "i")
    vc.assume(vc.forall(n, lambda k: band(le(num(0), g.at(k)), lt(g.at(k), L(G)))))
    vc.assume(vc.forall(G, lambda k: band(le(num(0), w.at(k)), lt(w.at(k), L(n)), eq(g.at(w.at(k)), L(k)))))
    groups(vc, g, G)
    got = {}
    vc.patch(mod.FoldList, "validate", lambda self: None)
    f = mod.FoldList.create(seg, nf, group_by_key=gk)
    i, j = L(vc.idx("i", n)), L(vc.idx("j", n))
    vc.ensure_shape("shape", f.fold, (n,))
    vc.ensure_eq("keys", f.key, seg)
    vc.ensure("a fold of the list", band(le(num(0), f.fold.at(i)), lt(f.fold.at(i), num(nf))))
    vc.ensure("groups are not split", implies(eq(g.at(i), g.at(j)), eq(f.fold.at(i), f.fold.at(j))))
    half, d = tm.div(num(1), num(2)), tm.div(L(G), num(nf))
    k = vc.choose("fold of the element", list(range(nf)))
    vc.assume(eq(f.fold.at(i), num(k)))
    vc.ensure("share from", le(sub(mul(num(k), d), half), g.at(i)))
    vc.ensure("share to", le(g.at(i), add(mul(num(k + 1), d), half)))


@contract("C15", "parts.create", targets=[TV + "create"])
def c_pcreate(vc):
    """one class, two parts of any proportion: consecutive groups, never split, every element in one part, boundary within half a group"""
    mod = vc.mod(TM)
    n, G = vc.int("n", lo=1), vc.int("groups", lo=1)
    seg = vc.array("seg", (n,), "S")
    g = vc.array("group", (n,), "i")
    w = vc.array("member", (G,), "i")
    p = vc.real("proportion", lo=0)
    vc.assume(le(L(p), num(1)))
    vc.assume(vc.forall(n, lambda k: band(le(num(0), g.at(k)), lt(g.at(k), L(G)))))
    vc.assume(vc.forall(G, lambda k: band(le(num(0), w.at(k)), lt(w.at(k), L(n)), eq(g.at(w.at(k)), L(k)))))
    groups(vc, g, G)
    vc.patch(mod.TrainValEvalList, "validate", lambda self: None)
    f = mod.TrainValEvalList.create(seg, NP.array([p]), group_by_key=vc.array("group_name", (n,), "S"), shuffle=False)
    i, j = L(vc.idx("i", n)), L(vc.idx("j", n))
    vc.ensure_shape("shape", f.part, (n,))
    vc.ensure("names", tm.TRUE if list(f.part_names) == ["train", "eval"] else tm.FALSE)
    vc.ensure("one of the parts", tm.bor(eq(f.part.at(i), num(0)), eq(f.part.at(i), num(1))))
    vc.ensure("groups are not split", implies(eq(g.at(i), g.at(j)), eq(f.part.at(i), f.part.at(j))))
    half, cut = tm.div(num(1), num(2)), mul(L(p), L(G))
    vc.ensure("first part", implies(eq(f.part.at(i), num(0)), le(g.at(i), add(cut, half))))
    vc.ensure("last part", implies(eq(f.part.at(i), num(1)), le(sub(cut, half), g.at(i))))

