from vc import *
import types
import shim_np
from shim_np import NP

H = "hyperion.helpers."
VRM, VCM, TRM, MTM, SRM, PRM, PFM = H + "vector_reader", H + "vector_class_reader", H + "trial_data_reader", H + "multi_test_trial_data_reader", H + "sequence_reader", H + "sequence_post_reader", H + "plda_factory"
TEM, TNM = "hyperion.utils.tensors", "hyperion.utils.trial_ndx"
VR, VC, TR, MT = VRM + ":VectorReader.", VCM + ":VectorClassReader.", TRM + ":TrialDataReader.", MTM + ":MultiTestTrialDataReader."
SR, PF, TN, TE = SRM + ":SequenceReader.", PFM + ":PLDAFactory.", TNM + ":TrialNdx.", TEM + ":"


def L(x):
    return lift(x)


def S1(n, f):
    k = fresh("k")
    return sum_over([L(n)], [k], f(k))


def tb(b):
    return TRUE if b else FALSE


class Rd:
    """random access reader: an arbitrary vector for each key"""

    def __init__(self, vc, d):
        self.vc, self.d, self.log = vc, d, []

    def read(self, keys, squeeze=False):
        self.log.append(squeeze)
        return self.of(keys)

    def of(self, keys):
        k = shim_np.asarr(keys)
        k = k.copy()
        return SArr((k._shape[0], L(self.d)), "f", lambda i, j: app("stored", k.at(i), j))


class Pre:
    """an arbitrary map of the vectors (of each value and its position)"""

    def __init__(self, vc):
        self.vc = vc

    def predict(self, x):
        x = x.copy()
        return SArr(x._shape, "f", lambda i, j: app("preprocessed", x.at(i, j), j))


class U2I:
    """a list of keys with information: what the constructors and the filters do is recorded"""

    def __init__(self, vc, nm, key=None, info=None):
        n = vc.int("n_" + nm, lo=1)
        self.vc, self.nm, self.n = vc, nm, n
        self.key = vc.array("key_" + nm, (n,), "S") if key is None else key
        self.info = vc.array("info_" + nm, (n,), "S") if info is None else info
        self.log = []

    def filter_info(self, f, field=1, keep=True):
        if field != 1 or keep is not True:
            raise Unsupported("filter_info arguments")
        u = U2I(self.vc, "%s_f%d" % (self.nm, len(self.log)))
        self.log.append((f, u))
        return u


def fact(vc, mod, r):
    files = []
    vc.patch(mod, "DRF", types.SimpleNamespace(create=lambda f, *a, **k: (files.append(("drf", f)), r)[1]))
    return files


def vectors(r, p, keys):
    """what the loaders have to return for the keys"""
    x = r.of(keys)
    return x if p is None else p.predict(x)


@contract("C20", "vector_reader", targets=[VR + "read", VR + "__init__"], replay="vector_reader")
def c_vr(vc):
    mod = vc.mod(VRM)
    d = vc.int("d", lo=1)
    r = Rd(vc, d)
    files = fact(vc, mod, r)
    u = U2I(vc, "list")
    vc.patch(mod, "SCPList", types.SimpleNamespace(load=lambda f, sep=" ", **k: (files.append(("scp", f, sep)), u)[1]))
    p = Pre(vc) if vc.case("preproc") else None
    v = mod.VectorReader("vectors", "keys", p, vlist_sep="=")
    vc.ensure("files", tb(("drf", "vectors") in files and ("scp", "keys", "=") in files and len(files) == 2))
    y = v.read()
    vc.ensure("one matrix", tb(all(q is True for q in r.log)))
    vc.same("vectors of the keys of the list", y, vectors(r, p, u.key))


def args_contract(modname, cls, valid, key, replay):
    @contract("C20", key, targets=["%s:%s.filter_args" % (modname, cls)], replay=replay)
    def c(vc):
        C = getattr(vc.mod(modname), cls)
        pre = vc.choose("prefix", [None, "p", "train_v"])
        p = "" if pre is None else pre + "_"
        miss = vc.choose("missing", [None] + valid)
        kw = {p + v: vc.real(v) for v in valid if v != miss}
        extra = {"other": 1, "q_" + valid[0]: 2}
        if pre is not None:
            extra.update({v: 3 for v in valid})
        kw.update(extra)
        d = C.filter_args(pre, **kw)
        vc.ensure("arguments with the prefix", tb(sorted(d) == sorted(v for v in valid if v != miss)))
        for v in d:
            vc.same("value of " + v, d[v], kw[p + v])


args_contract(VRM, "VectorReader", ["vlist_sep"], "vector_reader.args", "vector_reader")
args_contract(VCM, "VectorClassReader", ["vlist_sep", "class2int_file", "min_spc", "max_spc", "spc_pruning_mode", "csplit_min_spc", "csplit_max_spc", "csplit_mode", "csplit_overlap", "csplit_once", "vcr_seed"], "vector_class.args", "vector_class.read")
args_contract(TRM, "TrialDataReader", ["tlist_sep", "model_idx", "num_model_parts", "seg_idx", "num_seg_parts", "eval_set"], "trial_reader.args", "trial_reader")
args_contract(MTM, "MultiTestTrialDataReader", ["tlist_sep", "model_idx", "num_model_parts", "seg_idx", "num_seg_parts", "eval_set"], "multi_trial_reader.args", "trial_reader")


@contract("C20", "vector_class.read", targets=[VC + "read", VC + "__init__"], replay="vector_class.read")
def c_vcr(vc):
    mod = vc.mod(VCM)
    d = vc.int("d", lo=1)
    r = Rd(vc, d)
    files = fact(vc, mod, r)
    u = U2I(vc, "list")
    fu, su = U2I(vc, "filtered"), [U2I(vc, "split%d" % i) for i in range(3)]
    calls = []
    vc.patch(mod, "Utt2Info", types.SimpleNamespace(load=lambda f, sep=" ", **k: (files.append(("u2i", f, sep)), u)[1]))
    C = mod.VectorClassReader
    names = ["min_spc", "max_spc", "mode", "rng"]

    def bind(a, k, names):
        b = dict(zip(names, a))
        b.update({("mode" if q == "spc_pruning_mode" else q): v for q, v in k.items()})
        return b

    def filt(l, *a, **k):
        calls.append(("filter", l, bind(a, k, ["min_spc", "max_spc", "mode", "rng"])))
        return fu

    def split(l, *a, **k):
        calls.append(("split", l, bind(a, k, ["min_spc", "max_spc", "mode", "overlap", "rng"])))
        return su[sum(1 for c in calls if c[0] == "split") - 1]
    vc.patch(C, "_filter_by_spc", staticmethod(filt))
    vc.patch(C, "_split_classes", staticmethod(split))
    once = vc.case("split once")
    p = Pre(vc) if vc.case("preproc") else None
    a, b, c, e, o = (vc.int(q) for q in ("min_spc", "max_spc", "csplit_min", "csplit_max", "overlap"))
    v = C("vectors", "keys", p, vlist_sep=",", min_spc=a, max_spc=b, spc_pruning_mode="last", csplit_min_spc=c, csplit_max_spc=e, csplit_mode="sequential", csplit_overlap=o, csplit_once=once)
    vc.ensure("files", tb(("drf", "vectors") in files and ("u2i", "keys", ",") in files and len(files) == 2))
    def unique(z, return_inverse=False):
        """the number of a class: arbitrary"""
        z = z.copy()
        g = SArr(z._shape, "i", lambda i: app("classno", z.at(i), isint=True))
        return (None, g) if return_inverse else None
    vc.patch(NP, "unique", unique)
    reads = 2
    out = [v.read() for _ in range(reads)]
    f = [q for q in calls if q[0] == "filter"]
    s = [q for q in calls if q[0] == "split"]
    vc.ensure("classes are filtered once", tb(len(f) == 1 and f[0][1] is u and f[0][2]["mode"] == "last" and f[0][2]["rng"] is v.rng))
    vc.same("minimum of the filter", f[0][2]["min_spc"], a)
    vc.same("maximum of the filter", f[0][2]["max_spc"], b)
    vc.ensure("split of the filtered list", tb(len(s) == (1 if once else reads) and all(q[1] is fu and q[2]["mode"] == "sequential" and q[2]["rng"] is v.rng for q in s)))
    for q in s:
        for w, z in (("min_spc", c), ("max_spc", e), ("overlap", o)):
            vc.same("split argument " + w, q[2][w], z)
    for t in range(reads):
        l = su[0] if once else su[t]
        vc.same("vectors of the split %d" % t, out[t][0], vectors(r, p, l.key))
        vc.same("classes of the split %d" % t, out[t][1], unique(l.info, return_inverse=True)[1])
    vc.ensure("one matrix", tb(all(q is True for q in r.log)))


@contract("C20", "vector_class.map", targets=[VC + "read", VC + "class_names"], replay="vector_class.read")
def c_map(vc):
    mod = vc.mod(VCM)
    d = vc.int("d", lo=1)
    r = Rd(vc, d)
    info = vc.choose("info", [["a"], ["b", "a", "b"], ["c", "c", "a", "b"]])
    ids = vc.choose("ids", [dict(a=0, b=1, c=2), dict(a=2, b=0, c=1)])
    key = ["k%d" % i for i in range(len(info))]
    v = mod.VectorClassReader.__new__(mod.VectorClassReader)
    v.csplit_once, v.r, v.preproc, v.map_class2int = True, r, None, ids
    v.u2c = types.SimpleNamespace(key=key, info=info)
    three = vc.case("return_3d")
    cap = []

    def t3(x, c, m=0):
        cap.append((x, c, m))
        return "x3", "w3"
    vc.patch(mod, "to3D_by_class", t3)
    ml = vc.int("max_length", lo=0)
    y = v.read(return_3d=three, max_length=ml)
    if three:
        vc.ensure("three dimensions", tb(y == ("x3", "w3")))
        vc.same("length", cap[0][2], ml)
        x, c = cap[0][:2]
    else:
        x, c = y
    vc.same("vectors of the reader", x, r.of(key))
    c = shim_np.asarr(c)
    for i, k in enumerate(info):
        vc.ensure_eq("class of %d" % i, mk(c.at(i)), mk(num(ids[k])))
    nm = v.class_names
    vc.ensure("names of the classes", tb([str(q) for q in nm] == sorted(ids, key=ids.get)))


@contract("C20", "vector_class.filter_min", targets=[VC + "_filter_by_spc"], replay="vector_class.filter")
def c_fmin(vc):
    mod = vc.mod(VCM)
    C = mod.VectorClassReader
    u = U2I(vc, "list")
    K = vc.int("K", lo=1)
    names, cnt = vc.array("classes", (K,), "S"), vc.array("counts", (K,), "i")

    def unique(z, return_counts=False, **k):
        vc.ensure("classes of the list", tb(z is u.info and return_counts and not k))
        return names, cnt
    vc.patch(NP, "unique", unique)
    lo = vc.int("min_spc")
    two = ENG.branch(gt(L(lo), num(1)))
    s = vc.snap(u.key, u.info, names, cnt)
    o = C._filter_by_spc(u, lo, None, vc.choose("mode", ["random", "first", "last"]), None)
    vc.unchanged("list", s)
    if not two:
        vc.ensure("nothing to remove", tb(o is u and not u.log))
        return
    vc.ensure("the list is filtered once", tb(len(u.log) == 1 and o is u.log[0][1]))
    f = shim_np.asarr(u.log[0][0])
    k = L(vc.idx("k", K))
    vc.ensure("classes with enough samples are kept", implies(ge(cnt.at(k), L(lo)), tm.exists_rng(L(f.shape[0]), lambda q: eq(f.at(q), names.at(k)))))
    q = L(vc.idx("q", f.shape[0]))
    vc.ensure("kept classes have enough samples", tm.exists_rng(L(K), lambda p: band(eq(names.at(p), f.at(q)), ge(cnt.at(p), L(lo)))))


@contract("C20", "tensors.by_class", targets=[TE + "to3D_by_class"], replay="tensors")
def c_3dc(vc):
    mod = vc.mod(TEM)
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    K = vc.choose("classes", [1, 2, 3])
    x, ids = vc.array("x", (n, d)), vc.array("ids", (n,), "i")
    mx = NP.max
    vc.patch(NP, "max", lambda z, *a, **k: K - 1 if z is ids else mx(z, *a, **k))
    cnt = lambda k: S1(n, lambda i: ind(eq(ids.at(i), num(k))))
    given = vc.case("length given")
    s = vc.snap(x, ids)
    if given:
        M = vc.int("max_length", lo=1)
        for k in range(K):
            vc.assume(le(cnt(k), L(M)))
        y, w = mod.to3D_by_class(x, ids, M)
        M = L(M)
    else:
        y, w = mod.to3D_by_class(x, ids)
        M = cnt(0)
        for k in range(1, K):
            M = tm.tmax(M, cnt(k))
    vc.unchanged("inputs", s)
    vc.ensure_shape("shape", y, (K, mk(M), d))
    vc.ensure_shape("shape of the weights", w, (K, mk(M)))
    q, j = L(vc.idx("q", mk(M))), L(vc.idx("j", d))
    for k in range(K):
        sel = x[SArr((L(n),), "b", lambda i: eq(ids.at(i), num(k)))]
        c = cnt(k)
        vc.ensure_eq("weight of class %d" % k, mk(w.at(k, q)), mk(ind(lt(q, c))))
        vc.ensure_eq("rows of class %d" % k, mk(ite(lt(q, c), y.at(k, q, j), num(0))), mk(ite(lt(q, c), sel.at(q, j), num(0))))
        vc.ensure_eq("padding of class %d" % k, mk(ite(lt(q, c), num(0), y.at(k, q, j))), mk(num(0)))


@contract("C20", "tensors.by_seq", targets=[TE + "to3D_by_seq"], replay="tensors")
def c_3ds(vc):
    mod = vc.mod(TEM)
    d = vc.int("d", lo=1)
    K = vc.choose("sequences", [1, 2, 3])
    ns = [vc.int("n%d" % k, lo=1) for k in range(K)]
    x = [vc.array("x%d" % k, (ns[k], d)) for k in range(K)]
    s = vc.snap(*x)
    if vc.case("length given"):
        M = vc.int("max_length", lo=1)
        for n in ns:
            vc.assume(le(L(n), L(M)))
        y, w = mod.to3D_by_seq(x, M)
        M = L(M)
    else:
        y, w = mod.to3D_by_seq(x)
        M = L(ns[0])
        for n in ns[1:]:
            M = tm.tmax(M, L(n))
    vc.unchanged("inputs", s)
    vc.ensure_shape("shape", y, (K, mk(M), d))
    vc.ensure_shape("shape of the weights", w, (K, mk(M)))
    q, j = L(vc.idx("q", mk(M))), L(vc.idx("j", d))
    for k in range(K):
        ok = lt(q, L(ns[k]))
        vc.ensure_eq("weight of sequence %d" % k, mk(w.at(k, q)), mk(ind(ok)))
        vc.ensure_eq("sequence %d" % k, mk(y.at(k, q, j)), mk(ite(ok, x[k].at(q, j), num(0))))


@contract("C20", "eval_set", targets=[TN + "parse_eval_set"], replay="trial_reader")
def c_eval(vc):
    mod = vc.mod(TNM)
    enroll, test = U2I(vc, "enroll"), U2I(vc, "test")
    made = []

    class Nd:
        def __init__(self, m=None, s=None, mask=None):
            self.model_set, self.seg_set, self.trial_mask = m, s, mask
            made.append(self)
    raw = mod.TrialNdx
    vc.patch(mod, "TrialNdx", Nd)
    n, t = vc.int("n", lo=1), vc.int("t", lo=1)
    ndx = types.SimpleNamespace(model_set=vc.array("models", (n,), "S"), seg_set=vc.array("segs", (t,), "S"))
    es = vc.choose("eval_set", ["enroll-test", "enroll-coh", "coh-test", "coh-coh"])
    o, e = raw.parse_eval_set(ndx, enroll, None if es in ("enroll-test", "coh-test") else test, es)
    if es.startswith("enroll"):
        vc.ensure("enrollment of the models of the list", tb(len(enroll.log) == 1 and e is enroll.log[0][1]))
        vc.same("its models", enroll.log[0][0], ndx.model_set)
    else:
        vc.ensure("all the cohort", tb(not enroll.log and e is enroll))
    if es == "enroll-test":
        vc.ensure("trials of the list", tb(o is ndx and not made))
    else:
        vc.ensure("models", tb(len(made) == 1 and o is made[0] and o.trial_mask is None))
        vc.same("models of the trials", o.model_set, ndx.model_set if es == "enroll-coh" else enroll.key)
        vc.same("segments of the trials", o.seg_set, ndx.seg_set if es == "coh-test" else test.key)


def trial_case(vc, modname, multi):
    mod = vc.mod(modname)
    d = vc.int("d", lo=1)
    r = Rd(vc, d)
    files = fact(vc, mod, r)
    lists = {}

    def load(f, sep=" ", **k):
        files.append(("u2i", f, sep))
        lists[f] = U2I(vc, f)
        return lists[f]
    vc.patch(mod, "Utt2Info", types.SimpleNamespace(load=load))

    def nd(nm):
        n, t = vc.int("n_" + nm, lo=1), vc.int("t_" + nm, lo=1)
        o = types.SimpleNamespace(model_set=vc.array("models_" + nm, (n,), "S"), seg_set=vc.array("segs_" + nm, (t,), "S"), log=[])

        def split(*a, **k):
            b = dict(zip(["model_idx", "num_model_parts", "seg_idx", "num_seg_parts"], a))
            b.update(k)
            z = nd("part")
            o.log.append((b, z))
            return z
        o.split = split
        return o
    ndx, parsed, en = nd("file"), nd("parsed"), U2I(vc, "parsed_enroll")
    pc = []

    def parse(n_, e_, t_=None, s_="enroll-test", **k):
        pc.append((n_, e_, k.get("test", t_), k.get("eval_set", s_)))
        return parsed, en
    vc.patch(mod, "TrialNdx", types.SimpleNamespace(load=lambda f: (files.append(("ndx", f)), ndx)[1], parse_eval_set=parse))
    p = Pre(vc) if vc.case("preproc") else None
    mi, mp, si, sp = (vc.int(q, lo=1) for q in ("model_idx", "num_model_parts", "seg_idx", "num_seg_parts"))
    test = vc.choose("test", [None, "tests"])
    nf = vc.choose("ndx", ["ndxfile", None])
    es = "enroll-coh"
    kw = dict(tlist_sep=",", model_idx=mi, num_model_parts=mp, seg_idx=si, num_seg_parts=sp, eval_set=es)
    if multi:
        v = mod.MultiTestTrialDataReader("vectors", nf, "enrolls", test, "subs", p, **kw)
    else:
        v = mod.TrialDataReader("vectors", nf, "enrolls", test, p, **kw)
    want = {("drf", "vectors"), ("u2i", "enrolls", ",")} | ({("ndx", nf)} if nf else set()) | ({("u2i", test, ",")} if test else set()) | ({("u2i", "subs", ",")} if multi else set())
    vc.ensure("files", tb(set(files) == want and len(files) == len(want)))
    vc.ensure("evaluation set", tb(len(pc) == 1 and pc[0][0] is (ndx if nf else None) and pc[0][1] is lists["enrolls"] and pc[0][2] is (lists[test] if test else None) and pc[0][3] == es))
    out = v.read()
    parts = bor(gt(L(mp), num(1)), gt(L(sp), num(1)))
    if parsed.log:
        # the part of the trials: its models and its segments
        b, z = parsed.log[0]
        vc.ensure("part of the trials", tb(len(parsed.log) == 1))
        for q, w in (("model_idx", mi), ("num_model_parts", mp), ("seg_idx", si), ("num_seg_parts", sp)):
            vc.same("part: " + q, b[q], w)
        vc.ensure("enrollment of the part", tb(len(en.log) == 1))
        vc.same("enrollment of the models of the part", en.log[0][0], z.model_set)
        e = en.log[0][1]
        sub = lists["subs"] if multi else None
        if multi:
            vc.ensure("sub-segments of the part", tb(len(sub.log) == 1))
            vc.same("segments of the part", sub.log[0][0], z.seg_set)
            sub = sub.log[0][1]
    else:
        vc.ensure("one part", bnot(parts))
        vc.ensure("all the enrollment", tb(not en.log))
        z, e = parsed, en
        sub = lists["subs"] if multi else None
    vc.ensure("matrices", tb(all(q is True for q in r.log)))
    vc.same("enrollment vectors", out[0], vectors(r, p, e.key))
    vc.same("test vectors", out[1], vectors(r, p, sub.key if multi else z.seg_set))
    vc.same("models", out[2], e.info)
    vc.ensure("trials", tb(out[3] is z))
    if multi:
        vc.ensure("five values", tb(len(out) == 5))
        vc.same("original segments", out[4], sub.info)


@contract("C20", "trial_reader", targets=[TR + "__init__", TR + "read"], replay="trial_reader")
def c_tr(vc):
    trial_case(vc, TRM, False)


@contract("C20", "multi_trial_reader", targets=[MT + "__init__", MT + "read"], replay="trial_reader")
def c_mt(vc):
    trial_case(vc, MTM, True)


def num_sub(modname, cls, key):
    @contract("C20", key, targets=["%s:%s.num_subseqs" % (modname, cls), "%s:%s.num_batches" % (modname, cls), "%s:%s.num_total_subseqs" % (modname, cls)], replay="sequence_reader")
    def c(vc):
        mod = vc.mod(modname)
        C = getattr(mod, cls)
        n = vc.int("n", lo=1)
        s = C.__new__(C)
        len_ = vc.array("length", (n,), "i")
        vc.assume(tm.forall_rng(L(n), lambda i: ge(len_.at(i), num(1))))
        lo, b = vc.int("min_seq_length", lo=1), vc.int("batch_size", lo=1)
        s._seq_length, s._num_subseqs, s._num_batches = len_, None, None
        s.min_seq_length, s.batch_size = lo, b
        mode = vc.choose("mode", ["full", "sequential", "random_slice", "random_samples", "random_slice_1seq", "random_samples_1seq"])
        i = L(vc.idx("i", n))
        T = len_.at(i)
        if mode == "full":
            s.max_seq_length, s.seq_split_mode, s.seq_split_overlap = None, "random_slice", 0
        else:
            hi, ov = vc.choose("sizes", [(7, 0), (7, 3), (400, 100)])
            s.max_seq_length, s.seq_split_mode, s.seq_split_overlap = hi, mode, ov
            vc.assume(band(lt(num(ov), L(lo)), le(L(lo), num(hi))))
            vc.assume(ge(T, num(ov)))
        q = s.num_subseqs
        vc.ensure_shape("a number for each sequence", q, (n,))
        N = q.at(i)
        if mode == "full" or mode.endswith("1seq"):
            vc.ensure_eq("one if it is long enough", mk(N), mk(ind(ge(T, L(lo)))))
        else:
            sh = num(hi - ov)
            vc.ensure("the last slice is long enough", implies(ge(N, num(1)), ge(T, add(mul(sub(N, num(1)), sh), L(lo)))))
            vc.ensure("another slice would be too short", lt(T, add(mul(N, sh), L(lo))))
            vc.ensure("not negative", ge(N, num(0)))
        tot = S1(n, lambda k: q.at(k))
        vc.ensure_eq("total", s.num_total_subseqs, mk(tot))
        B = s.num_batches
        vc.ensure("whole batches", band(le(mul(L(B), L(b)), tot), lt(tot, mul(add(L(B), num(1)), L(b)))))


num_sub(SRM, "SequenceReader", "num_subseqs")
num_sub(PRM, "SequencePostReader", "num_subseqs.post")


FLAGS = [("diag_W", "fullcov_W"), ("no_update_mu", "update_mu"), ("no_update_V", "update_V"), ("no_update_U", "update_U"), ("no_update_B", "update_B"), ("no_update_W", "update_W"), ("no_update_D", "update_D")]


@contract("C20", "plda_factory", targets=[PF + "filter_train_args", PF + "create_plda"], replay="plda_factory")
def c_pf(vc):
    mod = vc.mod(PFM)
    ty = vc.choose("type", ["frplda", "splda", "plda"])
    pre = vc.choose("prefix", [None, "p"])
    p = "" if pre is None else "p_"
    on = vc.choose("option", [None] + [f for f, _ in FLAGS])
    vals = dict(y_dim=vc.int("y_dim"), z_dim=vc.int("z_dim"), floor_iD=vc.real("floor"), name="nm", epochs=vc.int("epochs"), ml_md="ml", md_epochs=None)
    kw = {p + k: v for k, v in vals.items()}
    kw.update({p + f: f == on for f, _ in FLAGS})
    kw[p + "plda_type"] = ty
    kw["other"] = 3
    made = []
    for c in ("FRPLDA", "SPLDA", "PLDA"):
        vc.patch(mod, c, lambda *a, c=c, **k: (made.append((c, a, k)), "model")[1])
    d = mod.PLDAFactory.filter_train_args(pre, **kw)
    m = mod.PLDAFactory.create_plda(**d)
    vc.ensure("one model of the type", tb(m == "model" and len(made) == 1 and made[0][0].lower() == ty and not made[0][1]))
    k = made[0][2]
    uses = dict(frplda=["fullcov_W", "update_mu", "update_B", "update_W"], splda=["fullcov_W", "update_mu", "update_V", "update_W"], plda=["update_mu", "update_V", "update_U", "update_D"])[ty]
    for f, v in FLAGS:
        if v in uses:
            vc.ensure("option %s" % v, tb(k.get(v) == (f != on)))
    vc.ensure("name and epochs", tb(k.get("name") == "nm" and "other" not in k and k.get("ml_md") == "ml"))
    for q in dict(frplda=[], splda=["y_dim"], plda=["y_dim", "z_dim", "floor_iD"])[ty]:
        vc.same(q, k.get(q), vals[q])
