from harness import *
import argparse
from hyperion.io.h5_data_writer import H5DataWriter
from hyperion.utils.utt2info import Utt2Info
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.tensors import to3D_by_class, to3D_by_seq
from hyperion.helpers.vector_reader import VectorReader
from hyperion.helpers.vector_class_reader import VectorClassReader
from hyperion.helpers.trial_data_reader import TrialDataReader
from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader
from hyperion.helpers.sequence_reader import SequenceReader
from hyperion.helpers.plda_factory import PLDAFactory

H = "hyperion.helpers."
VR, VC, TR, MT = H + "vector_reader:VectorReader.", H + "vector_class_reader:VectorClassReader.", H + "trial_data_reader:TrialDataReader.", H + "multi_test_trial_data_reader:MultiTestTrialDataReader."
SR, PF, TN, TE = H + "sequence_reader:SequenceReader.", H + "plda_factory:PLDAFactory.", "hyperion.utils.trial_ndx:TrialNdx.", "hyperion.utils.tensors:"


class Sub:
    def __init__(self, a):
        self.a = a

    def predict(self, x):
        return self.a * x


def store(r, keys, d):
    f = os.path.join(r.tmp, "v.h5")
    x = np.round(r.arr(len(keys), d), 3).astype("float32")
    x[:, 0] = r.perm(len(keys))
    w = H5DataWriter(f)
    w.write(list(keys), x)
    w.close()
    return "h5:" + f, dict(zip(keys, x))


def vecs(x, keys):
    return np.array([x[k] for k in keys])


@case("C20", "vector_reader", targets=[VR + "read", VR + "filter_args"])
def k1(r):
    keys = r.names(r.size(2, 8))
    f, x = store(r, keys, r.size(2, 3))
    sep = r.pick(" ", "=", ",")
    sel = [r.py.choice(keys) for _ in range(r.int(1, len(keys)))]
    sel = list(dict.fromkeys(sel))
    lst = os.path.join(r.tmp, "list")
    with open(lst, "w") as h:
        for k in sel:
            h.write(k + sep + "file" + "\n")
    p = Sub(2.0) if r.bool() else None
    pre = r.pick(None, "tr")
    pa = argparse.ArgumentParser()
    VectorReader.add_argparse_args(pa, pre)
    kw = VectorReader.filter_args(pre, **vars(pa.parse_args(["--%svlist-sep" % ("" if pre is None else pre + "-"), sep])))
    v = VectorReader(f, lst, p, **kw)
    close(v.read(), vecs(x, sel) * (1 if p is None else 2), "vectors of the list", 1e-5)


def u2c_of(r, K, lo=1, hi=7):
    cnt = [r.int(lo, hi) for _ in range(K)]
    info = [c for c, n in zip(r.names(K, prefix="c"), cnt) for _ in range(n)]
    if r.bool():
        info = [info[i] for i in r.perm(len(info))]
    keys = r.names(len(info))
    return keys, info


def groups(u):
    g = {}
    for k, c in zip(u.key, u.info):
        g.setdefault(c, []).append(k)
    return g


@case("C20", "vector_class.filter", targets=[VC + "_filter_by_spc"])
def k2(r):
    keys, info = u2c_of(r, r.int(1, 5))
    u = Utt2Info.create(keys, info)
    lo = r.int(1, 5)
    hi = r.int(1, 6) if r.bool(.7) else None
    mode = r.pick("random", "first", "last")
    o = VectorClassReader._filter_by_spc(u, lo, hi, mode, np.random.RandomState(r.int(0, 99)))
    g0, g = groups(u), groups(o)
    same(sorted(g), sorted(c for c in g0 if len(g0[c]) >= lo), "classes")
    pos = {k: i for i, k in enumerate(keys)}
    check([pos[k] for k in o.key] == sorted(pos[k] for k in o.key), "order of the list")
    for c in g:
        a = g0[c]
        n = len(a) if hi is None else min(len(a), hi)
        check(len(g[c]) == n and set(g[c]) <= set(a), "%d elements of %s, expected %d" % (len(g[c]), c, n))
        if mode == "last":
            check(g[c] == a[:n], "the last elements go")
        if mode == "first":
            check(g[c] == a[len(a) - n:], "the first elements go")


@case("C20", "vector_class.split", targets=[VC + "_split_classes"])
def k3(r):
    keys, info = u2c_of(r, r.int(1, 6), 1, r.pick(4, 12))
    u = Utt2Info.create(keys, info)
    hi = r.int(1, 6)
    ov = r.int(0, hi - 1)
    lo = r.int(1, hi)
    mode = r.pick("sequential", "random", "random_1part")
    o = VectorClassReader._split_classes(u, lo, hi, mode, ov, np.random.RandomState(r.int(0, 99)))
    g0, g = groups(u), groups(o)
    cls = dict(zip(keys, info))
    parts = {}
    for s in g.values():
        check(len({cls[k] for k in s}) == 1, "a part mixes classes")
        check(lo <= len(s) <= hi or (lo <= len(s) and max(map(len, g0.values())) <= hi), "part of %d elements" % len(s))
        check(len(set(s)) == len(s), "an element twice in a part")
        parts.setdefault(cls[s[0]], []).append(s)
    for c, a in g0.items():
        n = len(a)
        if mode == "random_1part":
            check(len(parts.get(c, [])) == (1 if n >= lo else 0), "one part for each class")
            continue
        if n <= hi:
            want = [a] if n >= lo else []
            check(sorted(parts.get(c, [])) == sorted(want), "class that fits in a part")
            continue
        sh = hi - ov
        m = int(np.ceil((n - hi) / sh)) + 1
        if mode == "sequential":
            want = [a[k * sh:k * sh + hi] for k in range(m)]
            check(sorted(parts.get(c, [])) == sorted(w for w in want if len(w) >= lo), "parts of class %s" % c)
            check(set(sum(want, [])) == set(a), "all")
        else:
            check(len(parts[c]) == m and all(len(s) == hi for s in parts[c]), "random parts of class %s" % c)


@case("C20", "vector_class.read", targets=[VC + "read", VC + "class_names", VC + "samples_per_class", VC + "max_samples_per_class", VC + "__init__", VC + "filter_args"])
def k4(r):
    K = r.int(1, 4)
    keys, info = u2c_of(r, K)
    f, x = store(r, keys, r.size(2, 3))
    lst = os.path.join(r.tmp, "u2c")
    Utt2Info.create(keys, info).save(lst)
    cl = None
    if r.bool(.4):
        cl = os.path.join(r.tmp, "cl")
        names = sorted(set(info))
        ids = dict(zip(names, (int(i) for i in r.perm(len(names)))))
        with open(cl, "w") as h:
            for n in names:
                h.write("%s %d\n" % (n, ids[n]))
    else:
        ids = {c: i for i, c in enumerate(sorted(set(info)))}
    v = VectorClassReader(f, lst, Sub(3.0), class2int_file=cl)
    y, c = v.read()
    close(y, 3 * vecs(x, keys), "vectors", 1e-5)
    same(c, [ids[k] for k in info], "class numbers")
    same([v.class_names[i] for i in c], info, "class names")
    same(v.samples_per_class, [info.count(k) for k in sorted(set(info))], "samples of each class")
    check(v.max_samples_per_class == max(info.count(k) for k in info), "largest class")
    if cl is None:
        y3, w = v.read(return_3d=True)
        check(y3.shape[:2] == (len(ids), v.max_samples_per_class), "shape")
        for k in range(len(ids)):
            m = c == k
            close(y3[k, :m.sum()], y[m], "vectors of the class", 1e-5)
            check(np.all(y3[k, m.sum():] == 0), "padding")
            same(w[k], (np.arange(w.shape[1]) < m.sum()).astype(float), "weights of the class")
    pa = argparse.ArgumentParser()
    VectorClassReader.add_argparse_args(pa, "t")
    mode = r.pick("sequential", "random", "random_1part")
    o, hi = r.int(0, 1), r.int(2, 4)
    a = pa.parse_args(["--t-csplit-max-spc", str(hi), "--t-csplit-mode", mode, "--t-csplit-overlap", str(o)])
    v = VectorClassReader(f, lst, **VectorClassReader.filter_args("t", **vars(a)))
    y, c = v.read()
    check(np.bincount(c).max() <= hi and len(np.bincount(c)) >= len(set(info)), "parts of the classes")
    if mode == "random_1part":
        same(np.sort(np.bincount(c)), np.sort([min(hi, info.count(k)) for k in set(info)]), "one part for each class")
    elif mode == "sequential" and o == 0:
        check(len(y) == len(info), "all the vectors")
    # a new split every time
    v = VectorClassReader(f, lst, csplit_max_spc=2, csplit_once=False, csplit_mode=r.pick("random", "sequential"))
    for _ in range(2):
        y, c = v.read()
        check(len(y) == len(c) and np.bincount(c).max() <= 2, "parts of two")
        lab = {tuple(a): b for a, b in zip(x.values(), [info[keys.index(k)] for k in x])}
        for k in set(c.tolist()):
            check(len({lab[tuple(np.float32(a))] for a in y[c == k]}) == 1, "a part mixes classes")


@case("C20", "tensors", targets=[TE + "to3D_by_class", TE + "to3D_by_seq"])
def k5(r):
    K, d = r.int(1, 4), r.size(1, 3)
    ids = r.labels(r.int(1, 9), K)
    ids[-1] = K - 1
    x = r.arr(len(ids), d)
    L = r.pick(0, 12)
    y, w = to3D_by_class(x, ids, L)
    M = L if L else max(np.sum(ids == k) for k in range(K))
    check(y.shape == (K, M, d) and w.shape == (K, M), "shape")
    for k in range(K):
        n = np.sum(ids == k)
        same(y[k, :n], x[ids == k], "rows of the class in order")
        check(not y[k, n:].any() and not w[k, n:].any() and np.all(w[k, :n] == 1), "padding and weights")
    s = [r.arr(r.int(1, 5), d) for _ in range(r.int(1, 4))]
    L = r.pick(0, 7)
    y, w = to3D_by_seq(s, L)
    M = L if L else max(map(len, s))
    check(y.shape == (len(s), M, d) and w.shape == (len(s), M), "shape")
    for i, a in enumerate(s):
        same(y[i, :len(a)], a, "sequence")
        check(not y[i, len(a):].any() and not w[i, len(a):].any() and np.all(w[i, :len(a)] == 1), "padding and weights of sequences")


@case("C20", "trial_reader", targets=[TR + "__init__", TR + "read", MT + "__init__", MT + "read", TN + "parse_eval_set", TN + "split"])
def k6(r):
    nm, ns = r.int(1, 5), r.int(1, 5)
    models = r.names(nm, prefix="m")
    segs = r.names(ns, prefix="t")
    files = [("e%d" % i, models[i % nm]) for i in range(nm + r.int(0, 3))]
    extra = [("x%d" % i, "other%d" % i) for i in range(r.int(0, 2))]
    allf = files + extra
    allf = [allf[i] for i in r.perm(len(allf))]
    subs = [("s%d" % i, segs[i % ns]) for i in range(ns + r.int(0, 3))]
    coh = ["c%d" % i for i in range(r.int(1, 3))]
    f, x = store(r, [a for a, _ in allf] + segs + [a for a, _ in subs] + coh, r.size(2, 3))
    t = r.tmp
    en, te, so = (os.path.join(t, a) for a in ("enroll", "test", "sub"))
    Utt2Info.create([a for a, _ in allf], [b for _, b in allf]).save(en)
    Utt2Info.create(coh, coh).save(te)
    Utt2Info.create([a for a, _ in subs], [b for _, b in subs]).save(so)
    ndx = TrialNdx(models, segs, r.mask(nm, ns))
    nf = os.path.join(t, "ndx.h5")
    ndx.save(nf)
    full = TrialNdx.load(nf)
    es = r.pick("enroll-test", "enroll-test", "enroll-coh")
    mp, sp = r.int(1, nm), r.int(1, ns if es == "enroll-test" else len(coh))
    seen = []
    for mi in range(1, mp + 1):
        for si in range(1, sp + 1):
            kw = dict(model_idx=mi, num_model_parts=mp, seg_idx=si, num_seg_parts=sp)
            rd = TrialDataReader(f, nf, en, te if es == "enroll-coh" else None, Sub(2.0), eval_set=es, **kw)
            xe, xt, info, nd = rd.read()
            want = [(a, b) for a, b in allf if b in set(nd.model_set.tolist())]
            same(info, [b for _, b in want], "models of the enrollment")
            close(xe, 2 * vecs(x, [a for a, _ in want]), "enrollment vectors", 1e-5)
            close(xt, 2 * vecs(x, nd.seg_set), "test vectors", 1e-5)
            for i, m in enumerate(nd.model_set):
                for j, s in enumerate(nd.seg_set):
                    seen.append((m, s))
                    if es == "enroll-test":
                        check(bool(nd.trial_mask[i, j]) == bool(full.trial_mask[list(full.model_set).index(m), list(full.seg_set).index(s)]), "trial (%s,%s)" % (m, s))
            if es == "enroll-test":
                rd = MultiTestTrialDataReader(f, nf, en, None, so, None, **kw)
                xe, xt, info, nd2, orig = rd.read()
                ws = [(a, b) for a, b in subs if b in set(nd2.seg_set.tolist())]
                same(nd2.seg_set, nd.seg_set, "segments of the part")
                same(orig, [b for _, b in ws], "original segments")
                close(xt, vecs(x, [a for a, _ in ws]), "vectors of the parts of the segments", 1e-5)
    want = [(m, s) for m in full.model_set for s in (full.seg_set if es == "enroll-test" else coh)]
    check(sorted(seen) == sorted(want), "the parts are not a partition of the trials")


def seqs(r):
    n, d = r.int(1, 6), 2
    keys = r.names(n)
    f = os.path.join(r.tmp, "s.h5")
    import h5py
    x = {}
    with h5py.File(f, "w") as h:
        for i, k in enumerate(keys):
            x[k] = np.arange(1, r.int(1, 14) + 1)[:, None] + 100. * (i + 1) + np.zeros((1, d))
            h.create_dataset(k, data=x[k])
    lst = os.path.join(r.tmp, "list")
    with open(lst, "w") as h:
        for k in keys:
            h.write(k + "=" + k + "\n")
    return f, lst, keys, x


@case("C20", "sequence_reader", targets=[SR + "read", SR + "read_full_seqs", SR + "_read_subseqs_sequential", SR + "_read_subseqs_random", SR + "_read_subseqs_random_1seq", SR + "num_subseqs", SR + "num_batches", SR + "reset"], weight=1.5)
def k7(r):
    f, lst, keys, x = seqs(r)
    lo = r.int(1, 5)
    sh = r.bool()
    b = r.int(1, 3)
    mode = r.pick("full", "sequential", "random_slice", "random_samples", "random_slice_1seq", "random_samples_1seq")
    if mode == "full":
        s = SequenceReader(f, lst, batch_size=b, shuffle_seqs=sh, min_seq_length=lo)
    else:
        hi = r.int(lo, 8)
        ov = r.int(0, min(hi - 1, lo - 1)) if mode == "sequential" else 0
        s = SequenceReader(f, lst, batch_size=b, shuffle_seqs=sh, min_seq_length=lo, max_seq_length=hi, seq_split_mode=mode, seq_split_overlap=ov)
    long_ = {k for k in keys if len(x[k]) >= lo}
    for epoch in range(2):
        s.reset() if False else None
        got = []
        nb = s.num_batches
        if nb == 0:
            return
        for _ in range(nb):
            a, ks = s.read()
            check(len(a) == len(ks) == b, "size of the batch")
            got += list(zip(ks, a))
        for k, a in got:
            # row values tell the sequence and the row
            rows = np.round(a[:, 0] - 100 * (keys.index(k) + 1)).astype(int) - 1
            check(np.all(rows >= 0) and np.all(rows < len(x[k])), "rows of another sequence")
            same(a, x[k][rows], "rows")
            if mode == "full":
                same(rows, np.arange(len(x[k])), "whole sequence")
            elif "slice" in mode or mode == "sequential":
                check(np.all(np.diff(rows) == 1), "consecutive rows")
            if mode != "full":
                check(lo <= len(rows) <= hi or "random" in mode, "length %d" % len(rows))
        if mode == "full" or mode.endswith("1seq"):
            check(set(k for k, _ in got) <= long_ and len(set(k for k, _ in got)) == len(got), "each long enough sequence once")
            check(len(got) == nb * b and nb == len(long_) // b, "number of sequences")
        if mode == "sequential" and int(s.num_total_subseqs) % b == 0:
            step = hi - ov
            for k in keys:
                st = sorted((int(a[0, 0] - 100 * (keys.index(k) + 1)) - 1, len(a)) for kk, a in got if kk == k)
                check(st == [(i * step, min(hi, len(x[k]) - i * step)) for i in range(len(st))], "slices of %s: %s" % (k, st))
                last = st[-1][0] + st[-1][1] if st else 0
                check(len(x[k]) - last < lo, "the end of %s is not read: %s" % (k, st))


@case("C20", "plda_factory", targets=[PF + "filter_train_args", PF + "create_plda", PF + "add_argparse_train_args"])
def k8(r):
    pre = r.pick(None, "p")
    pa = argparse.ArgumentParser()
    PLDAFactory.add_argparse_train_args(pa, pre)
    d1 = "--" if pre is None else "--p-"
    ty = r.pick("frplda", "splda", "plda")
    y, z = r.int(1, 9), r.int(1, 9)
    flags = [("diag-W", "fullcov_W"), ("no-update-mu", "update_mu"), ("no-update-V", "update_V"), ("no-update-U", "update_U"), ("no-update-B", "update_B"), ("no-update-w", "update_W"), ("no-update-d", "update_D")]
    on = [f for f in flags if r.bool(.4)]
    fl = r.pos()
    a = [d1 + "plda-type", ty, d1 + "y-dim", str(y), d1 + "z-dim", str(z), d1 + "floor-id", repr(fl), d1 + "name", "nm"] + [d1 + f for f, _ in on]
    m = PLDAFactory.create_plda(**PLDAFactory.filter_train_args(pre, **vars(pa.parse_args(a))))
    check(m.__class__.__name__.lower() == ty and m.name == "nm", "type and name")
    off = {v for _, v in on}
    uses = dict(frplda=["fullcov_W", "update_mu", "update_B", "update_W"], splda=["fullcov_W", "update_mu", "update_V", "update_W"], plda=["update_mu", "update_V", "update_U", "update_D"])[ty]
    for v in uses:
        check(getattr(m, v) == (v not in off), "option %s" % v)
    if ty != "frplda":
        check(m.y_dim == y, "y_dim")
    if ty == "plda":
        check(m.z_dim == z and m.floor_iD == fl, "z_dim and floor")
