from vc import *
from symbytes import SymBin, SBytes
from shim_np import NP

D = "hyperion.io."
ARK, H5R, DRD = D + "ark_data_reader", D + "h5_data_reader", D + "data_reader"
AW, HW = D + "ark_data_writer:ArkDataWriter.", D + "h5_data_writer:H5DataWriter."


def L(x):
    return lift(x)


def t(b):
    return tm.TRUE if b else tm.FALSE


def mats(vc, keys, vec=False):
    r = []
    for k in keys:
        d = vc.int("cols_" + k, lo=1)
        n = vc.int("rows_" + k, lo=1)
        r.append(vc.array("m_" + k, (d,) if vec else (n, d)).astype("float32"))
    return r


def same_rows(vc, name, y, x, o=num(0), n=None):
    n = sub(x._shape[0], o) if n is None else n
    vc.ensure_shape(name + " shape", y, (mk(n),) + tuple(mk(s) for s in x._shape[1:]))
    ii = [L(vc.idx("i%d" % k, mk(s))) for k, s in enumerate((n,) + x._shape[1:])]
    vc.ensure(name, eq(y.at(*ii), x.at(add(o, ii[0]), *ii[1:])))


KEYS = ["b", "a", "c"]


@contract("C13", "archive.h5_rows", targets=[HW + "write", HW + "_convert_data", H5R + ":_read_h5_data", H5R + ":RandomAccessH5FileDataReader.read"], replay="h5.random")
def c_h5(vc):
    w, r = vc.mod(D + "h5_data_writer"), vc.mod(H5R)
    vc.mod(DRD)
    xs = mats(vc, KEYS)
    with w.H5DataWriter("d/f.h5") as f:
        f.write(VList(list(KEYS)), VList(list(xs)))
    g = r.RandomAccessH5FileDataReader("d/f.h5")
    how = vc.choose("rows", ["all", "offset", "lists"])
    if how == "all":
        y = g.read(VList(["c", "b"]))
        for k, v in (("c", 0), ("b", 1)):
            same_rows(vc, "item " + k, y[v], xs[KEYS.index(k)])
    else:
        o, n = L(vc.int("o", lo=0)), L(vc.int("n", lo=0))
        x = xs[1]
        vc.assume(le(add(o, n), x._shape[0]))
        if how == "offset":
            y = g.read(VList(["a"]), row_offset=mk(o), num_rows=mk(n))[0]
        else:
            y = g.read(VList(["c", "a"]), row_offset=VList([0, mk(o)]), num_rows=VList([0, mk(n)]))
            same_rows(vc, "first of two", y[0], xs[2])
            y = y[1]
        same_rows(vc, "rows", y, x, o, tm.ite(eq(n, num(0)), sub(x._shape[0], o), n))


def fields(vc, how, x, tag):
    """row offset and number of rows of the request; first row and number of rows expected"""
    if how == "all":
        return num(0), num(0), num(0), x._shape[0]
    o, n = L(vc.int("o_" + tag, lo=0)), L(vc.int("n_" + tag, lo=0))
    vc.assume(le(add(o, n), x._shape[0]))
    return o, n, o, tm.ite(eq(n, num(0)), sub(x._shape[0], o), n)


def write_ark(vc, keys, xs, name):
    w = vc.mod(D + "ark_data_writer")
    vc.patch(vc.mod("hyperion.utils.kaldi_io_funcs"), "is_token", lambda k: True)
    f = w.ArkDataWriter(name)
    f.write(VList(list(keys)), VList(list(xs)))
    f.close()


@contract("C13", "archive.ark_sequential", targets=[AW + "write", AW + "_convert_data", ARK + ":SequentialArkFileDataReader.read"], replay="ark.sequential")
def c_ark_seq(vc):
    """items written to an ark file come back in order, with the rows asked for, however many are read at a time"""
    r = vc.mod(ARK)
    xs = mats(vc, KEYS[:2])
    write_ark(vc, KEYS[:2], xs, "sym:f.ark")
    g = r.SequentialArkFileDataReader("sym:f.ark")
    how = vc.choose("rows", ["all", "lists"])
    fs = [fields(vc, how, x, k) for k, x in zip(KEYS, xs)]
    if vc.choose("at a time", ["all", "one"]) == "all":
        ks, ys = g.read(0, row_offset=VList([mk(f[0]) for f in fs]), num_rows=VList([mk(f[1]) for f in fs])) if how == "lists" else g.read()
        ks, ys = list(ks), list(ys)
    else:
        ks, ys = [], []
        for f in fs:
            k, y = g.read(1, row_offset=mk(f[0]), num_rows=mk(f[1]))
            vc.ensure("one item", t(len(k) == 1 and len(y) == 1))
            ks.append(k[0])
            ys.append(y[0])
        k, y = g.read(1)
        vc.ensure("no more items", t(len(k) == 0 and len(y) == 0))
    vc.ensure("keys in order", t(ks == KEYS[:2]))
    for k, (y, x, f) in enumerate(zip(ys, xs, fs)):
        same_rows(vc, "item %d" % k, y, x, f[2], f[3])


class Script:
    """what the readers use of an SCPList (C10)"""

    def __init__(self, keys, files, offsets, ranges):
        self.key, self.file_path, self.offsets, self.ranges = keys, files, offsets, ranges

    def __vc_in__(self, k):
        return k in self.key

    __contains__ = __vc_in__

    def get_index(self, k):
        return self.key.index(k)

    def vlen(self):
        return len(self.key)

    __len__ = vlen

    def __getitem__(self, i):
        i = int(lift(i).val) if isinstance(lift(i), T) else i
        return self.key[i], self.file_path[i], self.offsets[i], self.ranges[i]


@contract("C13", "archive.ark_random", targets=[AW + "write", ARK + ":RandomAccessArkDataReader.read", ARK + ":RandomAccessArkDataReader._open_archive"], replay="ark.random")
def c_ark_rnd(vc):
    """items asked by key in any order, from the offsets that the writer wrote to its script, with row ranges in script and request"""
    ark_random(vc, "random")


@contract("C13", "archive.ark_script", targets=[ARK + ":SequentialArkScriptDataReader.read", ARK + ":SequentialArkDataReader._open_archive", ARK + ":SequentialArkDataReader._seek"], replay="ark.script")
def c_ark_script(vc):
    ark_random(vc, "script")


def ark_random(vc, kind):
    r = vc.mod(ARK)
    w = vc.mod(D + "ark_data_writer")
    vc.patch(vc.mod("hyperion.utils.kaldi_io_funcs"), "is_token", lambda k: True)
    keys = KEYS
    xs = mats(vc, keys)
    offs = []
    files = ["sym:f.ark", "sym:f.ark", "sym:g.ark"]
    for nm in ("sym:f.ark", "sym:g.ark"):
        f = w.ArkDataWriter(nm)
        for k, x, fi in zip(keys, xs, files):
            if fi == nm:
                offs.append(mk(add(L(f.f.tell()), num(len(k) + 1))))
                f.write(k, x)
        f.close()
    ranged = vc.choose("script range", ["no", "yes"]) == "yes"
    ranges, a, m = [None] * 3, num(0), xs[1]._shape[0]
    if ranged:
        a, m = L(vc.int("first", lo=0)), L(vc.int("range", lo=1))
        vc.assume(le(add(a, m), xs[1]._shape[0]))
        ranges[1] = (mk(a), mk(m))
    o, n = L(vc.int("o", lo=0)), L(vc.int("n", lo=0))
    vc.assume(lt(o, m))
    vc.assume(le(add(o, n), m))
    scp = Script(keys, files, offs, ranges)
    vc.patch(r.SCPList, "load", lambda *a, **k: scp)
    rows = tm.ite(eq(n, num(0)), sub(m, o), n)
    if kind == "random":
        vc.patch(NP, "unique", lambda x, return_inverse=False: (VList(sorted(set(x))), VList([sorted(set(x)).index(a) for a in x])))
        g = r.RandomAccessArkDataReader("sym:f.scp")
        order = vc.choose("order", [["c", "b", "a"], ["a", "c", "b"]])
        y = g.read(VList(order), row_offset=VList([mk(o) if k == "a" else 0 for k in order]), num_rows=VList([mk(n) if k == "a" else 0 for k in order]))
        got = dict(zip(order, y))
    else:
        g = r.SequentialArkScriptDataReader("sym:f.scp")
        ks, y = g.read(0, row_offset=VList([0, mk(o), 0]), num_rows=VList([0, mk(n), 0]))
        vc.ensure("keys in order", t(list(ks) == keys))
        got = dict(zip(ks, y))
        k, y = g.read(1)
        vc.ensure("no more items", t(len(k) == 0))
        g.reset()
        k, y = g.read(1)
        vc.ensure("first key after reset", t(list(k) == keys[:1]))
        same_rows(vc, "first item after reset", y[0], xs[0])
    for k, x in zip(keys, xs):
        if k == "a":
            same_rows(vc, "item a", got[k], x, add(a, o), rows)
        else:
            same_rows(vc, "item " + k, got[k], x)


@contract("C13", "archive.ark_offsets", targets=[AW + "write", AW + "__init__", AW + "close"], replay="ark.random")
def c_offsets(vc):
    """each line of the script has the key, the archive and the position of the item after its key"""
    w = vc.mod(D + "ark_data_writer")
    vc.patch(vc.mod("hyperion.utils.kaldi_io_funcs"), "is_token", lambda k: True)
    vc.patch(w.os.path, "exists", lambda p: True) if hasattr(w, "os") else None
    keys = KEYS[:2]
    xs = mats(vc, keys)
    f = w.ArkDataWriter("sym:f.ark", "sym:f.scp")
    f.write(VList(list(keys)), VList(list(xs)))
    f.close()
    import symio
    g = symio.open_("sym:f.ark", "rb")
    kf = vc.mod("hyperion.utils.kaldi_io_funcs")
    fl = symio.open_("sym:f.scp", "r")
    lines = [fl.readline() for k in range(3)]
    vc.ensure("no more lines", t(lines.pop() == ""))
    vc.ensure("one line per item", t(len(lines) == 2))
    km = vc.mod("hyperion.utils.kaldi_matrix")
    for k, l in zip(keys, lines):
        kf.read_token(g, False)
        vc.ensure_eq("line of " + k, l, k + " sym:f.ark:" + vc_str(g.tell()) + "\n")
        kf.init_kaldi_input_stream(g)
        km.KaldiMatrix.read(g, True)


def vc_str(x):
    import loader
    return loader.vc_str(x)


@contract("C13", "archive.h5_sequential", targets=[HW + "write", H5R + ":SequentialH5FileDataReader.read", H5R + ":SequentialH5FileDataReader.reset", H5R + ":SequentialH5FileDataReader.eof"], replay="h5.sequential")
def c_h5_seq(vc):
    w, r = vc.mod(D + "h5_data_writer"), vc.mod(H5R)
    xs = mats(vc, KEYS)
    with w.H5DataWriter("d/f.h5") as f:
        f.write(VList(list(KEYS)), VList(list(xs)))
    g = r.SequentialH5FileDataReader("d/f.h5")
    keys = sorted(KEYS)
    fs = [fields(vc, "lists" if k == "a" else "all", x, k) for k, x in zip(KEYS, xs)]
    fs = [fs[KEYS.index(k)] for k in keys]
    how = vc.choose("at a time", ["all", "one", "two"])
    ks, ys = [], []
    if how == "all":
        ks, ys = g.read(0, row_offset=VList([mk(f[0]) for f in fs]), num_rows=VList([mk(f[1]) for f in fs]))
        ks, ys = list(ks), list(ys)
    else:
        m = 1 if how == "one" else 2
        for o in range(0, 3, m):
            b = fs[o:o + m]
            k, y = g.read(m, row_offset=VList([mk(f[0]) for f in b]), num_rows=VList([mk(f[1]) for f in b]))
            ks += list(k)
            ys += list(y)
    vc.ensure("end of file", t(g.eof() is True))
    vc.ensure("keys in order", t(ks == keys))
    for k, y, f in zip(ks, ys, fs):
        same_rows(vc, "item " + k, y, xs[KEYS.index(k)], f[2], f[3])
    g.reset()
    k, y = g.read(1)
    vc.ensure("first key after reset", t(list(k) == keys[:1]))
