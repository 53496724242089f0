import io, os
from harness import *
from hyperion.utils import kaldi_io_funcs as KF
from hyperion.utils.kaldi_matrix import KaldiMatrix, KaldiCompressedMatrix
from hyperion.utils.scp_list import SCPList
from hyperion.io.data_reader import DataReader
from hyperion.io import ark_data_reader as A, h5_data_reader as H
from hyperion.io.ark_data_writer import ArkDataWriter
from hyperion.io.h5_data_writer import H5DataWriter
from hyperion.io.data_rw_factory import DataWriterFactory, SequentialDataReaderFactory, RandomAccessDataReaderFactory
from hyperion.io.rw_specifiers import WSpecifier, RSpecifier, WSpecType, RSpecType, ArchiveType

KM = "hyperion.utils.kaldi_matrix:KaldiMatrix."
AD, HD, DR = "hyperion.io.ark_data_reader:", "hyperion.io.h5_data_reader:", "hyperion.io.data_reader:DataReader."
RS = "hyperion.io.rw_specifiers:"


def mat(r, cols=None, rows=None, vec=False, dtype="float32"):
    n = r.size(0, 9) if rows is None else rows
    d = r.size(1, 5) if cols is None else cols
    return (r.arr(d) if vec else r.arr(n, d)).astype(dtype)


def stream(b):
    return io.BufferedReader(io.BytesIO(b), buffer_size=16)


def okrange(r, n):
    """a row offset and a number of rows inside a matrix of n rows (0: all the rest)"""
    o = r.int(0, n)
    return o, r.int(0, n - o)


def sl(x, o, m):
    return x[o:] if m == 0 else x[o:o + m]


def exact(a, b, msg):
    check(a.shape == b.shape, "%s: shape %s instead of %s" % (msg, a.shape, b.shape))
    check(np.array_equal(a, b), "%s: values differ\n%s\n%s" % (msg, a, b))


@case("C13", "kaldi_matrix.binary", targets=[KM + "write", KM + "read", KM + "read_shape", "hyperion.utils.kaldi_io_funcs:read_token", "hyperion.utils.kaldi_io_funcs:write_token", "hyperion.utils.kaldi_io_funcs:peek", "hyperion.utils.kaldi_io_funcs:read_int32", "hyperion.utils.kaldi_io_funcs:write_int32"])
def k1(r):
    n = r.size(1, 4)
    ms = [mat(r, vec=r.bool(0.3), dtype=r.pick("float32", "float64")) for _ in range(n)]
    if r.bool(0.3):
        ms[0] = np.asfortranarray(ms[0])
    b = io.BytesIO()
    for k, m in enumerate(ms):
        KF.write_token(b, True, "k%d" % k)
        KF.init_kaldi_output_stream(b, True)
        KaldiMatrix(m).write(b, True)
    f = stream(b.getvalue())
    how = r.pick("all", "range", "shape")
    for k, m in enumerate(ms):
        check(KF.read_token(f, True) == "k%d" % k, "key %d" % k)
        check(KF.init_kaldi_input_stream(f), "binary mark")
        if how == "shape":
            check(tuple(KaldiMatrix.read_shape(f, True)) == m.shape, "shape")
            continue
        o, c = okrange(r, m.shape[0]) if how == "range" and m.ndim == 2 else (0, 0)
        x = KaldiMatrix.read(f, True, o, c).to_ndarray()
        exact(x, sl(m, o, c), "matrix %d" % k)
        check(x.dtype == m.dtype, "type of the values")
    check(f.read() == b"", "position at the end")
    m = r.arr(3, 2)
    b = io.BytesIO()
    KaldiMatrix(m).write(b, True)
    raises(lambda: KaldiMatrix.read(stream(b.getvalue()), True, 4, 0), "row offset past the end", AssertionError)
    raises(lambda: KaldiMatrix.read(stream(b.getvalue()), True, 1, 3), "more rows than there are", AssertionError)


@case("C13", "kaldi_matrix.text", targets=[KM + "write", KM + "read", KM + "read_shape"])
def k2(r):
    m = mat(r, vec=r.bool(0.3), rows=r.size(1, 6))
    m = np.round(m, 4)
    p = os.path.join(r.tmp, "t")
    with open(p, "w") as f:
        KaldiMatrix(m).write(f, False)
        KaldiMatrix(m + 1).write(f, False)
    with open(p, "rb") as f:
        if r.bool(0.3):
            check(tuple(KaldiMatrix.read_shape(f, False)) == m.shape, "shape")
        else:
            x = KaldiMatrix.read(f, False).to_ndarray()
            check(x.shape == m.shape, "shape %s" % (x.shape,))
            close(x, m, "text", tol=1e-5)
        y = KaldiMatrix.read(f, False).to_ndarray()
        close(y, m + 1, "next matrix", tol=1e-5)


class Arch:
    """an archive with a script written by the library"""

    def __init__(self, r, kind, compress=False, binary=True, vec=False, lo=1, nfiles=None):
        self.r, self.kind, self.d = r, kind, r.tmp
        self.keys, self.data, self.lines = [], {}, []
        self.files = []
        cols = r.size(1, 4)
        nf = nfiles or r.size(1, 3)
        c = 0
        for k in range(nf):
            p = os.path.join(self.d, "f%d.%s" % (k, kind))
            s = os.path.join(self.d, "f%d.scp" % k)
            n = r.size(lo, 4)
            keys = ["u%02d" % (c + i) for i in range(n)]
            if kind == "ark":
                r.py.shuffle(keys)
            c += n
            ms = [np.round(mat(r, cols, r.size(1, 7), vec), 3) for _ in keys]
            W = ArkDataWriter(p, s, binary=binary, compress=compress, flush=r.bool()) if kind == "ark" else H5DataWriter(p, s, compress=compress, flush=r.bool())
            with W as w:
                if r.bool(0.3):
                    for a, b in zip(keys, ms):
                        w.write(a, b)
                else:
                    w.write(keys, ms)
            self.keys += keys
            self.data.update(zip(keys, ms))
            self.lines += [l.rstrip("\n") for l in open(s)]
            self.files.append((p, keys))
        check(len(self.lines) == len(self.keys), "script has a line for every matrix")
        self.tol = 0 if binary else 1e-5

    def script(self, ranges=False, shuffle=True, lines=None):
        lines = list(self.lines if lines is None else lines)
        if shuffle:
            self.r.py.shuffle(lines)
        self.rng, out = {}, []
        for l in lines:
            k = l.split(" ")[0]
            n = self.data[k].shape[0]
            if ranges:
                a = self.r.int(0, n - 1)
                b = self.r.int(a, n - 1)
                self.rng[k] = (a, b + 1 - a)
                l += "[%d:%d]" % (a, b + 1)
            out.append(l)
        p = os.path.join(self.d, "all.scp")
        open(p, "w").write("".join(l + "\n" for l in out))
        return p, [l.split(" ")[0] for l in lines]

    def of(self, k):
        x = self.data[k]
        if k in getattr(self, "rng", {}):
            a, m = self.rng[k]
            x = x[a:a + m]
        return x


def eqm(x, y, tol, msg):
    check(x.shape == y.shape, "%s: shape %s instead of %s" % (msg, x.shape, y.shape))
    if tol == 0:
        check(np.array_equal(np.asarray(x, dtype="float32"), np.asarray(y, dtype="float32")), "%s: got %s expected %s" % (msg, x, y))
    else:
        close(x, y, msg, tol=tol)


def seq_check(r, rd, keys, get, tol, what):
    """reads everything in chunks, with row ranges given as numbers or lists"""
    mode = r.pick("all", "chunks", "iter", "shapes", "rows", "dims", "offsets")
    if mode == "iter":
        it = [(k, x) for k, x in rd]
        check([k for k, _ in it] == list(keys), what + ": keys")
        for k, x in it:
            eqm(x, get(k), tol, what + ": " + k)
    elif mode in ("shapes", "rows", "dims"):
        got, pos = [], []
        while len(pos) < len(keys):
            c = r.int(0, 3)
            a, b = {"shapes": rd.read_shapes, "rows": rd.read_num_rows, "dims": rd.read_dims}[mode](c)
            check(len(a) == len(b) and len(a) > 0, what + ": count")
            pos += list(a)
            got += list(b)
        check(pos == list(keys), what + ": keys of the shapes")
        for k, s in zip(pos, got):
            x = get(k)
            e = {"shapes": x.shape, "rows": x.shape[0] if x.ndim == 2 else 1, "dims": x.shape[-1]}[mode]
            check((tuple(s) if mode == "shapes" else int(s)) == e, "%s: %s of %s is %s instead of %s" % (what, mode, k, s, e))
    else:
        pos = 0
        while pos < len(keys):
            c = r.int(1, 3) if mode != "all" else 0
            m = keys[pos:] if c == 0 else keys[pos:pos + c]
            kw = {}
            off = [0] * len(m)
            num = [0] * len(m)
            if mode == "offsets" and all(get(k).ndim == 2 for k in m):
                for i, k in enumerate(m):
                    off[i] = r.int(0, get(k).shape[0] - 1)
                    num[i] = r.int(0, get(k).shape[0] - off[i])
                u = r.pick("lists", "arrays", "offset", "rows", "numbers")
                if u == "numbers":
                    off = [min(off)] * len(m)
                    num = [0] * len(m)
                    kw = dict(row_offset=off[0])
                elif u == "offset":
                    num = [0] * len(m)
                    kw = dict(row_offset=list(off))
                elif u == "rows":
                    off = [0] * len(m)
                    num = [min(num[i], get(k).shape[0]) for i, k in enumerate(m)]
                    kw = dict(num_rows=list(num))
                else:
                    kw = dict(row_offset=off if u == "lists" else np.array(off), num_rows=num if u == "lists" else np.array(num))
            a, b = rd.read(c, **kw)
            check(list(a) == list(m) and len(b) == len(m), "%s: keys %s instead of %s" % (what, a, m))
            for i, (k, x) in enumerate(zip(a, b)):
                eqm(x, sl(get(k), off[i], num[i]), tol, "%s: %s rows %d %d" % (what, k, off[i], num[i]))
            pos += len(m)
    a, b = rd.read(1)
    check(len(a) == 0 and len(b) == 0, what + ": nothing after the end")
    check(rd.eof(), what + ": end of file")
    rd.reset()
    if len(keys):
        check(not rd.eof(), what + ": not at the end after reset")
        a, b = rd.read(1)
        check(list(a) == [keys[0]], what + ": first after reset")
        eqm(b[0], get(keys[0]), tol, what + ": after reset")
    rd.close()


@case("C13", "ark.sequential", targets=[AD + "SequentialArkFileDataReader.read", AD + "SequentialArkFileDataReader.read_shapes", "hyperion.io.ark_data_writer:ArkDataWriter.write"])
def k3(r):
    binary = r.bool(0.7)
    a = Arch(r, "ark", binary=binary, vec=r.bool(0.3), nfiles=1)
    p, keys = a.files[0]
    if binary:
        seq_check(r, A.SequentialArkFileDataReader(p), keys, lambda k: a.data[k], 0, "ark")
    else:
        with A.SequentialArkFileDataReader(p) as rd:
            k, x = rd.read()
            check(list(k) == keys, "keys")
            for u, v in zip(k, x):
                eqm(v, a.data[u], 1e-5, "text " + u)


def parts(r, open_, keys, check_part):
    n = r.int(1, max(1, len(keys)))
    got = []
    for i in range(n):
        rd = open_(part_idx=i + 1, num_parts=n)
        k, x = rd.read()
        for u, v in zip(k, x):
            check_part(u, v)
        got += list(k)
        rd.close()
    check(got == list(keys), "the parts put together: %s instead of %s" % (got, keys))


@case("C13", "ark.script", targets=[AD + "SequentialArkScriptDataReader.read", AD + "SequentialArkScriptDataReader.read_shapes", AD + "SequentialArkDataReader._open_archive"])
def k4(r):
    a = Arch(r, "ark", vec=r.bool(0.2))
    ranges = r.bool() and a.data[a.keys[0]].ndim == 2
    p, keys = a.script(ranges)
    if r.bool(0.3):
        parts(r, lambda **kw: A.SequentialArkScriptDataReader(p, **kw), keys, lambda k, x: eqm(x, a.of(k), 0, k))
    else:
        seq_check(r, A.SequentialArkScriptDataReader(p), keys, a.of, 0, "script")


@case("C13", "ark.offset0", targets=[AD + "SequentialArkDataReader._open_archive"])
def k4b(r):
    """rows of one matrix file read as several entries"""
    m = mat(r, rows=r.size(2, 8))
    p = os.path.join(r.tmp, "m.mat")
    with open(p, "wb") as f:
        KF.init_kaldi_output_stream(f, True)
        KaldiMatrix(m).write(f, True)
    n = m.shape[0]
    segs = [(a, r.int(a, n - 1)) for a in (r.int(0, n - 1) for _ in range(r.int(1, 4)))]
    s = os.path.join(r.tmp, "m.scp")
    open(s, "w").write("".join("s%d %s:0[%d:%d]\n" % (i, p, a, b + 1) for i, (a, b) in enumerate(segs)))
    keys, xs = A.SequentialArkScriptDataReader(s).read()
    for i, (a, b) in enumerate(segs):
        eqm(xs[i], m[a:b + 1], 0, "segment %d" % i)


def rand_check(r, mk, keys, get, what):
    rd = mk(False)
    ask = [r.pick(*keys) for _ in range(r.int(1, 6))]
    mode = r.pick("read", "shapes", "ranges", "missing", "squeeze")
    if mode == "shapes":
        s = rd.read_shapes(ask)
        check([tuple(v) for v in s] == [get(k).shape for k in ask], what + ": shapes")
        check(list(rd.read_dims(ask)) == [get(k).shape[-1] for k in ask], what + ": dims")
        check(list(rd.read_num_rows(ask)) == [get(k).shape[0] if get(k).ndim == 2 else 1 for k in ask], what + ": rows")
    elif mode == "ranges" and get(keys[0]).ndim == 2:
        off = [r.int(0, get(k).shape[0] - 1) for k in ask]
        num = [r.int(0, get(k).shape[0] - o) for k, o in zip(ask, off)]
        x = rd.read(ask, row_offset=off, num_rows=np.array(num))
        for k, v, o, m in zip(ask, x, off, num):
            eqm(v, sl(get(k), o, m), 0, "%s: %s rows %d %d" % (what, k, o, m))
    elif mode == "missing":
        raises(lambda: rd.read(ask + ["nobody"]), "missing key")
        rd.close()
        rd = mk(True)
        i = r.int(0, len(ask))
        x = rd.read(ask[:i] + ["nobody"] + ask[i:])
        check(len(x) == len(ask) + 1 and len(x[i]) == 0, what + ": empty for the missing key")
        for k, v in zip(ask, x[:i] + x[i + 1:]):
            eqm(v, get(k), 0, what + ": next to a missing key")
        k = r.pick(*keys)
        z = rd.read([k, "nobody"] if r.bool() else ["nobody", k], squeeze=True)
        check(z.shape == (2,) + get(k).shape, what + ": shape with a missing key")
        check(np.array_equal(z.astype("float32").sum(0), get(k).astype("float32")), what + ": zeros for the missing key")
    elif mode == "squeeze":
        k = r.pick(*keys)
        z = rd.read([k, k], squeeze=True)
        check(z.shape == (2,) + get(k).shape and np.array_equal(z[1].astype("float32"), get(k).astype("float32")), what + ": squeezed")
    else:
        for k, v in zip(ask, rd.read(ask)):
            eqm(v, get(k), 0, "%s: %s" % (what, k))
        eqm(rd.read(ask[0])[0], get(ask[0]), 0, "%s: one key" % what)
    rd.close()


@case("C13", "ark.random", targets=[AD + "RandomAccessArkDataReader.read", AD + "RandomAccessArkDataReader.read_shapes", AD + "RandomAccessArkDataReader._open_archive"])
def k5(r):
    a = Arch(r, "ark", vec=r.bool(0.2))
    p, keys = a.script(r.bool() and a.data[a.keys[0]].ndim == 2)
    rand_check(r, lambda perm: A.RandomAccessArkDataReader(p, permissive=perm), keys, a.of, "random")


@case("C13", "h5.sequential", targets=[HD + "SequentialH5FileDataReader.read", HD + "SequentialH5ScriptDataReader.read", HD + "_read_h5_data", "hyperion.io.h5_data_writer:H5DataWriter.write"])
def k6(r):
    a = Arch(r, "h5", vec=r.bool(0.2), nfiles=None)
    how = r.pick("file", "script", "parts")
    if how == "file":
        p, keys = a.files[r.int(0, len(a.files) - 1)]
        seq_check(r, H.SequentialH5FileDataReader(p), sorted(keys), lambda k: a.data[k], 0, "h5")
    elif how == "parts":
        p, keys = a.files[0]
        parts(r, lambda **kw: H.SequentialH5FileDataReader(p, **kw), sorted(keys), lambda k, x: eqm(x, a.data[k], 0, k))
    else:
        p, keys = a.script(r.bool() and a.data[a.keys[0]].ndim == 2)
        seq_check(r, H.SequentialH5ScriptDataReader(p), keys, a.of, 0, "h5 script")


@case("C13", "h5.random", targets=[HD + "RandomAccessH5FileDataReader.read", HD + "RandomAccessH5ScriptDataReader.read", HD + "RandomAccessH5ScriptDataReader.read_shapes"])
def k7(r):
    a = Arch(r, "h5", vec=r.bool(0.2))
    if r.bool():
        p, keys = a.files[0]
        rand_check(r, lambda perm: H.RandomAccessH5FileDataReader(p, permissive=perm), keys, lambda k: a.data[k], "h5")
    else:
        p, keys = a.script(r.bool() and a.data[a.keys[0]].ndim == 2)
        rand_check(r, lambda perm: H.RandomAccessH5ScriptDataReader(p, permissive=perm), keys, a.of, "h5 script")


@case("C13", "reader.ranges", targets=[DR + "_combine_ranges", DR + "_apply_range_to_shape"])
def k8(r):
    n = r.int(1, 30)
    first = r.int(0, n - 1)
    num = r.pick(0, r.int(1, n - first))
    rows = list(range(n))
    cur = rows[first:] if num == 0 else rows[first:first + num]
    o = r.int(0, len(cur) - 1)
    m = r.pick(0, r.int(1, len(cur) - o))
    a, b = DataReader._combine_ranges((first, num), o, m)
    check(sl(rows, a, b) == sl(cur, o, m), "rows %s of (%d,%d): got (%d,%d)" % ((o, m), first, num, a, b))
    check(DataReader._combine_ranges(None, o, m) == (o, m), "no range")
    check(tuple(DataReader._apply_range_to_shape((n, 3), a, b)) == (len(sl(cur, o, m)), 3), "shape of the range")
    if num > 0:
        raises(lambda: DataReader._combine_ranges((first, num), o, num - o + r.int(1, 3)), "rows past the range", AssertionError)
        raises(lambda: DataReader._combine_ranges((first, num), num + r.int(0, 3), 0), "offset past the range", AssertionError)


@case("C13", "specifiers", targets=[RS + "WSpecifier.create", RS + "RSpecifier.create"])
def k9(r):
    w = WSpecifier.create("out.h5")
    check((w.archive, w.script, w.spec_type, w.archive_type) == ("out.h5", None, WSpecType.ARCHIVE, ArchiveType.H5), "plain file")
    t = r.pick("ark", "h5")
    opts = r.py.sample(["t", "f", "b"], r.int(0, 2)) if True else []
    if "t" in opts and "b" in opts:
        opts.remove("b")
    both = r.bool()
    names = [t] + (["scp"] if both else [])
    r.py.shuffle(names)
    o = names + opts
    if r.bool():
        r.py.shuffle(o)
    files = ["dir/a.%s" % x for x in o if x in ("ark", "h5", "scp")]
    w = WSpecifier.create("%s:%s" % (",".join(o), ",".join(files)))
    check(w.archive == "dir/a." + t and w.script == ("dir/a.scp" if both else None), "files of %s" % o)
    check(w.spec_type == (WSpecType.BOTH if both else WSpecType.ARCHIVE), "type")
    check(w.archive_type == (ArchiveType.ARK if t == "ark" else ArchiveType.H5), "archive type")
    check(w.binary == (not (t == "ark" and "t" in opts)) and w.flush == ("f" in opts), "options %s" % o)
    w2 = WSpecifier.create("%s:%s" % (",".join(o), ",".join(files)))
    check(w == w2 and not (w != w2), "equal")
    raises(lambda: WSpecifier.create("zip:a"), "unknown option")
    raises(lambda: WSpecifier.create("ark,h5:a,b"), "two archives", AssertionError)
    raises(lambda: WSpecifier.create("ark,scp:a"), "file missing", AssertionError)
    raises(lambda: WSpecifier.create("a:b:c"), "three fields", ValueError)
    o = [t] + r.py.sample(["p", "o", "s", "cs", "bg"], r.int(0, 4))
    if r.bool():
        r.py.shuffle(o)
    s = RSpecifier.create("%s:x.y" % ",".join(o))
    check(s.archive == "x.y" and s.spec_type == RSpecType.ARCHIVE, "archive")
    check(s.archive_type == (ArchiveType.ARK if t == "ark" else ArchiveType.H5), "archive type")
    check(s.permissive == ("p" in o), "permissive")
    if t == "ark":
        check((s.once, s.is_sorted, s.called_sorted, s.background) == tuple(x in o for x in ("o", "s", "cs", "bg")), "options")
    p = os.path.join(r.tmp, "l.scp")
    open(p, "w").write("k1 a.ark:12\n" if t == "ark" else "k1 a.h5\n")
    s = RSpecifier.create("scp:" + p)
    check(s.spec_type == RSpecType.SCRIPT and s.script == p and s.archive_type == (ArchiveType.ARK if t == "ark" else ArchiveType.H5), "script")
    raises(lambda: RSpecifier.create("p:x"), "no archive")
    raises(lambda: RSpecifier.create("ark,scp:x"), "two archives", AssertionError)
    check(RSpecifier.create("x.h5").archive_type == ArchiveType.H5, "plain file")


@case("C13", "factory", targets=["hyperion.io.data_rw_factory:DataWriterFactory.create", "hyperion.io.data_rw_factory:SequentialDataReaderFactory.create", "hyperion.io.data_rw_factory:RandomAccessDataReaderFactory.create", "hyperion.io.data_writer:DataWriter.__init__"])
def k10(r):
    t = r.pick("ark", "h5", "text")
    ext = "ark" if t == "text" else t
    d = os.path.join(r.tmp, "sub")
    a, s = os.path.join(d, "x." + ext), os.path.join(d, "x.scp")
    keys = sorted(r.names(r.size(1, 5)))
    keys = ["k%02d" % i for i in range(len(keys))]
    ms = [np.round(mat(r, 3, r.size(1, 5)), 3) for _ in keys]
    cwd = os.getcwd()
    if r.bool(0.2):
        os.makedirs(d)
        os.chdir(d)
        spec = "%s,scp:x.%s,x.scp" % (ext + (",t" if t == "text" else ""), ext)
    else:
        spec = "%s,scp:%s,%s" % (ext + (",t" if t == "text" else ""), a, s)
    try:
        with DataWriterFactory.create(spec) as w:
            w.write(keys, ms)
    finally:
        os.chdir(cwd)
    if os.path.exists(a) and open(s).read().find(d) < 0:
        pre = d + "/"
    else:
        pre = None
    tol = 1e-5 if t == "text" else 0
    with SequentialDataReaderFactory.create("%s:%s" % (ext, a)) as rd:
        k, x = rd.read()
        check(list(k) == keys, "keys")
        for u, v in zip(ms, x):
            eqm(v, u, tol, "archive")
    with SequentialDataReaderFactory.create("scp:" + s, path_prefix=pre) as rd:
        k, x = rd.read()
        check(list(k) == keys, "keys of the script")
        for u, v in zip(ms, x):
            eqm(v, u, tol, "script")
    with RandomAccessDataReaderFactory.create("scp,p:" + s, path_prefix=pre) as rd:
        i = r.int(0, len(keys) - 1)
        x = rd.read([keys[i], "zz"])
        eqm(x[0], ms[i], tol, "random")
        check(len(x[1]) == 0, "permissive")
    if ext == "h5":
        with RandomAccessDataReaderFactory.create("h5:" + a) as rd:
            eqm(rd.read([keys[-1]])[0], ms[-1], tol, "random h5")
    else:
        raises(lambda: RandomAccessDataReaderFactory.create("ark:" + a), "random access without script", ValueError)
