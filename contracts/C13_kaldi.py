from vc import *
from symbytes import SymBin, SBytes
import sym as _s
from shim_np import NP

KIO, KMX = "hyperion/utils/kaldi_io_funcs", "hyperion/utils/kaldi_matrix"
KF, KMM = "hyperion.utils.kaldi_io_funcs", "hyperion.utils.kaldi_matrix"
KM = KMM + ":KaldiMatrix."


def L(x):
    return lift(x)


def matrix(vc, tag, dt, vec):
    if vec:
        d = vc.int("dim" + tag, lo=0)
        return vc.array("v" + tag, (d,), "f").astype(dt), (L(d),)
    n, d = vc.int("rows" + tag, lo=0), vc.int("cols" + tag, lo=0)
    return vc.array("m" + tag, (n, d), "f").astype(dt), (L(n), L(d))


@contract("C13", "kaldi_matrix.rows", targets=[KM + "write", KM + "read", KF + ":write_token", KF + ":read_token", KF + ":peek", KF + ":write_int32", KF + ":read_int32", KF + ":init_kaldi_output_stream", KF + ":init_kaldi_input_stream"], replay="kaldi_matrix.binary")
def c_rows(vc):
    """rows [o, o+n) of a matrix written to a binary stream; the stream is left at the next entry"""
    mod, kf = vc.mod(KMM), vc.mod(KF)
    dt = vc.choose("type", ["float32", "float64"])
    vec = vc.choose("kind", ["matrix", "vector"]) == "vector"
    short = vc.choose("peek", ["long", "short"]) == "short"
    x, shp = matrix(vc, "", dt, vec)
    sn = vc.snap(x)
    f = SymBin()
    kf.write_token(f, True, "key1")
    kf.init_kaldi_output_stream(f, True)
    mod.KaldiMatrix(x).write(f, True)
    kf.write_token(f, True, "key2")
    g = SymBin(SBytes(f.segs), short)
    vc.ensure("first key", tm.TRUE if kf.read_token(g, False) == "key1" else tm.FALSE)
    vc.ensure("binary mark", tm.TRUE if kf.init_kaldi_input_stream(g) is True else tm.FALSE)
    if vec:
        y = mod.KaldiMatrix.read(g, True).to_ndarray()
        vc.ensure_eq("vector", y, x)
    else:
        how = vc.choose("rows", ["all", "range", "from"])
        if how == "all":
            y = mod.KaldiMatrix.read(g, True).to_ndarray()
            vc.ensure_eq("matrix", y, x)
        else:
            o = vc.int("row_offset", lo=0)
            vc.assume(le(L(o), shp[0]))
            if how == "range":
                n = vc.int("num_rows", lo=1)
                vc.assume(le(add(L(o), L(n)), shp[0]))
                y = mod.KaldiMatrix.read(g, True, o, n).to_ndarray()
                m = L(n)
            else:
                y = mod.KaldiMatrix.read(g, True, row_offset=o).to_ndarray()
                m = sub(shp[0], L(o))
            vc.ensure_shape("shape", y, (mk(m), mk(shp[1])))
            i, j = L(vc.idx("i", mk(m))), L(vc.idx("j", mk(shp[1])))
            vc.ensure("rows", eq(y.at(i, j), x.at(add(L(o), i), j)))
    vc.ensure("type", tm.TRUE if y.dtype == dt else tm.FALSE)
    vc.ensure("next key", tm.TRUE if kf.read_token(g, True) == "key2" else tm.FALSE)
    vc.ensure("end", g.at_end())
    vc.unchanged("frame", sn)


@contract("C13", "kaldi_matrix.refuse", targets=[KM + "read"], replay="kaldi_matrix.binary")
def c_refuse(vc):
    mod = vc.mod(KMM)
    x, shp = matrix(vc, "", "float32", False)
    f = SymBin()
    mod.KaldiMatrix(x).write(f, True)
    g = SymBin(SBytes(f.segs))
    o = vc.int("row_offset", lo=0)
    if vc.choose("case", ["offset", "rows"]) == "offset":
        vc.assume(lt(shp[0], L(o)))
        vc.raises("row offset past the end", lambda: mod.KaldiMatrix.read(g, True, o, 0), AssertionError)
    else:
        n = vc.int("num_rows", lo=1)
        vc.assume(lt(shp[0], add(L(o), L(n))))
        vc.raises("more rows than there are", lambda: mod.KaldiMatrix.read(g, True, o, n), AssertionError)


@contract("C13", "kaldi_matrix.shape", targets=[KM + "read_shape"], replay="kaldi_matrix.binary")
def c_shape(vc):
    mod, kf = vc.mod(KMM), vc.mod(KF)
    dt = vc.choose("type", ["float32", "float64"])
    vec = vc.choose("kind", ["matrix", "vector"]) == "vector"
    x, shp = matrix(vc, "", dt, vec)
    f = SymBin()
    mod.KaldiMatrix(x).write(f, True)
    kf.write_token(f, True, "key2")
    g = SymBin(SBytes(f.segs), vc.choose("peek", ["long", "short"]) == "short")
    s = mod.KaldiMatrix.read_shape(g, True)
    vc.ensure("dimensions", tm.TRUE if len(s) == len(shp) else tm.FALSE)
    for k, d in enumerate(shp):
        vc.ensure("size %d" % k, eq(L(s[k]), d))
    vc.ensure("next key", tm.TRUE if kf.read_token(g, True) == "key2" else tm.FALSE)
    vc.ensure("end", g.at_end())


DR = "hyperion.io.data_reader"
SP = "hyperion.io.rw_specifiers"
H5 = "hyperion.io.h5_data_reader"


@contract("C13", "reader.ranges", targets=[DR + ":DataReader._combine_ranges", DR + ":DataReader._apply_range_to_shape"])
def c_ranges(vc):
    """rows [o, o+n) of the rows [a, a+m) of the list are rows [a+o, a+o+n); without n, up to the end of the range; never past the range"""
    mod = vc.mod(DR)
    R = mod.DataReader
    o, n = vc.int("row_offset", lo=0), vc.int("num_rows", lo=0)
    a, m = vc.int("first", lo=0), vc.int("range", lo=0)
    what = vc.choose("part", ["none", "range", "refuse", "shape", "shape_refuse"])
    end = add(L(o), tm.tmax(L(n), num(1)))
    if what == "none":
        ro, nr = R._combine_ranges(None, o, n)
        vc.ensure("offset", eq(L(ro), L(o)))
        vc.ensure("rows", eq(L(nr), L(n)))
    elif what == "range":
        vc.assume(tm.bor(eq(L(m), num(0)), le(end, L(m))))
        ro, nr = R._combine_ranges((a, m), o, n)
        vc.ensure("offset in the range", eq(L(ro), add(L(a), L(o))))
        vc.ensure("rows in the range", eq(L(nr), tm.ite(lt(num(0), L(n)), L(n), tm.ite(eq(L(m), num(0)), num(0), sub(L(m), L(o))))))
    elif what == "refuse":
        vc.assume(lt(num(0), L(m)))
        vc.assume(lt(L(m), end))
        vc.raises("past the range", lambda: R._combine_ranges((a, m), o, n), AssertionError)
    else:
        N, d = vc.int("N", lo=0), vc.int("d", lo=0)
        vec = vc.choose("kind", ["matrix", "vector"]) == "vector"
        shp = (N,) if vec else (N, d)
        if what == "shape":
            vc.assume(le(add(L(o), L(n)), L(N)))
            s = R._apply_range_to_shape(shp, o, n)
            vc.ensure("rows of the shape", eq(L(s[0]), tm.ite(eq(L(n), num(0)), sub(L(N), L(o)), L(n))))
            vc.ensure("dimensions", num_eq(len(s), len(shp)))
            if not vec:
                vc.ensure("columns of the shape", eq(L(s[1]), L(d)))
        else:
            vc.assume(lt(L(N), add(L(o), L(n))))
            vc.assume(lt(num(0), L(n)))
            vc.raises("more rows than there are", lambda: R._apply_range_to_shape(shp, o, n), AssertionError)


def num_eq(a, b):
    return tm.TRUE if a == b else tm.FALSE


@contract("C13", "reader.squeeze", targets=[DR + ":DataReader._squeeze"], replay="ark.random")
def c_squeeze(vc):
    """matrices of the same shape as one array, item by item; missing items are zeros in permissive mode"""
    mod = vc.mod(DR)
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    vec = vc.choose("kind", ["matrix", "vector"]) == "vector"
    shp = (d,) if vec else (n, d)
    xs = [vc.array("x%d" % k, shp) for k in range(3)]
    gap = vc.choose("missing", ["none", "first", "last"])
    data = list(xs)
    if gap != "none":
        data[0 if gap == "first" else 2] = NP.array([])
    y = mod.DataReader._squeeze(data, permissive=gap != "none")
    vc.ensure_shape("shape", y, (3,) + shp)
    ii = [L(vc.idx("i%d" % k, s)) for k, s in enumerate(shp)]
    for k in range(3):
        missing = gap != "none" and k == (0 if gap == "first" else 2)
        vc.ensure("item %d" % k, eq(y.at(num(k), *ii), num(0) if missing else xs[k].at(*ii)))


def vc_len(a):
    import loader
    return loader.vc_len(a)


@contract("C13", "specifiers", targets=[SP + ":WSpecifier.create", SP + ":RSpecifier.create"])
def c_spec(vc):
    """every accepted specifier, for all file names: files and options are the ones it names"""
    mod = vc.mod(SP)
    A, W, Rt = mod.ArchiveType, mod.WSpecType, mod.RSpecType
    a, s = vc.str("archive"), vc.str("script")
    vc.assume(lt(num(0), L(vc_len(a))))
    side = vc.choose("side", ["w", "r"])
    kind = vc.choose("type", ["h5", "ark", "none"])
    order = vc.choose("order", ["archive", "archive,scp", "scp,archive", "scp"]) if side == "w" else vc.choose("order", ["archive", "scp"])
    t = lambda b: tm.TRUE if b else tm.FALSE
    if kind == "none":
        if order != "archive":
            return
        v = (mod.WSpecifier if side == "w" else mod.RSpecifier).create(a)
        vc.ensure_eq("file", v.archive, a)
        vc.ensure("default type", t(v.archive_type is A.H5))
        vc.ensure("default kind", t(v.spec_type is (W if side == "w" else Rt).ARCHIVE))
        return
    if side == "w":
        mods = vc.choose("options", [[], ["t"], ["f"], ["t", "f"], ["p"], ["b", "nf"]])
        o = {"archive": [kind], "archive,scp": [kind, "scp"], "scp,archive": ["scp", kind], "scp": ["scp"]}[order]
        f = {"archive": a, "archive,scp": a + "," + s, "scp,archive": s + "," + a, "scp": s}[order]
        v = mod.WSpecifier.create(",".join(o + mods) + ":" + f)
        if order != "scp":
            vc.ensure_eq("archive", v.archive, a)
            vc.ensure("type of archive", t(v.archive_type is (A.H5 if kind == "h5" else A.ARK)))
            vc.ensure("binary", t(v.binary is not (kind == "ark" and "t" in mods)))
        else:
            vc.ensure("no archive", t(v.archive is None))
        if order != "archive":
            vc.ensure_eq("script", v.script, s)
        else:
            vc.ensure("no script", t(v.script is None))
        vc.ensure("flush", t(v.flush is ("f" in mods)))
        vc.ensure("kind", t(v.spec_type is {"archive": W.ARCHIVE, "scp": W.SCRIPT}.get(order, W.BOTH)))
    else:
        if order == "scp":
            return
        mods = vc.choose("options", [[], ["p"], ["s", "cs"], ["o", "bg", "p"]])
        v = mod.RSpecifier.create(",".join([kind] + mods) + ":" + a)
        vc.ensure_eq("file read", v.archive, a)
        vc.ensure("type of file read", t(v.archive_type is (A.H5 if kind == "h5" else A.ARK)))
        vc.ensure("kind read", t(v.spec_type is Rt.ARCHIVE))
        vc.ensure("permissive", t(v.permissive is ("p" in mods)))
        for o, b in (("s", v.is_sorted), ("cs", v.called_sorted), ("o", v.once), ("bg", v.background)):
            vc.ensure("option " + o, t(b is (kind == "ark" and o in mods)))
