from vc import *
from fractions import Fraction
from symbytes import SymBin, SBytes
from shim_np import NP
from solve import nf_zero

KF, KMM = "hyperion.utils.kaldi_io_funcs", "hyperion.utils.kaldi_matrix"
KC = KMM + ":KaldiCompressedMatrix."
METHODS = ["2byte-auto", "2byte-signed-integer", "1byte-auto", "1byte-unsigned-integer", "1byte-0-1"]


def L(x):
    return lift(x)


def coded(vc, mod, method, fmt):
    """a compressed matrix of any size, from its header and its codes (formats 2 and 3)"""
    n, d = vc.int("rows", lo=0), vc.int("cols", lo=0)
    q = vc.array("code", (n, d), "i").astype("uint16" if fmt == 2 else "uint8")
    mn, rg = vc.real("min"), vc.real("range", lo=0)
    import symio
    h = symio.STRUCT.pack("<iffii", fmt, mn, rg, n, d)
    return mod.KaldiCompressedMatrix(h + q.tobytes()), q, L(n), L(d), L(mn), L(rg)


def decoded(fmt, mn, rg, c):
    k = num(Fraction(1, 65535 if fmt == 2 else 255))
    return add(mn, mul(rg, k, c))


def near(vc, name, x, y):
    """equal up to the digits of the decimal constant of the file format (1.52590218966964e-05 for 1/65535)"""
    vc.ensure(name, tm.TRUE if nf_zero(sub(x, y), Fraction(1, 10 ** 15)) else eq(x, y))


@contract("C14", "compress.rows", targets=[KC + "read", KC + "write", KC + "_get_read_info", KC + "_unpack_header", KC + "to_ndarray", KC + "_uint16_to_float", KC + "_uint8_to_float"])
def c_rows(vc):
    """formats without column headers: rows [o, o+n) of a coded matrix read from a stream are the decoded rows; the stream is left at the next entry"""
    mod, kf = vc.mod(KMM), vc.mod(KF)
    fmt = vc.choose("format", [2, 3])
    M, q, n, d, mn, rg = coded(vc, mod, None, fmt)
    short = vc.choose("peek", ["long", "short"]) == "short"
    f = SymBin()
    M.write(f, True)
    kf.write_token(f, True, "key2")
    g = SymBin(SBytes(f.segs), short)
    how = vc.choose("rows", ["all", "range", "from", "matrix"])
    o, m = num(0), n
    if how in ("range", "from"):
        if vc.choose("offset", ["zero", "positive"]) == "positive":
            o = L(vc.int("row_offset", lo=1))
            vc.assume(le(o, n))
        m = sub(n, o)
        if how == "range":
            m = L(vc.int("num_rows", lo=1))
            vc.assume(le(add(o, m), n))
        C = mod.KaldiCompressedMatrix.read(g, True, mk(o), mk(m) if how == "range" else 0)
    elif how == "all":
        C = mod.KaldiCompressedMatrix.read(g, True)
    else:
        C = mod.KaldiMatrix.read(g, True)
    y = C.to_ndarray()
    vc.ensure_shape("shape", y, (mk(m), mk(d)))
    i, j = L(vc.idx("i", mk(m))), L(vc.idx("j", mk(d)))
    near(vc, "decoded rows", y.at(i, j), decoded(fmt, mn, rg, q.at(add(o, i), j)))
    vc.ensure("next key", tm.TRUE if kf.read_token(g, True) == "key2" else tm.FALSE)
    vc.ensure("end", g.at_end())


@contract("C14", "compress.refuse", targets=[KC + "read", KC + "_get_read_info"], replay="compress.rows")
def c_refuse(vc):
    mod = vc.mod(KMM)
    M, q, n, d, mn, rg = coded(vc, mod, None, vc.choose("format", [2, 3]))
    f = SymBin()
    M.write(f, True)
    g = SymBin(SBytes(f.segs))
    o = L(vc.int("row_offset", lo=0))
    if vc.choose("case", ["offset", "rows"]) == "offset":
        vc.assume(lt(n, o))
        vc.raises("row offset past the end", lambda: mod.KaldiCompressedMatrix.read(g, True, mk(o), 0), AssertionError)
    else:
        m = L(vc.int("num_rows", lo=1))
        vc.assume(lt(n, add(o, m)))
        vc.raises("more rows than there are", lambda: mod.KaldiCompressedMatrix.read(g, True, mk(o), mk(m)), AssertionError)


@contract("C14", "compress.shape", targets=[KC + "read_shape", KC + "_data_size"], replay="compress.rows")
def c_shape(vc):
    mod, kf = vc.mod(KMM), vc.mod(KF)
    fmt = vc.choose("format", [2, 3])
    M, q, n, d, mn, rg = coded(vc, mod, None, fmt)
    f = SymBin()
    M.write(f, True)
    kf.write_token(f, True, "key2")
    g = SymBin(SBytes(f.segs), vc.choose("peek", ["long", "short"]) == "short")
    s = mod.KaldiMatrix.read_shape(g, True)
    vc.ensure("rows", eq(L(s[0]), n))
    vc.ensure("columns", eq(L(s[1]), d))
    vc.ensure("next key", tm.TRUE if kf.read_token(g, True) == "key2" else tm.FALSE)
    vc.ensure("end", g.at_end())


@contract("C14", "compress.sizes", targets=[KC + "_get_read_info", KC + "_data_size"], replay="compress.rows")
def c_sizes(vc):
    """byte counts of a range of rows, every format: column headers, bytes skipped, read and left add up to the size of the data"""
    import symio
    mod = vc.mod(KMM)
    fmt = vc.choose("format", [1, 2, 3])
    n, d = L(vc.int("rows", lo=0)), L(vc.int("cols", lo=0))
    mn, rg = vc.real("min"), vc.real("range", lo=0)
    o, m = L(vc.int("row_offset", lo=0)), L(vc.int("num_rows", lo=0))
    vc.assume(le(add(o, m), n))
    h0 = symio.STRUCT.pack("<iffii", fmt, mn, rg, mk(n), mk(d))
    h, nc, ch, bo, bd, bl = mod.KaldiCompressedMatrix._get_read_info(h0, mk(o), mk(m))
    r = tm.ite(eq(m, num(0)), sub(n, o), m)
    w = num(2 if fmt == 2 else 1)
    vc.ensure("columns", eq(L(nc), d))
    vc.ensure("column headers", eq(L(ch), mul(num(8), d) if fmt == 1 else num(0)))
    vc.ensure("bytes skipped per column", eq(L(bo), mul(w, o)))
    vc.ensure("bytes read per column", eq(L(bd), mul(w, r)))
    vc.ensure("bytes left per column", eq(L(bl), mul(w, sub(n, add(o, r)))))
    a = symio.STRUCT.unpack("<iffii", h)
    for nm, x, e in zip(("format", "minimum", "range", "rows", "columns"), a, (num(fmt), L(mn), L(rg), r, d)):
        vc.ensure("header of the rows: " + nm, eq(L(x), e))
    vc.ensure("size of the matrix", eq(L(mod.KaldiCompressedMatrix._data_size(h0)), add(num(20), mul(num(8 if fmt == 1 else 0), d), mul(w, n, d))))


@contract("C14", "compress.attrs", targets=[KC + "get_data_attrs", KC + "build_from_data_attrs"])
def c_attrs(vc):
    """coded values and attributes give the matrix back, also for a part of the rows"""
    mod = vc.mod(KMM)
    fmt = vc.choose("format", [2, 3])
    M, q, n, d, mn, rg = coded(vc, mod, None, fmt)
    data, attrs = M.get_data_attrs()
    vc.ensure_shape("shape of the codes", data, (mk(n), mk(d)))
    a, b = L(vc.int("from", lo=0)), L(vc.int("to", lo=0))
    vc.assume(le(a, b))
    vc.assume(le(b, n))
    y = mod.KaldiCompressedMatrix.build_from_data_attrs(data[mk(a):mk(b)], attrs).to_ndarray()
    vc.ensure_shape("shape", y, (mk(sub(b, a)), mk(d)))
    i, j = L(vc.idx("i", mk(sub(b, a)))), L(vc.idx("j", mk(d)))
    near(vc, "rows of the codes", y.at(i, j), decoded(fmt, mn, rg, q.at(add(a, i), j)))


@contract("C14", "compress.scale", targets=[KC + "scale", KC + "_pack_header", KC + "_unpack_header"], replay="compress.attrs")
def c_scale(vc):
    mod = vc.mod(KMM)
    fmt = vc.choose("format", [2, 3])
    M, q, n, d, mn, rg = coded(vc, mod, None, fmt)
    s = vc.real("scale")
    M.scale(s)
    for nm, C in (("object", M), ("from its bytes", mod.KaldiCompressedMatrix(M.data))):
        y = C.to_ndarray()
        vc.ensure_shape("shape: " + nm, y, (mk(n), mk(d)))
        i, j = L(vc.idx("i" + nm[0], mk(n))), L(vc.idx("j" + nm[0], mk(d)))
        near(vc, "scaled: " + nm, y.at(i, j), mul(L(s), decoded(fmt, mn, rg, q.at(i, j))))


@contract("C14", "compress.code", targets=[KC + "_float_to_uint16", KC + "_float_to_uint8"], replay="compress.error")
def c_code(vc):
    """codes of one and two bytes: inside the range, the decoded value is the coded one up to 0.501 steps; outside it, the closest end"""
    mod = vc.mod(KMM)
    two = vc.choose("bytes", ["one", "two"]) == "two"
    M = mod.KaldiCompressedMatrix()
    mn, rg = vc.real("min"), vc.real("range", pos=True)
    M.min_value, M.data_range = mn, rg
    f = vc.array("f", (vc.int("n", lo=0), vc.int("d", lo=1)))
    x = mn + f * rg
    c = M._float_to_uint16(x) if two else M._float_to_uint8(x)
    S = num(65535 if two else 255)
    n, d = (L(v) for v in x.shape)
    vc.ensure_shape("shape", c, (mk(mul(n, d)),))
    i, j = L(vc.idx("i", mk(n))), L(vc.idx("j", mk(d)))
    v, t = c.at(add(mul(i, d), j)), f.at(i, j)
    vc.ensure("not above the last code", le(v, S))
    vc.ensure("not below the first code", le(num(0), v))
    if ENG.branch(tm.band(le(num(0), t), le(t, num(1)))):
        vc.ensure("rounded up at most", le(v, add(mul(S, t), num(Fraction(501, 1000)))))
        vc.ensure("rounded down at most", le(mul(S, t), add(v, num(Fraction(502, 1000)))))
    if ENG.branch(lt(num(1), t)):
        vc.ensure("largest code", eq(v, S))
    if ENG.branch(lt(t, num(0))):
        vc.ensure("smallest code", eq(v, num(0)))


SEG = [(0, 64), (64, 128), (192, 63)]


@contract("C14", "compress.chars", targets=[KC + "_float_to_char"], replay="compress.error")
def c_chars(vc):
    """codes of a column: in each of the three segments between percentiles, rounded to the closest of its levels"""
    mod = vc.mod(KMM)
    p = [vc.real("p0"), vc.real("p25"), vc.real("p75"), vc.real("p100")]
    for a, b in zip(p, p[1:]):
        vc.assume(lt(L(a), L(b)))
    v = vc.array("v", (vc.int("n", lo=0),))
    c = mod.KaldiCompressedMatrix._float_to_char(v, *p)
    vc.ensure_shape("shape", c, v.shape)
    i = L(vc.idx("i", v.shape[0]))
    x, y, P = v.at(i), c.at(i), [L(a) for a in p]
    for s, (a, b, (c0, m)) in enumerate(zip(P, P[1:], SEG)):
        nm = "segment %d" % s
        f = div(sub(x, a), sub(b, a))
        lo = tm.TRUE if s == 0 else le(a, x)
        hi = tm.TRUE if s == 2 else lt(x, b)
        if ENG.branch(tm.band(lo, hi)):
            vc.ensure(nm + ": first level or above", le(num(c0), y))
            vc.ensure(nm + ": last level or below", le(y, num(c0 + m)))
            if ENG.branch(tm.band(le(num(0), f), le(f, num(1)))):
                vc.ensure(nm + ": rounded up at most", le(sub(y, num(c0)), add(mul(num(m), f), num(Fraction(1, 2)))))
                vc.ensure(nm + ": rounded down at most", le(mul(num(m), f), add(sub(y, num(c0)), num(Fraction(1, 2)))))


@contract("C14", "compress.unchars", targets=[KC + "_char_to_float"], replay="compress.error")
def c_unchars(vc):
    mod = vc.mod(KMM)
    p = [vc.real("p0"), vc.real("p25"), vc.real("p75"), vc.real("p100")]
    c = vc.array("c", (vc.int("n", lo=0),), "i")
    i = L(vc.idx("i", c.shape[0]))
    y = mod.KaldiCompressedMatrix._char_to_float(c.astype("uint8").tobytes(), *p)
    vc.ensure_shape("shape", y, c.shape)
    x, P = c.at(i), [L(a) for a in p]
    for s, (a, b, (c0, m)) in enumerate(zip(P, P[1:], SEG)):
        if ENG.branch(tm.band(le(num(c0 + (s > 0)), x), le(x, num(c0 + m)))):
            vc.ensure_eq("segment %d: level" % s, y.at(i), add(a, mul(sub(b, a), sub(x, num(c0)), num(Fraction(1, m)))))


@contract("C14", "compress.header", targets=[KC + "_compute_global_header", KC + "_pack_header", KC + "_unpack_header"], replay="compress.error")
def c_header(vc):
    """the header covers the values of the matrix (automatic methods) or has the range of the method; format of each method"""
    mod = vc.mod(KMM)
    n, d = vc.int("n", lo=1), vc.int("d", lo=1)
    method = vc.choose("method", METHODS + ["speech-feat", "auto"])
    x = vc.array("x", (n, d))
    M = mod.KaldiCompressedMatrix()
    h = M._compute_global_header(x, method)
    g = mod.KaldiCompressedMatrix(h)
    fmt = L(g.data_format)
    want = {"2": 2, "1": 3, "s": 1}.get(method[0])
    e = num(want) if want else tm.ite(lt(num(8), L(n)), num(1), num(2))
    vc.ensure("format", eq(fmt, e))
    vc.ensure("rows", eq(L(g.num_rows), L(n)))
    vc.ensure("columns", eq(L(g.num_cols), L(d)))
    mn, rg = L(g.min_value), L(g.data_range)
    fixed = {"2byte-signed-integer": (-32768, 65535), "1byte-unsigned-integer": (0, 255), "1byte-0-1": (0, 1)}.get(method)
    if fixed:
        vc.ensure("minimum", eq(mn, num(fixed[0])))
        vc.ensure("range", eq(rg, num(fixed[1])))
    else:
        i, j = L(vc.idx("i", mk(L(n)))), L(vc.idx("j", mk(L(d))))
        lo = mk(tm.lam("min", [L(d)], 1, lambda k: x.at(i, k)))
        if vc.ensure("not above the values of a row", le(L(lo), x.at(i, j))):
            vc.assume(le(L(lo), x.at(i, j)))
        vc.ensure("not above the values", le(mn, x.at(i, j)))
        vc.ensure("not below the values", le(x.at(i, j), add(mn, rg)))
        vc.ensure("positive range", lt(num(0), rg))


@contract("C14", "compress.percentiles", targets=[KC + "_compute_column_header", KC + "_compress_column", KC + "_uncompress_column"], replay="compress.error")
def c_perc(vc):
    """codes of the four percentiles of a column increase strictly and fit in two bytes whatever the values are"""
    import symio
    mod = vc.mod(KMM)
    M = mod.KaldiCompressedMatrix()
    n = vc.int("n", lo=1)
    v = vc.array("v", (n,))
    M.num_rows = n
    ks = iter(range(9))
    arbitrary = lambda *a, **k: vc.array("sorted", (n,))
    vc.patch(NP, "sort", arbitrary)
    vc.patch(NP, "partition", arbitrary)

    def code(x):
        c = vc.array("pcode%d" % next(ks), (1,), "i")
        vc.assume(le(num(0), c.at(num(0))))
        vc.assume(le(c.at(num(0)), num(65535)))
        return c.astype("uint16")
    M._float_to_uint16 = code
    h = M._compute_column_header(v)
    p = [L(a) for a in symio.STRUCT.unpack("<HHHH", h)]
    vc.ensure("first code not negative", le(num(0), p[0]))
    vc.ensure("last code fits", le(p[3], num(65535)))
    for k in range(3):
        vc.ensure("increasing %d" % k, lt(p[k], p[k + 1]))
