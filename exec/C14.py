import io, os, struct
from harness import *
from hyperion.utils import kaldi_io_funcs as KF
from hyperion.utils.kaldi_matrix import KaldiMatrix, KaldiCompressedMatrix, compression_methods
from hyperion.io.ark_data_writer import ArkDataWriter
from hyperion.io.h5_data_writer import H5DataWriter
from hyperion.io import ark_data_reader as A, h5_data_reader as H

KC = "hyperion.utils.kaldi_matrix:KaldiCompressedMatrix."
RANGE = {"2byte-signed-integer": (-32768.0, 65535.0, 65535), "1byte-unsigned-integer": (0.0, 255.0, 255), "1byte-0-1": (0.0, 1.0, 255)}


def gen(r, rows=None):
    m = r.pick(*compression_methods)
    n, d = (r.size(1, 14) if rows is None else rows), r.size(1, 5)
    if m == "2byte-signed-integer":
        x = r.ints_arr(-32768, 32767, n * d).reshape(n, d).astype(float)
    elif m == "1byte-unsigned-integer":
        x = r.ints_arr(0, 255, n * d).reshape(n, d).astype(float)
    elif m == "1byte-0-1":
        x = r.np.uniform(0, 1, (n, d))
    else:
        x = r.arr(n, d) * r.pick(1, 10, 1000) + r.pick(0, 0, 5)
        if r.bool(0.2):
            x[:] = x.flat[0]
        elif r.bool(0.2):
            x[:, 0] = x[0, 0]
        elif r.bool(0.2):
            x = np.round(x)
    return m, x.astype("float32")


def bound(m, x):
    """largest error of a coded value (per element)"""
    lo, hi = float(x.min()), float(x.max())
    if m == "auto":
        m = "speech-feat" if x.shape[0] > 8 else "2byte-auto"
    rng = hi - lo if hi > lo else 1 + abs(lo)
    eps = 1e-6 * (abs(lo) + abs(hi) + rng)
    if m in RANGE:
        rng, steps = RANGE[m][1:]
        return np.full(x.shape, 0.505 * rng / steps + 1e-6 * rng)
    if m in ("2byte-auto", "1byte-auto"):
        return np.full(x.shape, 0.505 * rng / (65535 if m[0] == "2" else 255) + eps)
    # speech-feat: the step of the widest quarter, plus the rounding of the percentiles
    b = np.zeros(x.shape)
    u = rng / 65535
    for c in range(x.shape[1]):
        n = x.shape[0]
        v = np.sort(x[:, c]).astype(float)
        q = [v[0], v[n // 4], v[3 * (n // 4)], v[-1]] if n >= 5 else [v[min(k, n - 1)] for k in range(4)]
        w = max((q[1] - q[0] + 8 * u) / 64, (q[2] - q[1] + 8 * u) / 128, (q[3] - q[2] + 8 * u) / 63)
        b[:, c] = 0.51 * w + 8 * u + eps
    return b


def dec(c):
    return c.to_ndarray()


@case("C14", "compress.error", targets=[KC + "compress", KC + "to_ndarray", KC + "_compress_column", KC + "_uncompress_column", KC + "_compute_global_header"])
def k1(r):
    m, x = gen(r)
    x0 = x.copy()
    c = KaldiCompressedMatrix.compress(x, m)
    y = dec(c)
    check(y.shape == x.shape, "shape %s" % (y.shape,))
    e = np.abs(y - x)
    check(np.all(e <= bound(m, x)), "error of %s: %s at most %s" % (m, e.max(), bound(m, x).max()))
    check(np.array_equal(x, x0), "input modified")
    if m in ("2byte-signed-integer", "1byte-unsigned-integer"):
        check(np.all(np.rint(y) == x), "integers come back")
    z = KaldiCompressedMatrix.compress(KaldiMatrix(x), m)
    check(z.data == c.data, "the same from a KaldiMatrix")
    check(np.array_equal(c.to_matrix().data, y), "to_matrix")
    if m in RANGE:
        lo, rg, _ = RANGE[m]
        y = dec(KaldiCompressedMatrix.compress(np.array([[lo - 10, lo + rg + 10]], dtype="float32"), m))
        check(abs(y[0, 0] - lo) <= 1e-5 * rg and abs(y[0, 1] - lo - rg) <= 1e-5 * rg, "values out of the range are cut")
    raises(lambda: KaldiCompressedMatrix.compress(np.array([[0, r.pick(np.nan, np.inf)]], dtype="float32"), "2byte-auto"), "not finite", AssertionError)
    raises(lambda: KaldiCompressedMatrix.compress(x, "3byte"), "unknown method")


@case("C14", "compress.order", targets=[KC + "_float_to_char", KC + "_char_to_float", KC + "_float_to_uint16", KC + "_uint16_to_float", KC + "_float_to_uint8", KC + "_uint8_to_float"])
def k2(r):
    """coding keeps the order of the values of a column, and coding a decoded matrix changes it by one step at most"""
    m, x = gen(r, rows=r.size(2, 14))
    y = dec(KaldiCompressedMatrix.compress(x, m))
    for c in range(x.shape[1]):
        o = np.argsort(x[:, c], kind="stable")
        d = np.diff(y[o, c])
        check(np.all(d >= -1e-9 * (1 + np.abs(y).max())), "order of column %d (%s)" % (c, m))


@case("C14", "compress.rows", targets=[KC + "read", KC + "read_shape", KC + "write", KC + "_get_read_info", KC + "_data_size"])
def k3(r):
    """rows read from the file are the rows of the whole decoded matrix, bit by bit"""
    n = r.size(1, 3)
    cs = [KaldiCompressedMatrix.compress(x, m) for m, x in (gen(r) for _ in range(n))]
    b = io.BytesIO()
    for c in cs:
        c.write(b, True)
    b.write(b"end")
    f = io.BufferedReader(io.BytesIO(b.getvalue()), buffer_size=16)
    for k, c in enumerate(cs):
        y = dec(c)
        how = r.pick("shape", "rows", "all", "matrix")
        if how == "shape":
            check(tuple(KaldiMatrix.read_shape(f, True)) == y.shape, "shape")
            continue
        o = r.int(0, y.shape[0]) if how != "all" else 0
        m = r.int(0, y.shape[0] - o) if how != "all" else 0
        z = (KaldiCompressedMatrix if how != "matrix" else KaldiMatrix).read(f, True, o, m).to_ndarray()
        e = y[o:] if m == 0 else y[o:o + m]
        check(z.shape == e.shape, "rows %d %d: shape %s instead of %s" % (o, m, z.shape, e.shape))
        check(np.array_equal(z.astype("float32"), e.astype("float32")), "rows %d %d of matrix %d\n%s\n%s" % (o, m, k, z, e))
    check(f.read() == b"end", "position after the matrix")
    c = cs[0]
    b = io.BytesIO()
    c.write(b, True)
    raises(lambda: KaldiCompressedMatrix.read(io.BufferedReader(io.BytesIO(b.getvalue())), True, c.num_rows + 1, 0), "offset past the end", AssertionError)
    raises(lambda: KaldiCompressedMatrix.read(io.BufferedReader(io.BytesIO(b.getvalue())), True, 1, c.num_rows), "rows past the end", AssertionError)


@case("C14", "compress.attrs", targets=[KC + "get_data_attrs", KC + "build_from_data_attrs", KC + "scale", KC + "_pack_header", KC + "_unpack_header"])
def k4(r):
    m, x = gen(r)
    c = KaldiCompressedMatrix.compress(x, m)
    y = dec(c)
    d, a = c.get_data_attrs()
    check(d.shape == x.shape, "coded matrix")
    z = KaldiCompressedMatrix.build_from_data_attrs(d, a)
    check(z.data == c.data, "the same object from coded values and attributes")
    n = x.shape[0]
    o = r.int(0, n)
    e = r.int(o, n)
    z = dec(KaldiCompressedMatrix.build_from_data_attrs(d[o:e], a))
    check(z.shape == (e - o, x.shape[1]) and np.array_equal(z.astype("float32"), y[o:e].astype("float32")), "rows %d to %d of the coded values" % (o, e))
    z = KaldiCompressedMatrix(c.data)
    check((z.data_format, z.num_rows, z.num_cols) == (c.data_format, n, x.shape[1]), "header")
    s = r.pick(2.0, -0.5, 0.25)
    z.scale(s)
    w = KaldiCompressedMatrix(z.data)
    for q in (z, w):
        check(np.allclose(dec(q), s * y, rtol=1e-5, atol=1e-5 * (1e-30 + np.abs(s * y).max())), "scaled by %s" % s)


@case("C14", "compress.archive", targets=["hyperion.io.ark_data_writer:ArkDataWriter._convert_data", "hyperion.io.h5_data_writer:H5DataWriter._convert_data", "hyperion.io.h5_data_reader:_read_h5_data"])
def k5(r):
    m, x = gen(r)
    t = r.pick("ark", "h5")
    p, s = os.path.join(r.tmp, "a." + t), os.path.join(r.tmp, "a.scp")
    W = ArkDataWriter if t == "ark" else H5DataWriter
    with W(p, s, compress=True, compression_method=m) as w:
        w.write(["k1", "k2"], [x, x[:1]])
    y = dec(KaldiCompressedMatrix.compress(x, m))
    R = A.SequentialArkScriptDataReader if t == "ark" else H.SequentialH5ScriptDataReader
    with R(s) as rd:
        k, z = rd.read()
    check(list(k) == ["k1", "k2"], "keys")
    check(z[0].shape == x.shape, "shape")
    close(z[0], y, "decoded", tol=1e-5)
    o = r.int(0, x.shape[0] - 1)
    n = r.int(0, x.shape[0] - o)
    R = A.RandomAccessArkDataReader if t == "ark" else H.RandomAccessH5ScriptDataReader
    with R(s) as rd:
        z = rd.read(["k1"], row_offset=o, num_rows=n)[0]
        check(tuple(rd.read_shapes(["k1"])[0]) == x.shape, "shape")
    close(z, y[o:] if n == 0 else y[o:o + n], "rows %d %d" % (o, n), tol=1e-5)
    if t == "ark":
        with W(p, s, compress=False) as w:
            w.write(["k1"], [KaldiCompressedMatrix.compress(x, m)])
        with A.RandomAccessArkDataReader(s) as rd:
            close(rd.read(["k1"])[0], y, "decoded when written", tol=1e-5)
        with W(p, s, compress=True) as w:
            w.write(["k1"], [KaldiCompressedMatrix.compress(x, m)])
        with A.RandomAccessArkDataReader(s) as rd:
            close(rd.read(["k1"])[0], y, "compressed data written as it is", tol=1e-5)
