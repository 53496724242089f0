"""Byte strings and binary files with symbolic content.

A byte string is a list of segments: concrete bytes, one packed number (struct), or a run of the
elements of an array in their binary form.  Positions are polynomials; a position inside a run of
elements has to be a whole element.  Packing a number as float32 / an integer of fixed width is
taken as exact (machine arithmetic treated as mathematical, listed in the trusted base)."""
import struct as _struct
from fractions import Fraction
import terms as tm
from terms import ZERO, ONE, add, sub, mul, neg, le, lt, ge, eq, num
from sym import ENG, SV, SArr, Unsupported, lift, mk, DType, Store
import sym as _s

SIZE = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "f": 4, "q": 8, "d": 8}
NPF = {"H": "uint16", "B": "uint8", "h": "int16", "b": "int8", "i": "int32", "I": "uint32", "f": "float32", "d": "float64", "q": "int64"}


def segsize(s):
    if s[0] == "b":
        return num(len(s[1]))
    if s[0] == "f":
        return num(SIZE[s[1]])
    return mul(s[4], num(s[2]))          # ("a", flat array term function, itemsize, dtype name, count, start)


def exact_div(t, k):
    if k == 1:
        return t
    q = mul(t, num(Fraction(1, k)))
    if not q.isint:
        raise Unsupported("position inside an element")
    return q


def known(c):
    return c is tm.TRUE or (c is not tm.FALSE and ENG.known(c))


def same(a, b):
    """a == b for sizes"""
    d = sub(a, b)
    if d is ZERO:
        return True
    if d.op == "num":
        return False
    if known(eq(d, ZERO)):
        return True
    z = {v: ZERO for v in tm.subterms(d) if v.op == "var" and v.sort == "N" and known(eq(v, ZERO))}
    return bool(z) and known(eq(tm.subst(d, z), ZERO))


class Cursor:
    def __init__(self, segs, k=0, off=ZERO):
        self.segs, self.k, self.off = segs, k, off

    def take(self, n):
        """the next n bytes (fewer at the end)"""
        out = []
        while True:
            if same(n, ZERO):
                break
            if self.k >= len(self.segs):
                break
            s = self.segs[self.k]
            z = segsize(s)
            rem = sub(z, self.off)
            if same(rem, ZERO):
                self.k, self.off = self.k + 1, ZERO
                continue
            if n is rem:
                c, whole = rem, True
            elif n.op == "num" and rem.op == "num":
                c = n if n.val < rem.val else rem
                whole = c is rem
            elif same(n, rem):
                c, whole = rem, True
            elif ENG.branch(lt(n, rem)):
                c, whole = n, False
            else:
                c, whole = rem, True
            out.append(cut(s, self.off, c))
            n = sub(n, c)
            if whole:
                self.k, self.off = self.k + 1, ZERO
            else:
                self.off = add(self.off, c)
        return SBytes(out)


def cut(s, off, c):
    if s[0] == "b":
        if off.op != "num" or c.op != "num":
            raise Unsupported("symbolic position in concrete bytes")
        o = int(off.val)
        return ("b", s[1][o:o + int(c.val)])
    if off is ZERO and c is segsize(s):
        return s
    if s[0] == "f":
        raise Unsupported("part of a packed number")
    return ("a", s[1], s[2], s[3], exact_div(c, s[2]), add(s[5], exact_div(off, s[2])))


def norm(segs):
    out = []
    for s in segs:
        if s[0] == "b" and not s[1]:
            continue
        if out and out[-1][0] == "b" and s[0] == "b":
            out[-1] = ("b", out[-1][1] + s[1])
        elif out and out[-1][0] == "a" and s[0] == "a" and out[-1][1] is s[1] and out[-1][2] == s[2] and add(out[-1][5], out[-1][4]) is s[5]:
            p = out[-1]
            out[-1] = ("a", p[1], p[2], p[3], add(p[4], s[4]), p[5])
        else:
            out.append(s)
    return out


class SBytes:
    __vc_bytes__ = True

    def __init__(self, segs=()):
        self.segs = norm(segs)

    @staticmethod
    def of(x):
        if isinstance(x, SBytes):
            return x
        if isinstance(x, (bytes, bytearray)):
            return SBytes([("b", bytes(x))])
        raise TypeError("a bytes-like object is required, not %s" % type(x).__name__)

    def concrete(self):
        return all(s[0] == "b" for s in self.segs)

    def simple(self):
        if self.concrete():
            return b"".join(s[1] for s in self.segs)
        return self

    def size(self):
        return add(*[segsize(s) for s in self.segs]) if self.segs else ZERO

    def vlen(self):
        return mk(self.size())

    def __len__(self):
        t = self.size()
        if t.op == "num":
            return int(t.val)
        raise Unsupported("length of a symbolic byte string")

    def __add__(self, o):
        return SBytes(self.segs + SBytes.of(o).segs)

    def __radd__(self, o):
        return SBytes(SBytes.of(o).segs + self.segs)

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported("index of a symbolic byte string")
        n = self.size()

        def pos(x, d):
            if x is None:
                return d
            t = lift(x)
            if not known(ge(t, ZERO)):
                raise Unsupported("slice bound of unknown sign")
            return t
        a, b = pos(k.start, ZERO), pos(k.stop, None)
        c = Cursor(self.segs)
        c.take(a)
        if b is None:
            return SBytes(norm([cut(c.segs[c.k], c.off, sub(segsize(c.segs[c.k]), c.off))] + list(c.segs[c.k + 1:])) if c.k < len(c.segs) else []).simple()
        m = sub(b, a)
        if not known(ge(m, ZERO)):
            if not ENG.branch(ge(m, ZERO)):
                return b""
        return c.take(m).simple()

    def __eq__(self, o):
        if isinstance(o, (bytes, SBytes)):
            o = SBytes.of(o)
            if self.concrete() and o.concrete():
                return self.simple() == o.simple()
            n, m = self.size(), o.size()
            if n.op == "num" and m.op == "num" and n.val != m.val:
                return False
            if self.segs == o.segs:
                return True
            raise Unsupported("comparison of symbolic bytes")
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = object.__hash__

    def __bool__(self):
        return ENG.branch(lt(ZERO, self.size()))


def arr_segment(a):
    f = a.reshape(-1) if a.ndim != 1 else a
    d = a.dtype
    st = f.copy() if not isinstance(f, tuple) else f
    return ("a", st, d.itemsize, d.name, st._shape[0], ZERO)


def tobytes(a):
    return SBytes([arr_segment(a)]).simple()


def frombuffer(b, dtype="float64", **kw):
    d = DType.of(dtype)
    segs = SBytes.of(b).segs
    if not segs:
        return SArr((ZERO,), d.kind, lambda i: ZERO, dname=d.name)
    if all(s[0] == "f" for s in segs):
        if any(NPF[s[1]] != d.name for s in segs):
            raise Unsupported("frombuffer type")
        ts = [s[2] for s in segs]

        def fn(i):
            r = ts[-1]
            for k in range(len(ts) - 2, -1, -1):
                r = tm.ite(eq(i, num(k)), ts[k], r)
            return r
        return SArr((num(len(ts)),), d.kind, fn, dname=d.name)
    if len(segs) != 1 or segs[0][0] != "a":
        raise Unsupported("frombuffer of mixed content")
    _, st, k, nm, n, s0 = segs[0]
    if nm != d.name:
        raise Unsupported("frombuffer of another type (%s, %s)" % (nm, d.name))
    return SArr((n,), d.kind, lambda i: st.at(add(s0, i)), dname=d.name)


class Struct:
    @staticmethod
    def fields(fmt):
        out = []
        for c in fmt:
            if c in "<=":
                continue
            if c not in SIZE:
                raise Unsupported("struct format " + fmt)
            out.append(c)
        if len(out) > 1 and fmt[0] not in "<=":
            raise Unsupported("struct alignment")
        return out

    def pack(self, fmt, *a):
        fs = self.fields(fmt)
        if len(fs) != len(a):
            raise _struct.error("pack expected %d items for packing" % len(fs))
        ts = [lift(x) for x in a]
        if all(t.op == "num" for t in ts):
            return _struct.pack(fmt, *[int(t.val) if f not in "fd" else float(t.val) for f, t in zip(fs, ts)])
        for f, t in zip(fs, ts):
            if f not in "fd" and not t.isint:
                raise _struct.error("required argument is not an integer")
        return SBytes([("b", _struct.pack("<" + f, int(t.val))) if t.op == "num" and f not in "fd" else ("f", f, t) for f, t in zip(fs, ts)]).simple()

    def unpack(self, fmt, b):
        fs = self.fields(fmt)
        if isinstance(b, bytes):
            return _struct.unpack(fmt, b)
        c = Cursor(SBytes.of(b).segs)
        out = []
        for f in fs:
            x = c.take(num(SIZE[f]))
            if x.concrete():
                out.append(_struct.unpack("<" + f, x.simple())[0])
            elif len(x.segs) == 1 and x.segs[0][0] == "f" and x.segs[0][1] == f:
                out.append(mk(x.segs[0][2]))
            else:
                raise Unsupported("unpack of other content")
        if not (c.k >= len(c.segs) or (c.k == len(c.segs) - 1 and known(eq(c.off, segsize(c.segs[c.k]))))):
            raise _struct.error("unpack requires a buffer of another size")
        return tuple(out)

    calcsize = staticmethod(_struct.calcsize)
    error = _struct.error


class SymBin:
    """binary file, read or write; peek gives one byte at a time when short is set (allowed by its contract)"""

    def __init__(self, content=(), short=False):
        self.segs = list(SBytes.of(content).segs) if not isinstance(content, (list, tuple)) else norm(content)
        self.c = Cursor(self.segs)
        self.short = short
        self.past = ZERO
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def write(self, b):
        b = SBytes.of(b)
        self.segs[:] = norm(self.segs + b.segs)
        self.c = Cursor(self.segs, len(self.segs), ZERO)
        return b.vlen()

    def read(self, n=-1):
        n = lift(n)
        if self.past is not ZERO:
            return b""
        if not known(ge(n, ZERO)) and not ENG.branch(ge(n, ZERO)):
            raise Unsupported("read of a negative number of bytes")
        return self.c.take(n).simple()

    def peek(self, n=1):
        if self.past is not ZERO:
            return b""
        c = Cursor(self.segs, self.c.k, self.c.off)
        out = b""
        want = 1 if self.short else max(int(lift(n).val), 1)
        while len(out) < want:
            if c.k >= len(c.segs):
                break
            if same(c.off, segsize(c.segs[c.k])):
                c.k, c.off = c.k + 1, ZERO
                continue
            if c.segs[c.k][0] != "b":
                break
            out += c.take(ONE).simple()
        if not out and c.k < len(c.segs):
            raise Unsupported("peek into symbolic bytes")
        return out

    def tell(self):
        return mk(add(*([segsize(s) for s in self.segs[:self.c.k]] + [self.c.off, self.past])))

    def seek(self, d, whence=0):
        d = lift(d)
        if whence == 0:
            self.c = Cursor(self.segs)
            self.past = ZERO
        elif whence != 1:
            raise Unsupported("seek from the end")
        if d.op == "num" and d.val < 0 or (d.op != "num" and not known(ge(d, ZERO)) and not ENG.branch(ge(d, ZERO))):
            if d.op != "num":
                # back to an absolute position
                p = add(lift(self.tell()), d)
                return self.seek(mk(p), 0)
            n = int(-d.val)
            while n:
                if self.c.off is ZERO or known(eq(self.c.off, ZERO)):
                    self.c.k -= 1
                    if self.c.k < 0:
                        raise OSError("negative seek")
                    self.c.off = segsize(self.segs[self.c.k])
                o = self.c.off
                m = min(n, int(o.val)) if o.op == "num" else n
                self.c.off = sub(o, num(m))
                n -= m
            return self.tell()
        got = self.c.take(d)
        p = add(self.past, sub(d, got.size()))
        self.past = ZERO if same(p, ZERO) or ENG.branch(le(p, ZERO)) else p
        return self.tell()

    def at_end(self):
        """the position is the end of the file, not before and not past it"""
        rest = add(*([segsize(s) for s in self.segs[self.c.k:]] + [neg(self.c.off)])) if self.c.k < len(self.segs) else ZERO
        return tm.band(eq(rest, ZERO), eq(self.past, ZERO))
