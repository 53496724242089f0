"""Assumed contracts of the numpy / scipy.linalg functions the code under verification calls,
written as functions on symbolic arrays.  (Each is compared with real numpy by axioms_check.py.)"""
import types
import numpy as _np
import sym
from sym import *
from terms import *
import terms as tm
import solve


class _Meta(type):
    def __instancecheck__(cls, o):
        k = cls._vc_dtype.kind
        if isinstance(o, SV):
            return {"N": ("i" if o.t.isint else "f"), "B": "b", "S": "S"}[o.t.sort] == k
        return False

    def __eq__(cls, o):
        if cls is o:
            return True
        if isinstance(o, DType):
            return cls._vc_dtype == o
        return False

    __hash__ = type.__hash__


class _Abstract(type):
    """abstract scalar types np.integer, np.floating"""

    def __instancecheck__(cls, o):
        if isinstance(o, SV):
            return {"N": ("i" if o.t.isint else "f"), "B": "b", "S": "S"}[o.t.sort] in cls._kinds
        return isinstance(o, cls._py) and not isinstance(o, bool)

    def __subclasscheck__(cls, c):
        d = getattr(c, "_vc_dtype", None)
        return d is not None and d.kind in cls._kinds


np_integer = _Abstract("integer", (), dict(_kinds="i", _py=(int,)))
np_floating = _Abstract("floating", (), dict(_kinds="f", _py=(float,)))
np_bytes = _Abstract("bytes_", (), dict(_kinds="", _py=(bytes,)))


def _dtclass(name, kind):
    def new_(cls, v=0):
        if isinstance(v, (SArr, SV)):
            return v.astype(cls)
        if isinstance(v, (list, tuple)):
            return asarr(v).astype(cls)
        return mk(cast(lift(v), kind))
    return _Meta(name, (), {"_vc_dtype": DType(kind, name), "__new__": new_, "itemsize": DType(kind, name).itemsize})


class Fn:
    """namespace object: unknown attribute -> Unsupported at call time"""

    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__name__ = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s.%s is outside the modelled library" % (self.__name__, k))


def _shape(s):
    if isinstance(s, (SV, int, T)):
        return (lift(s),)
    if isinstance(s, (tuple, list)):
        return tuple(lift(x) for x in s)
    raise Unsupported("shape")


def _chk(shape):
    for d in shape:
        if not d.isint:
            raise TypeError("shape must be integers")
        if d.op != "num" and not ENG.known(ge(d, ZERO)):
            if not ENG.branch(ge(d, ZERO)):
                raise ValueError("negative dimensions are not allowed")
    return shape


def full(shape, v, dtype=None, order=None, **k):
    d = DType.of(dtype)
    t = cast(lift(v), d.kind)
    return SArr(_chk(_shape(shape)), d.kind, lambda *i: t, dname=d.name)


def zeros(shape, dtype=None, order=None):
    d = DType.of(dtype)
    if d.kind == "S":
        return SArr(_chk(_shape(shape)), "S", lambda *i: strc(""))
    if d.kind == "O":
        if len(_shape(shape)) == 1:
            n = _shape(shape)[0]
            return ObjArr(n)
        raise Unsupported("object array")
    return full(shape, 0, d)


class ObjArr(VList):
    """1-d object array (list of arbitrary values)"""

    def __init__(self, n=ZERO):
        VList.__init__(self)
        if n.op == "num":
            list.extend(self, [None] * int(n.val))
        else:
            self.sym = (n, lambda t: None)

    @property
    def shape(self):
        return (self.vlen(),)


def ones(shape, dtype=None, order=None):
    return full(shape, 1, dtype)


_undef = [0]


def empty(shape, dtype=None, order=None):
    d = DType.of(dtype)
    if d.kind == "O":
        return zeros(shape, d)
    _undef[0] += 1
    nm = "undef%d" % _undef[0]
    return SArr(_chk(_shape(shape)), d.kind, lambda *i: app(nm, *i, sort={"b": "B", "S": "S"}.get(d.kind, "N"), isint=d.kind == "i"), dname=d.name)


def zeros_like(a, dtype=None):
    a = asarr(a)
    return full(tuple(a._shape), 0, dtype or a.dtype)


def ones_like(a, dtype=None):
    a = asarr(a)
    return full(tuple(a._shape), 1, dtype or a.dtype)


def empty_like(a, dtype=None):
    a = asarr(a)
    return empty(tuple(a._shape), dtype or a.dtype)


def full_like(a, v, dtype=None):
    a = asarr(a)
    return full(tuple(a._shape), v, dtype or a.dtype)


def eye(n, m=None, k=0, dtype=None, **kw):
    n = lift(n)
    m = n if m is None else lift(m)
    return SArr((n, m), DType.of(dtype).kind, lambda i, j: ind(eq(add(i, num(k)), j)))


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    a, b, s = lift(a), lift(b), lift(step)
    isint = a.isint and b.isint and s.isint
    if s is ONE and isint:
        n = nonneg(sub(b, a))
    else:
        n = nonneg(tceil(div(sub(b, a), s)))
    k = DType.of(dtype).kind if dtype is not None else ("i" if isint else "f")
    return SArr((n,), k, lambda i: cast(add(a, mul(s, i)), k))


def linspace(a, b, n=50, endpoint=True, **k):
    a, b, n = lift(a), lift(b), lift(n)
    d = sub(n, ONE) if endpoint else n
    return SArr((n,), "f", lambda i: add(a, mul(i, div(sub(b, a), d))))


def array(v, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(v, SArr):
        r = v.copy() if copy else v
    else:
        if isinstance(v, SymRange):
            v = v.as_array()
        r = asarr(v)
    if dtype is not None:
        d = DType.of(dtype)
        if d.kind == "O":
            raise Unsupported("object array")
        if d.kind != r.kind or d.name != r.store.dname:
            r = r.astype(d) if r.ndim or True else r
    if ndmin and r.ndim < ndmin:
        r = r[(None,) * (ndmin - r.ndim)]
    return r


def asarray(v, dtype=None, order=None):
    if isinstance(v, SArr) and (dtype is None or DType.of(dtype).kind == v.kind):
        return v
    return array(v, dtype, copy=False)


def concatenate(arrs, axis=0):
    if isinstance(arrs, VList) and arrs.sym is not None:
        return concat_sym(arrs, axis)
    arrs = [asarr(a) for a in (list.__iter__(arrs) if isinstance(arrs, VList) else arrs)]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    axis = axis % nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis:
                x, y = a._shape[k], arrs[0]._shape[k]
                if x is not y and not ENG.known(eq(x, y)) and not ENG.branch(eq(x, y)):
                    raise ValueError("all the input array dimensions must match exactly")
    tot = add(*[a._shape[axis] for a in arrs])
    kind = promote(*[a.kind for a in arrs])
    fns = [a.fn() for a in arrs]
    offs = [ZERO]
    for a in arrs:
        offs.append(add(offs[-1], a._shape[axis]))

    def g(*i):
        x = i[axis]
        res = None
        for j in range(len(arrs) - 1, -1, -1):
            if le(offs[j], x) is FALSE or lt(x, offs[j + 1]) is FALSE:
                continue   # index known to lie in another part
            ii = i[:axis] + (sub(x, offs[j]),) + i[axis + 1:]
            v = cast(fns[j](*ii), kind)
            if res is None:
                res = v
            else:
                res = ite(lt(x, offs[j + 1]), v, res)
        return res if res is not None else cast(fns[0](*(ZERO,) * nd), kind)
    shp = list(arrs[0]._shape)
    shp[axis] = tot
    return SArr(shp, kind, g)


def concat_sym(lst, axis):
    """concatenate a list of symbolic length whose elements all have the same extent"""
    n, f = lst.sym
    v = fresh("cc")
    e = asarr(f(v))
    axis = axis % max(e.ndim, 1)
    if e.ndim == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(v in d.fv for d in e._shape):
        raise Unsupported("concatenation of a symbolic number of arrays of different sizes")
    w = e._shape[axis]
    shp = list(e._shape)
    shp[axis] = mul(n, w)

    def g(*i):
        q, r = divmod_t(i[axis], w)
        return asarr(f(q)).at(*(i[:axis] + (r,) + i[axis + 1:]))
    return SArr(shp, e.kind, g)


def _at2d(a):
    a = asarr(a)
    if a.ndim == 0:
        return a.reshape(1, 1)
    if a.ndim == 1:
        return a[None, :]
    return a


def vstack(arrs, **k):
    if isinstance(arrs, VList) and arrs.sym is not None:
        n, f = arrs.sym
        return concat_sym(VList.symbolic(n, lambda t: _at2d(f(t))), 0)
    return concatenate([_at2d(a) for a in arrs], 0)


def hstack(arrs, **k):
    if isinstance(arrs, VList) and arrs.sym is not None:
        n, f = arrs.sym
        e = asarr(f(fresh("hs")))
        if e.ndim == 0:
            return arrs.as_array()
        return concat_sym(arrs, 0 if e.ndim == 1 else 1)
    arrs = [asarr(a) for a in arrs]
    arrs = [a.reshape(1) if a.ndim == 0 else a for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def stack(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    return concatenate([expand_dims(a, axis) for a in arrs], axis)


def expand_dims(a, axis):
    a = asarr(a)
    nd = a.ndim + 1
    axis = axis % nd
    key = [slice(None)] * nd
    key[axis] = None
    return a[tuple(key)]


def transpose(a, axes=None):
    a = asarr(a)
    return a.transpose(*(axes or ()))


def diag(a, k=0):
    a = asarr(a)
    if k:
        raise Unsupported("diag offset")
    f = a.fn()
    if a.ndim == 1:
        n = a._shape[0]
        return SArr((n, n), a.kind, lambda i, j: mul(ind(eq(i, j)), numt(mk(f(i)))))
    n, m = a._shape
    ln = n if (n is m or ENG.known(eq(n, m))) else tmin(n, m)
    return SArr((ln,), a.kind, lambda i: f(i, i))


def outer(a, b):
    a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
    return a[:, None] * b[None, :]


def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, b.T)


def tile(a, reps):
    a = asarr(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [lift(r) for r in reps]
    while len(reps) < a.ndim:
        reps = [ONE] + reps
    while a.ndim < len(reps):
        a = a[None]
    f = a.fn()
    src = a._shape

    def g(*i):
        return f(*[ZERO if n is ONE else (x if r is ONE else divmod_t(x, n)[1]) for x, n, r in zip(i, src, reps)])
    return SArr([mul(n, r) for n, r in zip(src, reps)], a.kind, g)


def repeat(a, k, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if isinstance(k, (SArr, list, tuple)):
        raise Unsupported("repeat with counts")
    k = lift(k)
    axis = axis % a.ndim
    f = a.fn()
    shp = list(a._shape)
    n = shp[axis]
    shp[axis] = mul(n, k)
    return SArr(shp, a.kind, lambda *i: f(*(i[:axis] + ((ZERO if n is ONE else divmod_t(i[axis], k)[0]),) + i[axis + 1:])))


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    k = promote(sym._k(a), sym._k(b))
    return ufunc(lambda c, x, y: ite(sym._tb(c), cast(x, k), cast(y, k)), [c, a, b], k)


def ix_(*args):
    out = []
    nd = len(args)
    for k, a in enumerate(args):
        a = asarr(a)
        if a.kind == "b":
            a = nonzero(a)[0]
        out.append(a[tuple(slice(None) if j == k else None for j in range(nd))])
    return tuple(out)


def unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = asarr(a)
    if a.ndim != 1:
        a = a.reshape(-1)
    n = a._shape[0]
    f = a.fn()
    # first-occurrence mask, ordered by value
    isfirst = lambda v: bnot(tm.exists_rng(v, lambda u: eq(f(u), f(v))))
    cnt = sum_over(*sym._one(n, lambda v: ind(isfirst(v))))
    fidx = SArr((cnt,), "i", lambda k: uniq_idx(n, k, f))
    res = [SArr((cnt,), a.kind, lambda k: f(uniq_idx(n, k, f)))]
    if return_index:
        res.append(fidx)
    if return_inverse:
        res.append(SArr((n,), "i", lambda i: uniq_rank(n, f(i), f)))
    if return_counts:
        res.append(SArr((cnt,), "i", lambda k: sum_over(*sym._one(n, lambda v: ind(eq(f(v), f(uniq_idx(n, k, f))))))))
    return res[0] if len(res) == 1 else tuple(res)


def uniq_idx(n, k, f):
    """index of the first occurrence of the k-th smallest distinct value"""
    return lam("uniq", [n, k], 1, lambda v: f(v), isint=True)


def uniq_rank(n, x, f):
    return lam("uniqrank", [n, x], 1, lambda v: f(v), isint=True)


def _uniq_cnt(t):
    n = t.args[0]
    v = fresh("q")
    return sum_over([n], [v], ind(bnot(tm.exists_rng(v, lambda u: eq(lam_body(t, u), lam_body(t, v))))))


def _ax_uniq(t):
    n, k = t.args[0], t.args[1]
    cnt = _uniq_cnt(t)
    inr = band(le(ZERO, k), lt(k, cnt))
    k2, i = fresh("q"), fresh("q")
    t2 = solve._relam(t, [n, k2])
    val = lam_body(t, t)
    out = [implies(inr, band(le(ZERO, t), lt(t, n))),
           tm.quant_from("forall", [i], implies(band(inr, le(ZERO, i), lt(i, n), eq(lam_body(t, i), val)), le(t, i))),
           tm.quant_from("forall", [k2], implies(band(le(ZERO, k), lt(k, k2), lt(k2, cnt)), solve.key_lt(val, lam_body(t, t2))))]
    rk = solve._relam(t, [n, lam_body(t, i)], "uniqrank", True)
    ur = solve._relam(t, [n, rk], "uniq", True)
    out.append(tm.quant_from("forall", [i], implies(band(le(ZERO, i), lt(i, n)), band(le(ZERO, rk), lt(rk, cnt), eq(lam_body(t, ur), lam_body(t, i)), le(ur, i)))))
    return out


def _ax_uniqrank(t):
    n, x = t.args[0], t.args[1]
    cnt = _uniq_cnt(t)
    ur = solve._relam(t, [n, t], "uniq", True)
    ex = tm.exists_rng(n, lambda i: eq(lam_body(t, i), x))
    return [implies(ex, band(le(ZERO, t), lt(t, cnt), eq(lam_body(t, ur), x)))]


tm.ENUM["uniq"] = (_uniq_cnt, lambda s, w: TRUE, lambda s, w: lam_body(s, w))


def uniqc_idx(n, k, f, c):
    """index of the k-th smallest distinct value among the elements with c (c depends on the value only)"""
    return lam("uniqc", [n, k], 1, lambda v: tm._mk("app", (ind(c(v)), f(v)), ("cpair",), f(v).sort, f(v).isint), isint=True)


def _uc(t, v):
    b = lam_body(t, v)
    return eq(b.args[0], ONE), b.args[1]


def uniqc_cnt(t):
    n = t.args[0]
    v = fresh("q")
    c, x = _uc(t, v)
    return sum_over([n], [v], ind(band(c, bnot(tm.exists_rng(v, lambda u: eq(_uc(t, u)[1], x))))))


def _ax_uniqc(t):
    n, k = t.args[0], t.args[1]
    cnt = uniqc_cnt(t)
    inr = band(le(ZERO, k), lt(k, cnt))
    k2, i = fresh("q"), fresh("q")
    t2 = solve._relam(t, [n, k2])
    ct, val = _uc(t, t)
    ci, vi = _uc(t, i)
    out = [implies(inr, band(le(ZERO, t), lt(t, n), ct)),
           tm.quant_from("forall", [k2], implies(band(le(ZERO, k), lt(k, k2), lt(k2, cnt)), solve.key_lt(val, _uc(t, t2)[1])))]
    rk = solve._relam(t, [n, vi], "uniqcrank", True)
    ur = solve._relam(t, [n, rk], "uniqc", True)
    out.append(tm.quant_from("forall", [i], implies(band(le(ZERO, i), lt(i, n), ci), band(le(ZERO, rk), lt(rk, cnt), eq(_uc(t, ur)[1], vi)))))
    return out


solve.AX["uniqc"] = _ax_uniqc
tm.ENUM["uniqc"] = (uniqc_cnt, lambda s, w: _uc(s, w)[0], lambda s, w: _uc(s, w)[1])
solve.AX["uniq"] = _ax_uniq
solve.AX["uniqrank"] = _ax_uniqrank


def setop(name, member):
    def f(a, b, assume_unique=False, **kw):
        a, b = asarr(a).reshape(-1), asarr(b).reshape(-1)
        u = concatenate([a, b])
        n, m = a._shape[0], b._shape[0]
        fa, fb = a.fn(), b.fn()
        # candidate universe: a (for setdiff/intersect) or a ++ b (for union)
        ina = lambda x: tm.exists_rng(n, lambda i: eq(fa(i), x))
        inb = lambda x: tm.exists_rng(m, lambda i: eq(fb(i), x))
        if name == "union1d":
            return unique(u)
        keep = SArr((n,), "b", lambda i: inb(fa(i)) if name == "intersect1d" else bnot(inb(fa(i))))
        if assume_unique and name == "setdiff1d":
            return a[keep]
        c = keep.fn()
        w = fresh("v")
        if fa(w) is w:      # 0, 1, 2, ... : already sorted and without repetitions
            return a[keep]
        return SArr((uniqc_cnt(uniqc_idx(n, ZERO, fa, c)),), a.kind, lambda k: fa(uniqc_idx(n, k, fa, c)))
    return f


def in1d(a, b, **k):
    a, b = asarr(a), asarr(b).reshape(-1)
    f = b.fn()
    n = b._shape[0]
    return ufunc(lambda x: tm.exists_rng(n, lambda i: eq(f(i), x)), [a], "b")


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    c = band(*[eq(x, y) for x, y in zip(a._shape, b._shape)])
    if not ENG.branch(c):
        return False
    return (a == b).all() if a.ndim else mk(eq(a.at(), b.at()))


def np_all(a, axis=None, **k):
    a = asarr(a)
    if a.ndim == 0:
        return mk(sym._tb(a.at()))
    return a.all(axis=axis)


def np_any(a, axis=None, **k):
    a = asarr(a)
    if a.ndim == 0:
        return mk(sym._tb(a.at()))
    return a.any(axis=axis)


def np_sum(a, axis=None, dtype=None, keepdims=False, **k):
    a = asarr(a)
    if a.ndim == 0:
        return mk(numt(mk(a.at())))
    return a.sum(axis=axis, keepdims=keepdims)


def _red(name):
    def f(a, axis=None, **k):
        a = asarr(a)
        if a.ndim == 0:
            return mk(a.at())
        return getattr(a, name)(axis=axis, **k)
    return f


def _tri_indices(kind):
    def f(n, k=0, m=None):
        n = lift(n)
        if lift(k) is not ZERO or m is not None:
            raise Unsupported("triangle indices with an offset")
        if n.op == "num":
            N = int(n.val)
            p = [(i, j) for i in range(N) for j in range(N) if (i <= j if kind == "triu" else i >= j)]
            return (asarr(VList([i for i, _ in p])).astype("int") if p else SArr((ZERO,), "i", lambda q: ZERO), asarr(VList([j for _, j in p])).astype("int") if p else SArr((ZERO,), "i", lambda q: ZERO))
        r = SArr((tm.tri(n),), "i", lambda q: app(kind + "_r", n, q, isint=True))
        c = SArr((tm.tri(n),), "i", lambda q: app(kind + "_c", n, q, isint=True))
        r.tri, c.tri = (kind, n, 0), (kind, n, 1)
        return (r, c)
    return f


triu_indices, tril_indices = _tri_indices("triu"), _tri_indices("tril")


def meshgrid(*a, **k):
    raise Unsupported("meshgrid")


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = ufunc2(tmax, r, lo)
    if hi is not None:
        r = ufunc2(tmin, r, hi)
    return r


def pad(a, width, mode="constant", **k):
    a = asarr(a)
    if a.ndim == 1 and not isinstance(width[0], (tuple, list)):
        width = [tuple(width)]
    width = [tuple(lift(x) for x in w) for w in width]
    f = a.fn()
    cv = lift(k.get("constant_values", 0))
    mode_s = mode

    def g(*i):
        j = [sub(x, w[0]) for x, w in zip(i, width)]
        if mode_s == "constant":
            inside = band(*[band(le(ZERO, x), lt(x, n)) for x, n, w in zip(j, a._shape, width) if not (w[0] is ZERO and w[1] is ZERO)])
            return ite(inside, cast(f(*j), a.kind), cast(cv, a.kind))
        if mode_s == "edge":
            return f(*[tmin(tmax(x, ZERO), sub(n, ONE)) if not (w[0] is ZERO and w[1] is ZERO) else x for x, n, w in zip(j, a._shape, width)])
        raise Unsupported("pad mode")
    if mode not in ("constant", "edge"):
        raise Unsupported("pad mode %s" % mode)
    return SArr([add(n, w[0], w[1]) for n, w in zip(a._shape, width)], a.kind, g)


def flip(ax):
    def f(m):
        m = asarr(m)
        key = [slice(None)] * m.ndim
        key[ax] = slice(None, None, -1)
        return m[tuple(key)]
    return f


def triu(a, k=0):
    a = asarr(a)
    f = a.fn()
    if a.kind == "b":
        return SArr(a._shape, "b", lambda i, j: band(le(add(i, num(k)), j), f(i, j)))
    return SArr(a._shape, a.kind, lambda i, j: mul(ind(le(add(i, num(k)), j)), f(i, j)))


def tril(a, k=0):
    a = asarr(a)
    f = a.fn()
    if a.kind == "b":
        return SArr(a._shape, "b", lambda i, j: band(ge(add(i, num(k)), j), f(i, j)))
    return SArr(a._shape, a.kind, lambda i, j: mul(ind(ge(add(i, num(k)), j)), f(i, j)))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return ufunc(lambda x, y: le(tabs(sub(x, y)), add(num(atol), mul(num(rtol), tabs(y)))), [a, b], "b")


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, SArr) else r


def trace(a):
    return asarr(a).trace()


def diag_indices(n):
    n = lift(n)
    a = SArr((n,), "i", lambda i: i)
    b = SArr((n,), "i", lambda i: i)
    a.tri, b.tri = ("diag", n, 0), ("diag", n, 1)
    return (a, b)


def searchsorted(a, v, side="left", **k):
    a = asarr(a)
    f = a.fn()
    n = a._shape[0]
    cmp_ = (lambda x, y: solve.key_lt(x, y)) if side == "left" else (lambda x, y: solve.key_le(x, y))
    # assumes a sorted (numpy's precondition)
    return ufunc(lambda x: sum_over(*sym._one(n, lambda i: ind(cmp_(f(i), x)))), [v], "i")


def bincount(a, weights=None, minlength=0):
    raise Unsupported("bincount")


def asscalar(a):
    return a


# --------------------------------------------------------------- linear algebra
def _on_diagonal(body, a, b):
    """f(a,b)[a==b] = f(a,a)[a==b] in every monomial"""
    e = ind(eq(a, b))
    if e not in tm.subterms(body):
        return body
    out = []
    for m, c in tm._terms(body).items():
        if any(x is e for x, _ in m):
            out.append(mul(num(c), e, *[power(subst(x, {b: a}), k) for x, k in m if x is not e]))
        else:
            out.append(tm._frompoly({m: c}))
    return add(*out) if out else body


def _minv_simp(params, vs, body, sort, isint, pos):
    n, i, j = params
    a, b = vs
    body = _on_diagonal(body, a, b)
    if body.op == "ind" and body is ind(eq(a, b)):
        return ind(eq(i, j))
    d = tm._terms(body)
    # scalar multiple
    if len(d) == 1:
        (m, c), = d.items()
        out = [(x, e) for x, e in m if not (x.fv & {a, b})]
        if out or c != 1:
            rest = [(x, e) for x, e in m if x.fv & {a, b}]
            if rest:
                k = mul(num(c), *[power(x, e) for x, e in out])
                return mul(power(k, -1), tm.lam_from("minv", params, vs, mul(*[power(x, e) for x, e in rest]), sort, isint, pos))
        # diagonal matrix
        dl = [x for x, e in m if x.op == "ind" and x.args[0] is eq(a, b)]
        if dl:
            rest = mul(*([num(c)] + [power(x, e) for x, e in m if x is not dl[0]]))
            return mul(ind(eq(i, j)), power(subst(subst(rest, {b: a}), {a: i}), -1))
        # inverse of an inverse
        if len(m) == 1 and m[0][0].op == "lam" and m[0][0].val[0] == "minv" and m[0][1] == 1 and c == 1:
            t = m[0][0]
            if t.args[1] is a and t.args[2] is b and t.args[0] is n:
                return tm.lam_body(t, i, j)
            if t.args[1] is b and t.args[2] is a and t.args[0] is n:
                return tm.lam_body(t, j, i)
    elif d:
        # factors common to all monomials
        com = None
        for m in d:
            q = {(x, e) for x, e in m if not (x.fv & {a, b})}
            com = q if com is None else com & q
            if not com:
                break
        if com:
            k = mul(*[power(x, e) for x, e in sorted(com, key=lambda z: z[0].uid)])
            rest = add(*[mul(num(c), *[power(x, e) for x, e in m if (x, e) not in com]) for m, c in d.items()])
            return mul(power(k, -1), tm.lam_from("minv", params, vs, rest, sort, isint, pos))
    # symmetric matrices have symmetric inverses
    tmp = fresh("sw")
    sw = subst(subst(subst(body, {a: tmp}), {b: a}), {tmp: b})
    if sw is body:
        if i.uid > j.uid:
            i, j = j, i
        return tm.mk_lam("minv", [n, i, j], vs, body, "N", False, False)
    else:
        # inverse of the transpose: canonical orientation
        if sw.uid < body.uid and False:
            return tm.mk_lam("minv", [n, j, i], vs, sw, "N", False, False)
    return tm.mk_lam("minv", params, vs, body, sort, isint, pos)


tm.LAMSIMP["minv"] = _minv_simp


def _match(pat, x, tgt, bound):
    """find term e with subst(pat,{x:e}) is tgt (syntactic, single hole variable)"""
    if x not in pat.fv:
        return bound if pat is tgt else None
    if pat is x:
        if bound is not None and bound is not tgt:
            return None
        return tgt
    if pat.op != tgt.op or pat.val != tgt.val and pat.op != "poly":
        return None
    if pat.op == "app":
        b = bound
        for p, t in zip(pat.args, tgt.args):
            b2 = _match(p, x, t, b)
            if b2 is None and x in p.fv:
                return None
            if x not in p.fv and p is not t:
                return None
            b = b2 if b2 is not None else b
        return b
    if pat.op == "lam":
        if len(pat.args) != len(tgt.args) or pat.args[-1] is not tgt.args[-1]:
            return None
        b = bound
        for p, t in zip(pat.args[:-1], tgt.args[:-1]):
            if x not in p.fv:
                if p is not t:
                    return None
                continue
            b = _match(p, x, t, b)
            if b is None:
                return None
        return b
    return None


def _rule_minv(ns, vs, factors):
    """sum_v minv(A)[i,v] A[v,j] = [i==j]"""
    for j, (a, e) in enumerate(factors):
        if a.op == "lam" and a.val[0] == "minv" and e == 1:
            n, p, q = a.args[:3]
            for (v, other, col) in ((q, p, True), (p, q, False)):
                if v not in vs or v in other.fv:
                    continue
                if ns[vs.index(v)] is not n:
                    continue
                # other occurrences of v must be within the single matching factor
                rest = factors[:j] + factors[j + 1:]
                withv = [f for f in rest if v in f[0].fv]
                hole = fresh("hole")
                pat = tm.lam_body(a, v, hole) if col else tm.lam_body(a, hole, v)
                pats = tm._terms(pat)
                if len(pats) != 1:
                    continue
                (pm, pc), = pats.items()
                # match the monomial pm against withv
                if len(withv) != len([x for x in pm]):
                    continue
                used = None
                bound = None
                ok = True
                remaining = list(withv)
                for pa, pe in sorted(pm, key=lambda ae: hole not in ae[0].fv):
                    hit = None
                    for f in remaining:
                        if f[1] != pe:
                            continue
                        if hole not in pa.fv:
                            if f[0] is pa:
                                hit = (f, bound)
                                break
                        else:
                            p1 = pa if bound is None else subst(pa, {hole: bound})
                            if bound is not None:
                                if f[0] is p1:
                                    hit = (f, bound)
                                    break
                                continue
                            b = _match(pa, hole, f[0], None)
                            if b is None and pa.op == "app" and len(pa.args) >= 2:
                                # symmetric symbol may have its arguments swapped
                                for cand in [x for x in f[0].args if x.sort == "N"] if f[0].op in ("app",) else []:
                                    if subst(pa, {hole: cand}) is f[0]:
                                        b = cand
                                        break
                            if b is None and pa.op == "lam" and f[0].op == "lam":
                                for cand in f[0].args[:-1]:
                                    if cand.sort == "N" and subst(pa, {hole: cand}) is f[0]:
                                        b = cand
                                        break
                            if b is not None and v not in b.fv:
                                hit = (f, b)
                                break
                    if hit is None:
                        ok = False
                        break
                    remaining.remove(hit[0])
                    bound = hit[1]
                if not ok or bound is None or remaining:
                    continue
                others = [f for f in rest if v not in f[0].fv]
                k = vs.index(v)
                body = mul(ind(eq(other, bound)), *[power(x, y) for x, y in others])
                body = scale(body, Fraction(1) / pc)
                return sum_over(ns[:k] + ns[k + 1:], vs[:k] + vs[k + 1:], body)
    return None


tm.MATCH_RULES.append(_rule_minv)


def _rule_logchol(ns, vs, factors):
    """sum_i log chol(A)[i,i] = 1/2 logdet(A)"""
    if len(vs) == 1 and len(factors) == 1 and factors[0][0].op == "log" and factors[0][1] == 1:
        c = factors[0][0].args[0]
        if c.op == "lam" and c.val[0] == "chol" and c.args[1] is vs[0] and c.args[2] is vs[0] and c.args[0] is ns[0]:
            _, bs, body = tm.open_lam(c)
            return scale(tm.lam_from("logdet", [ns[0]], bs, body, "N"), Fraction(1, 2))
    return None


tm.MATCH_RULES.append(_rule_logchol)


def _rule_cholchol(ns, vs, factors):
    """sum_k chol(A)[i,k] chol(A)[j,k] = A[i,j]"""
    for a, e in factors:
        if a.op == "lam" and a.val[0] == "chol" and e in (1, 2):
            n, p, q = a.args[:3]
            if q in vs and q not in p.fv and ns[vs.index(q)] is n:
                k = vs.index(q)
                if e == 2:
                    rest = [f for f in factors if f[0] is not a]
                    other = p
                else:
                    cand = [f for f in factors if f[0] is not a and f[0].op == "lam" and f[0].val == a.val and f[0].args[-1] is a.args[-1] and f[0].args[2] is q and f[1] == 1]
                    if len(cand) != 1:
                        continue
                    other = cand[0][0].args[1]
                    rest = [f for f in factors if f[0] is not a and f is not cand[0]]
                if any(q in f[0].fv for f in rest) or q in other.fv:
                    continue
                body = mul(tm.lam_body(a, p, other), *[power(x, y) for x, y in rest])
                return sum_over(ns[:k] + ns[k + 1:], vs[:k] + vs[k + 1:], body)
    return None


tm.MATCH_RULES.append(_rule_cholchol)


def _cholinv(t):
    """t = minv(chol(A))[p,q]: (n, p, q, bound vars of A, A), or None"""
    if t.op == "lam" and t.val[0] == "minv":
        n, p, q = t.args[:3]
        _, bs, body = tm.open_lam(t)
        if body.op == "lam" and body.val[0] == "chol" and body.args[0] is n and body.args[1] is bs[0] and body.args[2] is bs[1]:
            _, bs2, A = tm.open_lam(body)
            if not A.fv & set(bs):
                return n, p, q, bs2, A
    return None


def _rule_cholinv(ns, vs, factors):
    """sum_k minv(C)[k,i] minv(C)[k,j] = minv(A)[i,j] for C = chol(A)"""
    for a, e in factors:
        if e not in (1, 2) or not (a.op == "lam" and a.val[0] == "minv"):
            continue
        r = _cholinv(a)
        if r is None:
            continue
        n, p, q, bs, A = r
        if p not in vs or p in q.fv or ns[vs.index(p)] is not n:
            continue
        if e == 2:
            other = q
            rest = [f for f in factors if f[0] is not a]
        else:
            cand = [f for f in factors if f[0] is not a and f[1] == 1 and f[0].op == "lam" and f[0].val == a.val and f[0].args[-1] is a.args[-1] and f[0].args[0] is n and f[0].args[1] is p]
            if len(cand) != 1:
                continue
            other = cand[0][0].args[2]
            rest = [f for f in factors if f[0] is not a and f is not cand[0]]
        if p in other.fv or any(p in f[0].fv for f in rest):
            continue
        k = vs.index(p)
        body = mul(tm.lam_from("minv", [n, q, other], bs, A, "N"), *[power(x, y) for x, y in rest])
        return sum_over(ns[:k] + ns[k + 1:], vs[:k] + vs[k + 1:], body)
    return None


tm.MATCH_RULES.append(_rule_cholinv)


def _logdet_simp(params, vs, body, sort, isint, pos):
    n, = params
    a, b = vs
    body = _on_diagonal(body, a, b)
    d = tm._terms(body)
    if body is ind(eq(a, b)):
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        out = [(x, e) for x, e in m if not (x.fv & {a, b})]
        rest = [(x, e) for x, e in m if x.fv & {a, b}]
        if (out or c != 1) and rest and c > 0:
            k = mul(num(c), *[power(x, e) for x, e in out])
            return add(mul(n, tlog(k)), tm.lam_from("logdet", params, vs, mul(*[power(x, e) for x, e in rest]), "N"))
        dl = [x for x, e in m if x.op == "ind" and x.args[0] is eq(a, b)]
        if dl:
            r = mul(*([num(c)] + [power(x, e) for x, e in m if x is not dl[0]]))
            return sum_over([n], [a], tlog(subst(r, {b: a})))
        if len(m) == 1 and m[0][0].op == "lam" and m[0][0].val[0] == "minv" and m[0][1] == 1 and c == 1:
            t = m[0][0]
            if {t.args[1], t.args[2]} == {a, b} and t.args[0] is n:
                _, bs, bd = tm.open_lam(t)
                return neg(tm.lam_from("logdet", [n], bs, bd, "N"))
    return tm.mk_lam("logdet", params, vs, body, sort, isint, pos)


tm.LAMSIMP["logdet"] = _logdet_simp


def _chol_simp(params, vs, body, sort, isint, pos):
    n, i, j = params
    if i is j and not pos:
        return tm.mk_lam("chol", params, vs, body, "N", False, True)
    return None


tm.LAMSIMP["chol"] = _chol_simp


def _sq(a):
    a = asarr(a)
    if a.ndim != 2:
        raise ValueError("matrix expected")
    n, m = a._shape
    if n is not m and not ENG.known(eq(n, m)):
        if not ENG.branch(eq(n, m)):
            raise ValueError("expected square matrix")
    return a, n


def inv_el(n, f, i, j):
    return lam("minv", [n, i, j], 2, lambda p, q: f(p, q))


def inv(a, **k):
    a, n = _sq(a)
    f = a.fn()
    return SArr((n, n), "f", lambda i, j: inv_el(n, f, i, j))


def pinv(a, **k):
    a, n = _sq(a)
    raise Unsupported("pinv")


def cholesky(a, lower=False, overwrite_a=False, check_finite=True, _np_default=False):
    """L with L L' = A (lower) or its transpose; assumes A symmetric positive definite (else LinAlgError)"""
    a, n = _sq(a)
    f = a.fn()
    low = lower
    def el(i, j):
        return lam("chol", [n, i, j], 2, lambda p, q: f(p, q))
    r = SArr((n, n), "f", (lambda i, j: el(i, j)) if low else (lambda i, j: el(j, i)))
    r.chol_of = (a.copy(), bool(low), r.store.fn)
    return r


def _chol_src(L):
    """(matrix, lower) when L is an unmodified Cholesky factor (or its transpose)"""
    src = getattr(L, "chol_of", None)
    return src if src is not None and L.store.fn is src[2] else None


def np_cholesky(a):
    return cholesky(a, lower=True)


def cho_factor(a, lower=False, **k):
    return (cholesky(a, lower), lower)


def cho_solve(c, b, **k):
    L, low = c
    src = _chol_src(L)
    if src is None or src[1] != bool(low):
        raise Unsupported("cho_solve with unknown factor")
    return dot(inv(src[0]), b)


def sla_solve(a, b, **k):
    return dot(inv(a), b)


def solve_triangular(a, b, trans=0, lower=False, **k):
    a, n = _sq(a)
    src = _chol_src(a)
    f = a.fn()
    if src is not None and src[1] == bool(lower):
        A = a
    elif lower:    # only the selected triangle is read
        A = SArr((n, n), "f", lambda i, j: mul(ind(le(j, i)), numt(f(i, j))))
    else:
        A = SArr((n, n), "f", lambda i, j: mul(ind(le(i, j)), numt(f(i, j))))
    if trans in (1, "T"):
        A = A.T
    return dot(inv(A), b)


def slogdet(a):
    a, n = _sq(a)
    f = a.fn()
    return 1, mk(lam("logdet", [n], 2, lambda p, q: f(p, q)))


def det(a):
    raise Unsupported("det")


def norm(a, ord=None, axis=None, **k):
    a = asarr(a)
    if ord not in (None, 2) or (ord == 2 and a.ndim > 1 and axis is None):
        raise Unsupported("norm order")
    return ufunc1(tsqrt, (a * a).sum(axis=axis, keepdims=k.get("keepdims", False)))


def eigh(*a, **k):
    raise Unsupported("eigh")


def svd(*a, **k):
    raise Unsupported("svd")


def U(f, kind="f"):
    return lambda a, *r, **k: ufunc1(f, a, kind)


def keepk(f):
    def g(a, *r, **k):
        if isinstance(a, SArr):
            return ufunc1(f, a, "i" if a.kind == "i" else "f")
        return ufunc1(f, a)
    return g


def fun(name, pos=False):
    return U(lambda t: app(name, t, pos=pos))


def lnot(a):
    if isinstance(a, SArr):
        f = a.fn()
        return SArr(a._shape, "b", lambda *i: bnot(sym._tb(f(*i))))
    if isinstance(a, (list, tuple)):
        return lnot(asarr(a))
    return mk(bnot(boolt(a)))


class _Random:
    """random numbers: arbitrary values of the documented range"""
    cnt = [0]

    def __init__(self, seed=None):
        pass

    def seed(self, *a):
        pass

    def _sym(self):
        _Random.cnt[0] += 1
        return "rnd%d" % _Random.cnt[0]

    def permutation(self, n):
        a = n if isinstance(n, SArr) else None
        N = a._shape[0] if a is not None else lift(n)
        nm = self._sym()
        key = lambda v: app(nm, v)
        idx = SArr((N,), "i", lambda k: perm_of(N, k, key))
        return a[idx] if a is not None else idx

    def shuffle(self, x):
        if isinstance(x, VList):
            raise Unsupported("shuffle of a list")
        x[...] = self.permutation(x.copy())

    def _arr(self, size, f=None):
        nm = self._sym()
        if size is None:
            return mk(app(nm))
        return SArr(_shape(size), "f", lambda *i: app(nm, *i))

    def randn(self, *s):
        return self._arr(s if s else None)

    def rand(self, *s):
        return self._arr(s if s else None)

    def normal(self, loc=0, scale=1, size=None):
        return self._arr(size)

    def uniform(self, low=0, high=1, size=None):
        nm = self._sym()
        if size is not None:
            raise Unsupported("uniform")
        v = app(nm)
        ENG.assume(band(le(lift(low), v), le(v, lift(high))))
        return mk(v)

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        if size is not None:
            raise Unsupported("randint array")
        v = app(self._sym(), isint=True)
        ENG.assume(band(le(lift(low), v), lt(v, lift(high))))
        return mk(v)

    def get_state(self):
        return None

    def set_state(self, s):
        pass


class _Finfo:
    def __init__(self, d):
        self.eps = 2.220446049250313e-16
        self.max = 1.7976931348623157e308
        self.tiny = 2.2250738585072014e-308


class _Iinfo:
    def __init__(self, d):
        bits = {"int8": 8, "int16": 16, "int32": 32}.get(DType.of(d).name, 64)
        self.min, self.max = -2 ** (bits - 1), 2 ** (bits - 1) - 1


def np_maximum(a, b, *r):
    return ufunc2(tmax, a, b)


def np_minimum(a, b, *r):
    return ufunc2(tmin, a, b)


def isfinite(a):
    a = asarr(a)
    if a.ndim == 0:
        return True
    return SArr(a._shape, "b", lambda *i: TRUE)


def isnan(a):
    a = asarr(a)
    if a.ndim == 0:
        return False
    return SArr(a._shape, "b", lambda *i: FALSE)


def einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    if out is None:
        raise Unsupported("implicit einsum")
    ins = ins.split(",")
    ops = [asarr(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o._shape):
            dims.setdefault(c, d)
    fns = [o.fn() for o in ops]
    summed = [c for c in dims if c not in out]

    def g(*i):
        env = dict(zip(out, i))
        vs = []
        for c in summed:
            v = fresh("e")
            env[c] = v
            vs.append(v)
        body = mul(*[numt(mk(f(*[env[c] for c in s]))) for f, s in zip(fns, ins)])
        return sum_over([dims[c] for c in summed], vs, body)
    if not out:
        return mk(g())
    return SArr([dims[c] for c in out], "f", g)


_d = dict(
    ndarray=SArr, zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like,
    empty_like=empty_like, full_like=full_like, eye=eye, identity=eye, arange=arange, linspace=linspace, array=array, asarray=asarray,
    asanyarray=asarray, ascontiguousarray=asarray, atleast_2d=_at2d, concatenate=concatenate, vstack=vstack, hstack=hstack, stack=stack,
    expand_dims=expand_dims, transpose=transpose, diag=diag, outer=outer, inner=inner, dot=dot, matmul=dot, tile=tile,
    repeat=repeat, where=where, ix_=ix_, unique=unique, union1d=setop("union1d", 0), intersect1d=setop("intersect1d", 0),
    setdiff1d=setop("setdiff1d", 0), in1d=in1d, isin=in1d, array_equal=array_equal, all=np_all, any=np_any, sum=np_sum,
    mean=_red("mean"), std=_red("std"), var=_red("var"), max=_red("max"), min=_red("min"), amax=_red("max"), amin=_red("min"), argmax=_red("argmax"),
    argmin=_red("argmin"), argsort=lambda a, axis=-1, kind=None, **k: argsort(a, axis, kind), sort=lambda a, axis=-1, kind=None, **k: sort1(asarr(a), axis), cumsum=lambda a, axis=None, **k: cumsum(a, axis),
    real=lambda a: asarr(a), nonzero=lambda a: nonzero(asarr(a)), flatnonzero=lambda a: nonzero(asarr(a).ravel())[0], exp=U(texp), log=U(tlog), log10=U(lambda t: div(tlog(t), tlog(num(10)))), log2=U(lambda t: div(tlog(t), tlog(num(2)))), sqrt=U(tsqrt), abs=keepk(tabs), absolute=keepk(tabs),
    fabs=keepk(tabs), sign=keepk(sign), floor=U(tfloor), ceil=U(tceil), round=U(tround), around=U(tround), rint=U(tround), square=keepk(lambda t: power(t, 2)),
    power=lambda a, b: ufunc2(sym.pypow, a, b), sin=fun("sin"), cos=fun("cos"), tanh=fun("tanh"), log1p=U(lambda t: tlog(add(ONE, t))), expm1=U(lambda t: sub(texp(t), ONE)),
    maximum=np_maximum, minimum=np_minimum, fmax=np_maximum, fmin=np_minimum, clip=clip, add=lambda a, b: ufunc2(add, a, b), subtract=lambda a, b: ufunc2(sub, a, b),
    multiply=lambda a, b: ufunc2(mul, a, b), divide=lambda a, b: ufunc2(sym.truediv, a, b), true_divide=lambda a, b: ufunc2(sym.truediv, a, b), negative=lambda a: ufunc1(neg, a),
    logical_and=sym._land, logical_or=sym._lor, logical_xor=sym._lxor, logical_not=lnot, bitwise_not=lnot, invert=lnot, greater=lambda a, b: ufunc(lambda x, y: gt(x, y), [a, b], "b"),
    less=lambda a, b: ufunc(lambda x, y: lt(x, y), [a, b], "b"), equal=lambda a, b: ufunc(lambda x, y: eq(x, y), [a, b], "b"),
    copy=lambda a: asarr(a).copy(), reshape=lambda a, s, **k: asarr(a).reshape(s), ravel=lambda a: asarr(a).ravel(), squeeze=lambda a, axis=None: asarr(a).squeeze(axis),
    pad=pad, fliplr=flip(1), flipud=flip(0), triu=triu, tril=tril, isclose=isclose, allclose=allclose, trace=trace, diag_indices=diag_indices,
    searchsorted=searchsorted, isfinite=isfinite, isnan=isnan, einsum=einsum, triu_indices=triu_indices, tril_indices=tril_indices, meshgrid=meshgrid, bincount=bincount,
    newaxis=None, pi=SV(PI), inf=SV(num(float("inf"))), nan=SV(app("#nan")), finfo=_Finfo, iinfo=_Iinfo, dtype=DType.of, shape=lambda a: asarr(a).shape, ndim=lambda a: asarr(a).ndim,
    size=lambda a: asarr(a).size, diagonal=lambda a: asarr(a).diagonal(), integer=np_integer, floating=np_floating, bytes_=np_bytes, number=(int, float), isscalar=lambda a: not isinstance(a, (SArr, list, tuple)),
    random=Fn("np.random", dict(RandomState=_Random, permutation=lambda n: _Random().permutation(n), shuffle=lambda x: _Random().shuffle(x), seed=lambda *a: None,
                                rand=lambda *s: _Random().rand(*s), randn=lambda *s: _Random().randn(*s), uniform=lambda *a, **k: _Random().uniform(*a, **k), randint=lambda *a, **k: _Random().randint(*a, **k))),
    fft=Fn("np.fft", {}), linalg=Fn("np.linalg", dict(inv=inv, slogdet=slogdet, cholesky=np_cholesky, norm=norm, solve=sla_solve, det=det, eigh=eigh, svd=svd, LinAlgError=_np.linalg.LinAlgError)),
    seterr=lambda **k: None, set_printoptions=lambda **k: None, matrix=None, object=object, str=str, str_=_dtclass("str", "S"),
)
for _n, _k in dict(float32="f", float64="f", float16="f", int8="i", int16="i", int32="i", int64="i", uint8="i", uint16="i", uint32="i", bool_="b", intp="i", double="f").items():
    _d[_n] = _dtclass(_n, _k)

_SC = {}


def scalar_class(d):
    if d.name not in _SC:
        _SC[d.name] = NP.__dict__.get(d.name) or _dtclass(d.name, d.kind)
    return _SC[d.name] if hasattr(_SC[d.name], "_vc_dtype") else d


_d["float"] = _d["float64"]
_d["int"] = _d["int64"]
_d["bool"] = _d["bool_"]
import symbytes
_d["frombuffer"] = symbytes.frombuffer
NP = Fn("numpy", _d)
SLA = Fn("scipy.linalg", dict(inv=inv, cholesky=cholesky, cho_solve=cho_solve, cho_factor=cho_factor, solve=sla_solve,
                              solve_triangular=solve_triangular, norm=norm, eigh=eigh, svd=svd, det=det, LinAlgError=_np.linalg.LinAlgError))
