"""Symbolic values: scalars, arrays (shape + element function), lists, ropes; path exploration."""
import builtins
import operator
import itertools
from fractions import Fraction
import terms as tm
from terms import *
import solve
from solve import quick

_pybool, _pyint, _pyfloat, _pystr = bool, int, float, str


class Unsupported(Exception):
    pass


class PathEnd(BaseException):
    """the current path is infeasible"""


class Budget(Unsupported):
    pass


# =============================================================== engine state
class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.facts = []
        self.decisions = []
        self.pos = 0
        self.pending = []
        self.marks = []
        self.attr_uid = {}
        self.journal = []      # stack of dicts obj_key -> (restore_fn)
        self.obligations = []
        self.npaths = 0
        self.depth = 0
        self.deadline = None
        self.conds = []        # branch decisions taken on this path (terms)
        self.assumed_div = set()
        self.notes = set()

    # ---- facts
    def assume(self, t):
        t = lift(t)
        if t is TRUE:
            return
        if t is FALSE:
            raise PathEnd()
        if t.op == "and":
            for a in t.args:
                self.assume(a)
            return
        if t not in self.facts:
            self.facts.append(t)

    def known(self, t, timeout=1500):
        t = lift(t)
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t in self.facts:
            return True
        return quick(self.facts, t, timeout)

    def check_time(self):
        import time
        if self.deadline and time.process_time() > self.deadline:  # processor time: independent of the load
            raise Budget("time budget exhausted")

    def branch(self, t):
        t = lift(t)
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.sort != "B":
            t = ne(t, ZERO)
            if t in (TRUE, FALSE):
                return t is TRUE
        if t in self.facts:
            return True
        n = bnot(t)
        if n in self.facts:
            return False
        self.check_time()
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if d in ("T!", "F!"):
                return d == "T!"
        else:
            if quick(self.facts, t):
                self.decisions.append("T!")
                self.pos += 1
                return True
            if quick(self.facts, n):
                self.decisions.append("F!")
                self.pos += 1
                return False
            if len(self.decisions) > 400:
                raise Budget("too many branch decisions on one path")
            d = True
            self.pending.append(self.decisions[: self.pos] + [False])
            self.decisions.append(d)
            self.pos += 1
        c = t if d else n
        self.conds.append(c)
        self.assume(c)
        return d

    # ---- heap journal (nested exploration must be able to roll back mutations)
    def touch(self, key, snap, restore):
        if self.journal:
            if key[0] == "attr":
                u = self.attr_uid[key[1]][1]
            else:
                u = key[1].uid
            if u > self.marks[-1]:
                return          # object created inside the explored fragment
            j = self.journal[-1]
            if key not in j:
                j[key] = (snap(), restore)

    def explore(self, fn, maxpaths=256):
        """run fn on all feasible paths from the current state. yields list of
        (conds, facts_added, outcome, value, heap) ; heap: key -> (obj state after, restore)"""
        saved = (self.decisions, self.pos, self.pending, self.conds)
        base = list(self.facts)
        results = []
        work = [[]]
        self.depth += 1
        try:
            while work:
                if len(results) > maxpaths:
                    raise Budget("too many paths")
                self.decisions = work.pop()
                self.pos = 0
                self.pending = []
                self.conds = []
                self.facts = list(base)
                self.journal.append({})
                self.marks.append(next(Store._c))
                try:
                    try:
                        v = fn()
                        res = ("ret", v)
                    except PathEnd:
                        res = None
                    except (Unsupported, tm.TooBig, RecursionError):
                        raise
                    except Exception as e:
                        if isinstance(e, z3exc):
                            raise
                        res = ("exc", e)
                finally:
                    j = self.journal.pop()
                    self.marks.pop()
                    after = {}
                    for k, (snap, restore) in j.items():
                        after[k] = (restore(None), restore, snap)
                    for k, (snap, restore) in j.items():
                        restore(snap)
                if res is not None:
                    results.append((tuple(self.conds), self.facts[len(base):], res[0], res[1], after))
                work.extend(self.pending)
        finally:
            self.depth -= 1
            self.facts = base
            self.decisions, self.pos, self.pending, self.conds = saved
        return results


import z3 as _z3
z3exc = _z3.Z3Exception
ENG = Engine()


# =============================================================== lifting
def lift(v):
    if isinstance(v, T):
        return v
    if isinstance(v, SV):
        return v.t
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (_pyint, _pyfloat, Fraction)):
        return num(v)
    if isinstance(v, _pystr):
        return strc(v)
    if isinstance(v, Rope):
        return v.term()
    if isinstance(v, SArr) and v.ndim == 0:
        return v.at()
    if hasattr(v, "dtype") and hasattr(v, "item") and getattr(v, "ndim", 1) == 0:
        return lift(v.item())
    raise Unsupported("cannot lift %r" % type(v).__name__)


def mk(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op == "num" and t.isint:
        return _pyint(t.val)
    if t.op == "strconst":
        return t.val
    return SV(t)


def numt(v):
    t = lift(v)
    if t.sort == "B":
        return ind(t)
    if t.sort != "N":
        raise TypeError("number expected")
    return t


def boolt(v):
    t = lift(v)
    if t.sort == "B":
        return t
    if t.sort == "N":
        return ne(t, ZERO)
    raise Unsupported("truth value of a string")


def is_sym(v):
    return isinstance(v, (SV, SArr, Rope))


class SV:
    """symbolic scalar"""
    __slots__ = ("t",)
    __array_priority__ = 5

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SV<%s>" % show(self.t)

    def __bool__(self):
        if self.t.sort == "S":
            return ENG.branch(ne(self.t, strc("")))
        return ENG.branch(self.t)

    def __hash__(self):
        return self.t.uid

    def __index__(self):
        if self.t.op == "num" and self.t.isint:
            return _pyint(self.t.val)
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.t.op == "num":
            return _pyfloat(self.t.val)
        raise Unsupported("symbolic float used where a concrete one is needed")

    def __str__(self):
        raise Unsupported("str() of a symbolic value")

    __format__ = None

    # numpy scalar-like attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return DType({"N": "i" if self.t.isint else "f", "B": "b", "S": "S"}[self.t.sort])

    def astype(self, dt=None, *a, **k):
        return mk(cast(self.t, DType.of(dt).kind))

    def item(self):
        return self

    def lower(self):
        return mk(app("lower", self.t, sort="S"))

    def rstrip(self, *a):
        return self

    def strip(self, *a):
        return self

    def split(self, *a, **k):
        return Rope([self]).split(*a, **k)

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def __getitem__(self, k):
        if self.t.sort == "S":
            return Rope([self])[k]
        raise TypeError("scalar is not subscriptable")

    def startswith(self, p):
        return Rope([self]).startswith(p)


def _sv_arith(name, f, strf=None):
    def op(self, o):
        if isinstance(o, (SArr,)) or (hasattr(o, "__array__") and not isinstance(o, SV)):
            return NotImplemented
        if self.t.sort == "S" or isinstance(o, (_pystr, Rope)):
            if name == "add":
                return Rope([self]) + o
            if name == "mod":
                return NotImplemented
            return NotImplemented
        if o is None or isinstance(o, (list, tuple, dict)):
            return NotImplemented
        try:
            return mk(f(numt(self), numt(o)))
        except Unsupported:
            return NotImplemented

    def rop(self, o):
        if self.t.sort == "S" or isinstance(o, (_pystr, Rope)):
            if name == "add":
                return Rope([o]) + self
            return NotImplemented
        if o is None or isinstance(o, (list, tuple, dict)):
            return NotImplemented
        return mk(f(numt(o), numt(self)))
    return op, rop


def pypow(a, b):
    if b.op == "num" and b.val.denominator <= 4:
        return power(a, b.val)
    if b.op == "num":
        return app("pow", a, b)
    if a.op == "num" and a.val > 0:
        return texp(mul(b, tlog(a)))
    return app("pow", a, b)


def truediv(a, b):
    if b.op == "num" and b.val == 0:
        return app("#div0", a)
    return div(a, b)


for _n, _f in dict(add=add, sub=sub, mul=mul, truediv=truediv, floordiv=tfdiv, mod=tmod, pow=pypow).items():
    _o, _r = _sv_arith(_n, _f)
    setattr(SV, "__%s__" % _n, _o)
    setattr(SV, "__r%s__" % _n, _r)
SV.__neg__ = lambda s: mk(neg(numt(s)))
SV.__pos__ = lambda s: s
SV.__abs__ = lambda s: mk(tabs(numt(s)))


def _cmp_terms(op, a, b):
    if a.sort == "S" or b.sort == "S":
        if a.sort != b.sort:
            return FALSE if op == "eq" else TRUE if op == "ne" else None
        if op == "eq":
            return eq(a, b)
        if op == "ne":
            return ne(a, b)
        return {"lt": solve.str_lt(a, b), "gt": solve.str_lt(b, a), "le": bnot(solve.str_lt(b, a)), "ge": bnot(solve.str_lt(a, b))}[op]
    if op in ("eq", "ne") and a.sort == "B" and b.sort == "B":
        return eq(a, b) if op == "eq" else ne(a, b)
    a = ind(a) if a.sort == "B" else a
    b = ind(b) if b.sort == "B" else b
    return {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[op](a, b)


def _sv_cmp(name):
    def op(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if o is None:
            return name == "ne" if name in ("eq", "ne") else NotImplemented
        if isinstance(o, (list, tuple, dict)):
            return name == "ne" if name in ("eq", "ne") else NotImplemented
        try:
            r = _cmp_terms(name, self.t, lift(o))
        except Unsupported:
            return name == "ne" if name in ("eq", "ne") else NotImplemented
        return mk(r)
    return op


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(SV, "__%s__" % _n, _sv_cmp(_n))


def _sv_bool(name, f):
    def op(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return mk(f(boolt(self), boolt(o)))
    return op


for _n, _f in dict(and_=band, or_=bor, xor=lambda a, b: bnot(iff(a, b))).items():
    nm = _n.rstrip("_")
    setattr(SV, "__%s__" % nm, _sv_bool(nm, _f))
    setattr(SV, "__r%s__" % nm, _sv_bool(nm, _f))
SV.__invert__ = lambda s: mk(bnot(boolt(s)))


# =============================================================== dtypes
class DType:
    def __init__(self, kind, name=None):
        self.kind = kind
        self.name = name or {"f": "float64", "i": "int64", "b": "bool", "S": "str", "O": "object"}[kind]

    @staticmethod
    def of(d):
        if d is None:
            return DType("f")
        if isinstance(d, DType):
            return d
        if isinstance(d, type) and hasattr(d, "_vc_dtype"):
            return d._vc_dtype
        if hasattr(d, "_vc_dtype"):
            return d._vc_dtype
        if d in (_pyfloat,) or getattr(d, "__name__", None) in ("vc_float", "float"):
            return DType("f")
        if d is _pyint or getattr(d, "__name__", None) in ("vc_int", "int"):
            return DType("i")
        if d is _pybool or getattr(d, "__name__", None) in ("vc_bool", "bool"):
            return DType("b")
        if d is _pystr or getattr(d, "__name__", None) in ("vc_str", "str"):
            return DType("S")
        if d is object:
            return DType("O")
        if isinstance(d, _pystr):
            s = d
            if s.startswith(("float", "f", ">f", "<f", "d")):
                return DType("f", "float32" if s in ("float32", "f4", "f") else s)
            if s.startswith(("int", "uint", "i", "u", "<i", ">i")):
                return DType("i", s)
            if s.startswith("complex"):
                return DType("f", s)  # complex numbers as field elements
            if s.startswith(("bool", "?", "b")):
                return DType("b", "bool")
            return DType("S")
        if hasattr(d, "kind"):
            return DType({"f": "f", "i": "i", "u": "i", "b": "b"}.get(d.kind, "S"))
        raise Unsupported("dtype %r" % (d,))

    def __eq__(self, o):
        try:
            return self.name == DType.of(o).name
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.name)

    @property
    def itemsize(self):
        n = self.name
        for k, v in (("64", 8), ("32", 4), ("16", 2), ("8", 1)):
            if n.endswith(k):
                return v
        return {"bool": 1}.get(n, 8)

    @property
    def type(self):
        import shim_np
        return shim_np.scalar_class(self)

    def newbyteorder(self, *a):
        return self

    def __repr__(self):
        return "dtype(%s)" % self.name


def cast(t, kind):
    if kind == "b":
        return t if t.sort == "B" else ne(t, ZERO) if t.sort == "N" else ne(t, strc(""))
    if kind == "f":
        if t.sort == "B":
            return ind(t)
        if t.sort == "S":
            return app("float_of_str", t)
        return t
    if kind == "i":
        if t.sort == "B":
            return ind(t)
        if t.sort == "S":
            return app("int_of_str", t, isint=True)
        return ttrunc(t)
    if kind == "S":
        if t.sort == "S":
            return t
        if t.sort == "N":
            return app("str_of_num", t, sort="S")
    return t


def kind_of(t):
    return {"B": "b", "S": "S"}.get(t.sort) or ("i" if t.isint else "f")


def promote(*ks):
    if "O" in ks:
        return "O"
    if "S" in ks:
        return "S"
    for k in ("f", "i", "b"):
        if k in ks:
            return k
    return "f"


# =============================================================== arrays
def dimt(d):
    return lift(d) if not isinstance(d, T) else d


def nonneg(t):
    """max(t,0), simplified when t >= 0 is known"""
    if t.op == "num":
        return t if t.val >= 0 else ZERO
    if ENG.known(ge(t, ZERO)):
        return t
    return tmax(t, ZERO)


class Store:
    __slots__ = ("shape", "kind", "fn", "memo", "name", "order", "frozen", "uid", "dname")
    _c = itertools.count()

    def __init__(self, shape, kind, fn, name=None, dname=None):
        self.shape, self.kind, self.fn, self.name = tuple(shape), kind, fn, name
        self.memo = {}
        self.uid = next(Store._c)
        self.dname = dname
        self.frozen = False

    def at(self, idx):
        k = idx
        r = self.memo.get(k)
        if r is None:
            r = self.fn(*idx)
            if isinstance(r, (SV, _pyint, _pyfloat)):
                r = lift(r)
            self.memo[k] = r
        return r

    def snapshot(self):
        fn, memo = self.fn, self.memo

        def f(*idx):
            r = memo.get(idx)
            if r is None:
                r = fn(*idx)
                memo[idx] = r
            return r
        return f

    def set_fn(self, fn):
        ENG.touch(("store", self), lambda: (self.fn, self.memo), self._restore)
        self.fn, self.memo = fn, {}

    def _restore(self, s):
        if s is None:
            return (self.fn, self.memo)
        self.fn, self.memo = s

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


class SArr:
    """array view on a store: imap maps view indices to store indices; inv gives, for store
    indices, (condition that the cell is in the view, view indices)"""
    __array_priority__ = 10

    def __init__(self, shape, kind, fn=None, store=None, imap=None, inv=None, name=None, dname=None):
        self._shape = shape = tuple(lift(s) for s in shape)
        if store is None:
            store = Store(shape, kind, fn, name, dname)
        self.store = store
        self.imap = imap
        self.inv = inv

    # ---- basic info
    @property
    def kind(self):
        return self.store.kind

    @property
    def dtype(self):
        return DType(self.store.kind, self.store.dname)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def shape(self):
        return tuple(mk(d) for d in self._shape)

    @shape.setter
    def shape(self, s):
        raise Unsupported("assignment to shape")

    @property
    def size(self):
        return mk(mul(*self._shape)) if self._shape else 1

    def __len__(self):
        raise Unsupported("len() of symbolic array through C")

    def vlen(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return mk(self._shape[0])

    def __repr__(self):
        return "SArr(%s,%s)" % (self.kind, ",".join(show(d) for d in self._shape))

    __hash__ = object.__hash__

    def fn(self):
        f = self.store.snapshot()
        im = self.imap
        if im is None:
            return f
        return lambda *i: f(*im(*i))

    def at(self, *idx):
        idx = tuple(lift(i) for i in idx)
        if self.imap is not None:
            idx = self.imap(*idx)
        return self.store.at(tuple(idx))

    def __bool__(self):
        if self.ndim == 0:
            return ENG.branch(self.at())
        if all(d is ONE for d in self._shape):
            return ENG.branch(boolt(mk(self.at(*([ZERO] * self.ndim)))))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def item(self, *a):
        return mk(self.at(*([ZERO] * self.ndim)))

    def __index__(self):
        if self.ndim == 0:
            return SV(self.at()).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def copy(self, order=None):
        return new(self._shape, self.kind, self.fn(), dname=self.store.dname)

    def view(self, *a, **k):
        raise Unsupported("ndarray.view")

    def astype(self, dt=None, copy=True, **k):
        d = DType.of(k.get("dtype", dt))
        f = self.fn()
        if d.kind == self.kind and not _pybool(copy):
            return self
        return new(self._shape, d.kind, lambda *i: cast(f(*i), d.kind), dname=d.name)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if self.ndim == 1:
            f = self.fn()
            return VList.symbolic(self._shape[0], lambda i: mk(f(i)))
        raise Unsupported("tolist")

    # ---- shape manipulation
    @property
    def T(self):
        r = self.transpose()
        c = getattr(self, "chol_of", None)
        if c is not None:
            r.chol_of = (c[0], not c[1], c[2])
        return r

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if axes == () or axes == (None,):
            axes = tuple(range(self.ndim))[::-1]
        axes = [a % self.ndim for a in axes]
        inv = [axes.index(k) for k in range(self.ndim)]
        im, iv = self.imap, self.inv

        def imap(*i):
            j = tuple(i[inv[k]] for k in range(len(i)))
            return im(*j) if im else j

        def ninv(*s):
            c, v = iv(*s) if iv else (TRUE, s)
            return c, tuple(v[a] for a in axes)
        return SArr([self._shape[a] for a in axes], self.kind, store=self.store, imap=imap, inv=None if (self.imap and not iv) else ninv)

    def ravel(self, *a, **k):
        return self.reshape(-1)

    def flatten(self, *a, **k):
        return self.reshape(-1).copy()

    def squeeze(self, axis=None):
        if axis is None:
            axes = [k for k, d in enumerate(self._shape) if d is ONE]
        else:
            axes = [axis] if isinstance(axis, _pyint) else list(axis)
            axes = [a % self.ndim for a in axes]
        key = tuple(0 if k in axes else slice(None) for k in range(self.ndim))
        return self[key] if axes else self

    def reshape(self, *shape, **kw):
        if kw.get("order", "C") != "C":
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shp = [lift(s) for s in shape]
        if any(s.op == "num" and s.val == -1 for s in shp):
            k = [j for j, s in enumerate(shp) if s.op == "num" and s.val == -1][0]
            rest = mul(*[s for j, s in enumerate(shp) if j != k]) if len(shp) > 1 else ONE
            tot = mul(*self._shape) if self._shape else ONE
            q = div(tot, rest)
            if not q.isint:
                q = tfdiv(tot, rest)
            shp[k] = q
        else:
            tot = mul(*self._shape) if self._shape else ONE
            if eq(tot, mul(*shp) if shp else ONE) is not TRUE:
                if not ENG.branch(eq(tot, mul(*shp))):
                    raise ValueError("cannot reshape array")
        return self._reshape(shp)

    def _reshape(self, shp):
        old = self._shape
        if tuple(shp) == tuple(old):
            return self
        # singleton insertion / removal keeps exact maps
        o1 = [d for d in old if d is not ONE]
        n1 = [d for d in shp if d is not ONE]
        im = self.imap
        if o1 == n1:
            ok = [k for k, d in enumerate(old) if d is not ONE]
            nk = [k for k, d in enumerate(shp) if d is not ONE]

            def imap(*i):
                j = [ZERO] * len(old)
                for a, b in zip(ok, nk):
                    j[a] = i[b]
                return im(*j) if im else tuple(j)
            iv = self.inv

            def ninv(*s):
                c, v = iv(*s) if iv else (TRUE, s)
                j = [ZERO] * len(shp)
                for a, b in zip(ok, nk):
                    j[b] = v[a]
                return c, tuple(j)
            return SArr(shp, self.kind, store=self.store, imap=imap, inv=None if (im and not iv) else ninv)

        # match common prefixes/suffixes, merge or split one block
        def imap(*i):
            flat = _flat(i, shp)
            j = _unflat(flat, old)
            return im(*j) if im else tuple(j)
        return SArr(shp, self.kind, store=self.store, imap=imap, inv=None)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        d = self._shape[0]
        if d.op == "num":
            return iter([self[k] for k in range(_pyint(d.val))])
        raise Unsupported("iteration over symbolic array through C")

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    # ---- in place arithmetic
    def _iop(self, f, o):
        r = ufunc2(f, self, o)
        setitem(self, Ellipsis, r)
        return self

    def __iadd__(self, o): return self._iop(add, o)
    def __isub__(self, o): return self._iop(sub, o)
    def __imul__(self, o): return self._iop(mul, o)
    def __itruediv__(self, o): return self._iop(truediv, o)
    def __ifloordiv__(self, o): return self._iop(tfdiv, o)

    def __iand__(self, o):
        setitem(self, Ellipsis, self & o)
        return self

    def __ior__(self, o):
        setitem(self, Ellipsis, self | o)
        return self

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, keepdims=False):
        s = reduce_sum(self, axis, keepdims)
        n = _axis_size(self, axis)
        return s / mk(n)

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        return (d * d).sum(axis=axis, keepdims=keepdims) / (mk(_axis_size(self, axis)) - ddof)

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        v = self.var(axis=axis, ddof=ddof, keepdims=keepdims)
        return ufunc1(tsqrt, v)

    def max(self, axis=None, keepdims=False, **k):
        return reduce_ext(self, axis, "max", keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return reduce_ext(self, axis, "min", keepdims)

    def argmax(self, axis=None):
        return reduce_ext(self, axis, "argmax", False)

    def argmin(self, axis=None):
        return reduce_ext(self, axis, "argmin", False)

    def any(self, axis=None, keepdims=False):
        return reduce_bool(self, axis, "any", keepdims)

    def all(self, axis=None, keepdims=False):
        return reduce_bool(self, axis, "all", keepdims)

    def prod(self, axis=None):
        raise Unsupported("prod")

    def dot(self, o):
        return dot(self, o)

    def nonzero(self):
        return nonzero(self)

    def round(self, *a):
        return ufunc1(tround, self)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def sort(self, axis=-1):
        setitem(self, Ellipsis, sort1(self, axis))

    def argsort(self, axis=-1, kind=None):
        return argsort(self, axis, kind)

    def repeat(self, k, axis=None):
        import shim_np
        return shim_np.NP.repeat(self, k, axis)

    def diagonal(self):
        f = self.fn()
        return new((self._shape[0],), self.kind, lambda i: f(i, i))

    def trace(self):
        return self.diagonal().sum()

    def tobytes(self, *a, **k):
        import symbytes
        return symbytes.tobytes(self)

    tostring = tobytes

    def lower(self):
        raise AttributeError("lower")


def _flat(i, shp):
    r = ZERO
    for k, d in zip(i, shp):
        r = add(mul(r, d), k)
    return r


def _unflat(flat, shp):
    out = []
    r = flat
    for k in range(len(shp) - 1, 0, -1):
        d = shp[k]
        m = divmod_t(r, d)
        out.append(m[1])
        r = m[0]
    out.append(r)
    return out[::-1]


def divmod_t(t, d):
    """(t // d, t % d) exploiting t = q*d + r with 0<=r<d known"""
    if d is ONE:
        return t, ZERO
    if t is ZERO:
        return ZERO, ZERO
    # split terms divisible by d
    q, r = [], []
    dd = tm._terms(d)
    for m, c in tm._terms(t).items():
        x = div(tm._frompoly({m: c}), d)
        if x.isint:
            q.append(x)
        else:
            r.append(tm._frompoly({m: c}))
    qt, rt = add(*q) if q else ZERO, add(*r) if r else ZERO
    if rt is ZERO:
        return qt, ZERO
    if len(dd) > 1:
        # polynomial divisor: try t - k*d for k among candidate quotients is left to z3
        pass
    if ENG.known(band(le(ZERO, rt), lt(rt, d))):
        return qt, rt
    f = tfdiv(rt, d)
    return add(qt, f), sub(rt, mul(d, f))


def new(shape, kind, fn, name=None, dname=None):
    return SArr([lift(d) for d in shape], kind, fn, name=name, dname=dname)


def wrap0(a):
    """0-d array -> scalar"""
    if isinstance(a, SArr) and a.ndim == 0:
        return mk(a.at())
    return a


def asarr(v):
    if isinstance(v, SArr):
        return v
    if isinstance(v, (SV, _pybool, _pyint, _pyfloat, _pystr, Rope, Fraction)) or v is None:
        if v is None:
            raise Unsupported("array of None")
        t = lift(v)
        return SArr((), kind_of(t), lambda: t)
    if isinstance(v, VList) and v.sym is not None:
        return v.as_array()
    if isinstance(v, (list, tuple)):
        els = [asarr(x) for x in v]
        if not els:
            return SArr((ZERO,), "f", lambda i: ZERO)
        shp = els[0]._shape
        for e in els[1:]:
            if len(e._shape) != len(shp):
                raise Unsupported("ragged array")
            for a, b in zip(e._shape, shp):
                if a is not b and not ENG.known(eq(a, b)):
                    raise Unsupported("ragged array")
        k = promote(*[e.kind for e in els])
        fns = [e.fn() for e in els]

        def f(i, *r):
            if i.op == "num":
                return cast(fns[_pyint(i.val)](*r), k)
            res = cast(fns[-1](*r), k)
            for j in range(len(fns) - 2, -1, -1):
                res = ite(eq(i, num(j)), cast(fns[j](*r), k), res)
            return res
        return SArr((num(len(els)),) + shp, k, f)
    if hasattr(v, "dtype") and hasattr(v, "tolist"):
        import numpy
        if isinstance(v, numpy.ndarray):
            if v.size > 4096:
                raise Unsupported("large concrete array")
            if v.size == 0:
                return SArr([num(d) for d in v.shape], {"f": "f", "i": "i", "u": "i", "b": "b"}.get(v.dtype.kind, "S"), lambda *i: ZERO)
            return asarr(v.tolist())
        return asarr(v.item())
    if hasattr(v, "__vc_array__"):
        return v.__vc_array__()
    raise Unsupported("asarray of %s" % type(v).__name__)


def bshape(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        dims = [s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0]
        d = None
        for x in dims:
            if x is ONE:
                continue
            if d is None or d is x:
                d = x
                continue
            if ENG.known(eq(d, x)):
                continue
            if ENG.branch(eq(d, x)):
                continue
            if ENG.branch(eq(d, ONE)):
                raise Unsupported("dimension that may be one")
            if ENG.branch(eq(x, ONE)):
                raise Unsupported("dimension that may be one")
            raise ValueError("operands could not be broadcast together")
        out.append(d if d is not None else ONE)
    return tuple(out)


def bindex(shape, out, idx):
    """indices into an operand of given shape for output index idx"""
    off = len(out) - len(shape)
    return tuple(ZERO if (d is ONE and out[off + k] is not ONE) else idx[off + k] for k, d in enumerate(shape))


def ufunc(f, args, kind=None):
    arrs = [asarr(a) for a in args]
    shp = bshape([a._shape for a in arrs])
    fns = [a.fn() for a in arrs]
    shapes = [a._shape for a in arrs]

    def g(*i):
        return f(*[fn(*bindex(s, shp, i)) for fn, s in zip(fns, shapes)])
    if not shp:
        return mk(lift(g()))
    if kind is None:
        kind = promote(*[a.kind for a in arrs])
    return SArr(shp, kind, g)


def ufunc1(f, a, kind="f"):
    if isinstance(a, SArr):
        fn = a.fn()
        if a.ndim == 0:
            return mk(f(cast(fn(), "f") if a.kind == "b" else fn()))
        return SArr(a._shape, kind, lambda *i: f(numt(fn(*i))))
    if isinstance(a, (list, tuple)):
        return ufunc1(f, asarr(a), kind)
    return mk(f(numt(a)))


def ufunc2(f, a, b, kind=None):
    g = lambda x, y: f(ind(x) if x.sort == "B" else x, ind(y) if y.sort == "B" else y)
    if kind is None:
        ka, kb = _k(a), _k(b)
        kind = promote(ka, kb)
        if f in (truediv,):
            kind = "f"
        if kind == "b":
            kind = "i"
    return ufunc(g, [a, b], kind)


def _k(a):
    if isinstance(a, SArr):
        return a.kind
    if isinstance(a, (list, tuple)):
        return asarr(a).kind
    if isinstance(a, _pyfloat):
        return "f"
    return kind_of(lift(a))


def _arr_op(f):
    def op(self, o):
        if o is None:
            return NotImplemented
        return ufunc2(f, self, o)

    def rop(self, o):
        return ufunc2(f, o, self)
    return op, rop


for _n, _f in dict(add=add, sub=sub, mul=mul, truediv=truediv, floordiv=tfdiv, mod=tmod, pow=pypow).items():
    _o, _r = _arr_op(_f)
    setattr(SArr, "__%s__" % _n, _o)
    setattr(SArr, "__r%s__" % _n, _r)
SArr.__neg__ = lambda s: ufunc1(neg, s, s.kind)
SArr.__abs__ = lambda s: ufunc1(tabs, s, s.kind)
SArr.__matmul__ = lambda s, o: dot(s, o)


def _arr_cmp(name):
    def op(self, o):
        if o is None:
            return name == "ne" if name in ("eq", "ne") else NotImplemented
        return ufunc(lambda a, b: _cmp_terms(name, a, b), [self, o], "b")
    return op


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(SArr, "__%s__" % _n, _arr_cmp(_n))


def _tb(t):
    return t if t.sort == "B" else ne(t, ZERO)


def logical(f):
    def g(a, b):
        return ufunc(lambda x, y: f(_tb(x), _tb(y)), [a, b], "b")
    return g


_land, _lor, _lxor = logical(band), logical(bor), logical(lambda a, b: bnot(iff(a, b)))


def _bw(lf):
    def op(self, o):
        if self.kind != "b":
            raise Unsupported("bitwise op on integers")
        return lf(self, o)
    return op


SArr.__and__ = SArr.__rand__ = _bw(_land)
SArr.__or__ = SArr.__ror__ = _bw(_lor)
SArr.__xor__ = SArr.__rxor__ = _bw(_lxor)


def _inv(self):
    if self.kind != "b":
        raise Unsupported("~ on integers")
    f = self.fn()
    return SArr(self._shape, "b", lambda *i: bnot(_tb(f(*i))))


SArr.__invert__ = _inv


def tround(t):
    if t.isint:
        return t
    return app("round", t, isint=True)


# ---------------------------------------------------------------- reductions
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        ax = [x % a.ndim for x in axis]
    else:
        ax = [operator.index(axis)]
        if not -a.ndim <= ax[0] < a.ndim:
            raise IndexError("axis out of range")
        ax = [ax[0] % a.ndim]
    return sorted(ax)


def _axis_size(a, axis):
    r = ONE
    for k in _axes(a, axis):
        r = mul(r, a._shape[k])
    return r


def _reduce(a, axis, comb, kind, keepdims):
    """comb(ns, vs, body)"""
    axes = _axes(a, axis)
    f = a.fn()
    outdims = [d for k, d in enumerate(a._shape) if k not in axes]
    ns = [a._shape[k] for k in axes]
    keep = [k for k in range(a.ndim) if k not in axes]

    def g(*i):
        vs = [fresh("r") for _ in axes]
        full = [None] * a.ndim
        for k, x in zip(keep, i):
            full[k] = x
        for k, v in zip(axes, vs):
            full[k] = v
        return comb(ns, vs, f(*full))
    if keepdims:
        shp = [ONE if k in axes else d for k, d in enumerate(a._shape)]
        return SArr(shp, kind, lambda *i: g(*[i[k] for k in keep]))
    if not outdims:
        return mk(g())
    return SArr(outdims, kind, g)


def reduce_sum(a, axis=None, keepdims=False):
    a = asarr(a)
    return _reduce(a, axis, lambda ns, vs, b: sum_over(ns, vs, numt(mk(b))), "i" if a.kind in "ib" else "f", keepdims)


def reduce_ext(a, axis, what, keepdims=False):
    a = asarr(a)
    axes = _axes(a, axis)
    if len(axes) == 0:
        return wrap0(a)
    for k in axes:
        n = a._shape[k]
        if not ENG.known(ge(n, ONE)):
            if not ENG.branch(ge(n, ONE)):
                raise ValueError("zero-size array to reduction operation")
    if len(axes) > 1:
        if what in ("argmax", "argmin"):
            return reduce_ext(a.reshape(-1), 0, what)
        r = a
        for k in sorted(axes, reverse=True):
            r = reduce_ext(r, k, what, keepdims)
        return r

    def comb(ns, vs, b):
        n, = ns
        if n is ONE:
            return ZERO if what.startswith("arg") else subst(b, {vs[0]: ZERO})
        b = numt(mk(b))
        if n.op == "num" and n.val <= 4 and what in ("max", "min"):
            r = subst(b, {vs[0]: ZERO})
            for j in range(1, _pyint(n.val)):
                x = subst(b, {vs[0]: num(j)})
                r = tmax(r, x) if what == "max" else tmin(r, x)
            return r
        if vs[0] not in b.fv and what in ("max", "min"):
            return b
        return lam_from(what, [n], vs, b, "N", isint=what.startswith("arg") or b.isint, pos=b.pos and not what.startswith("arg"))
    return _reduce(a, axis, comb, "i" if what.startswith("arg") else a.kind, keepdims)


def reduce_bool(a, axis, what, keepdims=False):
    a = asarr(a)

    def comb(ns, vs, b):
        b = _tb(b)
        rng = band(*[band(le(ZERO, v), lt(v, n)) for v, n in zip(vs, ns)])
        if what == "any":
            return tm.quant_from("exists", vs, band(rng, b)) if b not in (TRUE, FALSE) else (FALSE if b is FALSE else band(*[ge(n, ONE) for n in ns]))
        return tm.quant_from("forall", vs, implies(rng, b)) if b not in (TRUE, FALSE) else (TRUE if b is TRUE else bor(*[eq(n, ZERO) for n in ns]))
    return _reduce(a, axis, comb, "b", keepdims)


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap0(a) * wrap0(b)
    ka = a._shape[-1]
    kb = b._shape[-2] if b.ndim >= 2 else b._shape[0]
    if ka is not kb and not ENG.known(eq(ka, kb)):
        if not ENG.branch(eq(ka, kb)):
            raise ValueError("shapes not aligned")
    fa, fb = a.fn(), b.fn()
    na = a.ndim - 1
    shp = a._shape[:-1] + (b._shape[:-2] + b._shape[-1:] if b.ndim >= 2 else ())

    def g(*i):
        v = fresh("d")
        x = fa(*i[:na], v)
        j = i[na:]
        y = fb(*j[:-1], v, j[-1]) if b.ndim >= 2 else fb(v)
        return sum_over([ka], [v], mul(numt(mk(x)), numt(mk(y))))
    if not shp:
        return mk(g())
    return SArr(shp, promote(a.kind, b.kind), g)


def cumsum(a, axis=None):
    a = asarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("cumsum flat")
        axis = 0
    axis = axis % a.ndim
    f = a.fn()

    def g(*i):
        v = fresh("c")
        j = list(i)
        j[axis] = v
        return sum_over([add(i[axis], ONE)], [v], numt(mk(f(*j))))
    return SArr(a._shape, "i" if a.kind in "ib" else "f", g)


def argsort(a, axis=-1, kind=None):
    a = asarr(a)
    st = kind in ("mergesort", "stable")
    if axis is None:
        a = a.ravel()
        axis = -1
    if isinstance(axis, SV) or not isinstance(axis, int):
        raise Unsupported("argsort axis")
    if axis < -a.ndim or axis >= a.ndim:
        raise IndexError("axis out of bounds")
    axis %= a.ndim
    if a.ndim == 1:
        n = a._shape[0]
        f = a.fn()
        return SArr((n,), "i", lambda k: perm_of(n, k, f, st))
    f = a.fn()

    def g(*i):
        return perm_of(a._shape[axis], i[axis], lambda v: f(*(i[:axis] + (v,) + i[axis + 1:])), st)
    return SArr(a._shape, "i", g)


def perm_of(n, k, f, stable=False):
    if n is ONE:
        return ZERO
    return lam("sperm" if stable else "perm", [n, k], 1, lambda v: numt(mk(f(v))) if f(v).sort != "S" else f(v), isint=True)


def sort1(a, axis=-1):
    if a.ndim > 1:
        axis %= a.ndim
        f0 = a.fn()
        o = argsort(a, axis)
        return SArr(a._shape, a.kind, lambda *i: f0(*(i[:axis] + (o.at(*i),) + i[axis + 1:])))
    n = a._shape[0]
    f = a.fn()
    return SArr((n,), a.kind, lambda k: f(perm_of(n, k, f)))


def nonzero(a):
    a = asarr(a)
    f = a.fn()
    if a.ndim == 1:
        n = a._shape[0]
        cnt = sum_over(*_one(n, lambda v: ind(_tb(f(v)))))
        return (SArr((cnt,), "i", lambda k: sel_of(n, k, f)),)
    if a.ndim == 2:
        n, m = a._shape
        v, w = fresh("r"), fresh("r")
        cnt = sum_over([n, m], [v, w], ind(_tb(f(v, w))))
        mkl = lambda nm: SArr((cnt,), "i", lambda k: lam(nm, [n, m, k], 2, lambda i, j: _tb(f(i, j)), isint=True))
        return (mkl("sel2r"), mkl("sel2c"))
    raise Unsupported("nonzero nd")


def _one(n, f):
    v = fresh("r")
    return [n], [v], f(v)


def sel_of(n, k, f):
    v = fresh("b")
    b = _tb(f(v))
    if b is TRUE:
        return k
    return tm.lam_from("sel", [n, k], [v], b, "N", True)


# ---------------------------------------------------------------- indexing
def norm_index(i, n, what="index"):
    """python index semantics for an int index on an axis of size n; forks to IndexError"""
    t = lift(i)
    if t.sort == "B":
        t = ind(t)
    if not t.isint:
        raise IndexError("non integer index")
    if t.op == "num":
        if t.val < 0:
            r = add(n, t)
        else:
            r = t
    elif ENG.known(ge(t, ZERO)):
        r = t
    elif ENG.known(lt(t, ZERO)):
        r = add(n, t)
    elif ENG.branch(ge(t, ZERO)):
        r = t
    else:
        r = add(n, t)
    ok = band(le(ZERO, r), lt(r, n))
    if ok is not TRUE and not ENG.known(ok):
        if not ENG.branch(ok):
            raise IndexError("index out of bounds")
    return r


def scale(t, c):
    return mul(t, c) if isinstance(c, T) else tm.scale(t, c)


def norm_slice(s, n):
    """-> start, length, step (terms / int)"""
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, SV) and lift(step).op != "num":
        step = lift(step)
        if not ENG.known(ge(step, ONE)):
            raise Unsupported("symbolic slice step of unknown sign")
    else:
        step = _pyint(lift(step).val) if isinstance(step, SV) else _pyint(step)

    def fix(x, dflt, lo, hi):
        if x is None:
            return dflt
        t = lift(x)
        if not t.isint:
            raise TypeError("slice indices must be integers")
        if t.op == "num":
            if t.val < 0:
                t = add(n, t)
                return t if ENG.known(ge(t, lo)) else tmax(t, lo)
        elif not ENG.known(ge(t, ZERO)):
            if ENG.known(lt(t, ZERO)):
                t = add(n, t)
                return t if ENG.known(ge(t, lo)) else tmax(t, lo)
            if not ENG.branch(ge(t, ZERO)):
                t = add(n, t)
                return t if ENG.known(ge(t, lo)) else tmax(t, lo)
        if ENG.known(le(t, hi)):
            return t
        return tmin(t, hi)
    if isinstance(step, T) or step > 0:
        st = fix(s.start, ZERO, ZERO, n)
        en = fix(s.stop, n, ZERO, n)
        ln = nonneg(sub(en, st))
        if isinstance(step, T):
            return st, tfdiv(add(ln, sub(step, ONE)), step), step
        if step > 1:
            ln = tfdiv(add(ln, num(step - 1)), num(step))
        return st, ln, step
    if step == -1:
        hi = sub(n, ONE)
        st = fix(s.start, hi, num(-1), hi)
        en = fix(s.stop, num(-1), num(-1), hi) if s.stop is not None else num(-1)
        return st, nonneg(sub(st, en)), -1
    raise Unsupported("slice step %d" % step)


def _keyparts(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [k for k in key]
    nd = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.kind == "b" and k.ndim > 1:
            nd += k.ndim
        else:
            nd += 1
    if nd > a.ndim:
        raise IndexError("too many indices")
    e = [j for j, k in enumerate(key) if k is Ellipsis]
    fill = [slice(None)] * (a.ndim - nd)
    if e:
        key = key[: e[0]] + fill + key[e[0] + 1:]
    else:
        key = key + fill
    out = []
    for k in key:
        if isinstance(k, range):
            k = list(k)
        if isinstance(k, (list,)) or (isinstance(k, VList)):
            k = asarr(k)
        if hasattr(k, "dtype") and not is_sym(k) and hasattr(k, "tolist"):
            k = asarr(k) if getattr(k, "ndim", 0) else k.item()
        if isinstance(k, SymRange):
            k = k.as_array()
        if isinstance(k, SArr) and k.ndim == 0:
            k = mk(k.at())
        if isinstance(k, (_pybool,)) and not isinstance(k, SArr):
            raise Unsupported("bool index")
        out.append(k)
    return out


def getitem(a, key):
    parts = _keyparts(a, key)
    adv = any(isinstance(k, SArr) for k in parts)
    if not adv:
        return _basic_view(a, parts)
    return _adv_get(a, parts)


def _basic_view(a, parts):
    axis = 0
    specs = []   # per source axis: ('i', t) or ('r', st, step, outpos)
    shp = []
    for k in parts:
        if k is None:
            shp.append(ONE)
            continue
        n = a._shape[axis]
        if isinstance(k, slice):
            if k == slice(None):
                st, ln, step = ZERO, n, 1
            else:
                st, ln, step = norm_slice(k, n)
            specs.append(("r", st, step, len(shp), ln))
            shp.append(ln)
        else:
            specs.append(("i", norm_index(k, n)))
        axis += 1
    im, iv = a.imap, a.inv

    def imap(*i):
        j = tuple(s[1] if s[0] == "i" else (add(s[1], i[s[3]]) if s[2] == 1 else add(s[1], scale(i[s[3]], s[2]))) for s in specs)
        return im(*j) if im else j

    def inv(*sx):
        c, v = iv(*sx) if iv else (TRUE, sx)
        conds = [c]
        out = [ZERO] * len(shp)
        for s, x in zip(specs, v):
            if s[0] == "i":
                conds.append(eq(x, s[1]))
            else:
                d = sub(x, s[1])
                if s[2] == 1:
                    w = d
                elif s[2] == -1:
                    w = neg(d)
                else:
                    w = tfdiv(d, lift(s[2]))
                    conds.append(eq(scale(w, s[2]), d))
                if not (s[1] is ZERO and s[2] == 1 and s[4] is a._shape[specs.index(s)]):
                    conds.append(le(ZERO, w))
                    conds.append(lt(w, s[4]))
                out[s[3]] = w
        return band(*conds), tuple(out)
    r = SArr(shp, a.kind, store=a.store, imap=imap, inv=None if (im and not iv) else inv)
    if not shp:
        return mk(r.at())
    return r


def _mask_to_idx(k, dims):
    for d, n in zip(k._shape, dims):
        if d is not n and not ENG.known(eq(d, n)):
            if not ENG.branch(eq(d, n)):
                raise IndexError("boolean index did not match indexed array")
    return list(nonzero(k))


def _expand_adv(a, parts):
    out = []
    axis = 0
    for k in parts:
        if k is None:
            out.append(None)
            continue
        if isinstance(k, SArr) and k.kind == "b":
            out.extend(_mask_to_idx(k, a._shape[axis: axis + k.ndim]))
            axis += k.ndim
        else:
            out.append(k)
            axis += 1
    return out


def check_idx_array(k, n):
    """bounds of an index array (forks to IndexError)"""
    if not isinstance(k, SArr):
        return
    if getattr(k, "tri", None) is not None and k.tri[1] is n:
        return
    f = k.fn()
    vs = [fresh("ix") for _ in k._shape]
    x = f(*vs)
    if x.op == "lam" and x.val[0] in ("sel", "perm", "sperm", "sel2r", "sel2c"):
        if x.args[0] is n or (x.val[0] == "sel2c" and x.args[1] is n):
            return
    rng = [c for v, d in zip(vs, k._shape) for c in (le(ZERO, v), lt(v, d))]
    ok = band(le(ZERO, x), lt(x, n))
    if quick(ENG.facts + rng, ok):
        return
    g = tm.quant_from("forall", vs, implies(band(*rng), band(le(neg(n), x), lt(x, n))))
    if not ENG.branch(g):
        raise IndexError("index array out of bounds")


def _adv_get(a, parts):
    parts = _expand_adv(a, parts)
    axis = 0
    items = []
    for k in parts:
        if k is None:
            items.append(("new",))
            continue
        n = a._shape[axis]
        if isinstance(k, slice):
            st, ln, step = (ZERO, n, 1) if k == slice(None) else norm_slice(k, n)
            items.append(("s", axis, st, ln, step))
        elif isinstance(k, SArr):
            check_idx_array(k, n)
            items.append(("a", axis, k, n))
        else:
            t = norm_index(k, n)
            items.append(("a", axis, SArr((), "i", lambda t=t: t), n))
        axis += 1
    advs = [it for it in items if it[0] == "a"]
    ashape = bshape([it[2]._shape for it in advs])
    pos = [j for j, it in enumerate(items) if it[0] == "a"]
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    shp = []
    layout = []
    if not contiguous:
        layout.append(("A", 0))
        shp += list(ashape)
    for j, it in enumerate(items):
        if it[0] == "a":
            if contiguous and j == pos[0]:
                layout.append(("A", len(shp)))
                shp += list(ashape)
        elif it[0] == "new":
            shp.append(ONE)
        else:
            layout.append(("S", len(shp), it))
            shp.append(it[3])
    apos = [l[1] for l in layout if l[0] == "A"][0]
    fa = a.fn()
    fns = [(it[1], it[2].fn(), it[2]._shape, it[3]) for it in advs]

    def g(*i):
        full = [None] * a.ndim
        ai = i[apos: apos + len(ashape)]
        for ax, f, s, n in fns:
            x = f(*bindex(s, ashape, ai))
            full[ax] = x if (x.op == "lam" or not _maybe_neg(x)) else wrapneg(x, n)
        for l in layout:
            if l[0] == "S":
                it = l[2]
                full[it[1]] = add(it[2], scale(i[l[1]], it[4]))
        return fa(*full)
    if not shp:
        return mk(g())
    return SArr(shp, a.kind, g)


def _maybe_neg(x):
    if x.op == "num":
        return x.val < 0
    return False


def wrapneg(x, n):
    if x.op == "num" and x.val < 0:
        return add(x, n)
    return x


def setitem(a, key, v):
    parts = _keyparts(a, key)
    if any(isinstance(k, SArr) for k in parts):
        if isinstance(v, SArr) and v.store is a.store and v.ndim > 0:
            # numpy writes while reading in this case: the result depends on the order of the writes
            raise Unsupported("indexed assignment of an array to itself")
        return _adv_set(a, parts, v)
    if key is Ellipsis or all(isinstance(k, slice) and k == slice(None) for k in parts):
        view = a
    else:
        view = _basic_view_keep(a, parts)
    if view.imap is not None and view.inv is None:
        raise Unsupported("write through a non invertible view")
    va = _strip_ones(asarr(v), view.ndim)
    shp = _assign_shape(view._shape, va)
    fv = va.fn()
    st = a.store
    old = st.snapshot()
    kind = st.kind
    vs, vsh = va._shape, view._shape

    def g(*s):
        c, w = view.inv(*s) if view.inv else (TRUE, s)
        if c is FALSE:
            return old(*s)
        val = cast(fv(*bindex(vs, vsh, w)), kind)
        return ite(c, val, old(*s)) if c is not TRUE else val
    if kind in "fi" and va.kind == "S":
        raise Unsupported("string into numeric array")
    st.set_fn(g)


def _basic_view_keep(a, parts):
    """like _basic_view but never collapses to a scalar"""
    axis_new = []
    for k in parts:
        axis_new.append(k)
    r = None
    # integer-only keys give 0-d views
    if all(not isinstance(k, slice) and k is not None for k in parts):
        idx = [norm_index(k, n) for k, n in zip(parts, a._shape)]
        iv = a.inv
        im = a.imap

        def inv(*s):
            c, v = iv(*s) if iv else (TRUE, s)
            return band(c, *[eq(x, t) for x, t in zip(v, idx)]), ()

        return SArr((), a.kind, store=a.store, imap=lambda: (im(*idx) if im else tuple(idx)), inv=None if (im and not iv) else inv)
    return _basic_view(a, parts)


def _strip_ones(va, nd):
    if va.ndim <= nd:
        return va
    k = va.ndim - nd
    for d in va._shape[:k]:
        if d is not ONE:
            if not ENG.branch(eq(d, ONE)):
                raise ValueError("could not broadcast input array")
    f = va.fn()
    return SArr(va._shape[k:], va.kind, lambda *i: f(*((ZERO,) * k + i)))


def _assign_shape(dst, va):
    src = va._shape
    if len(src) > len(dst):
        extra = src[: len(src) - len(dst)]
        if any(d is not ONE for d in extra):
            raise ValueError("could not broadcast input array")
    off = len(dst) - len(src)
    for k, d in enumerate(src):
        t = dst[off + k]
        if d is t or d is ONE:
            continue
        if ENG.known(eq(d, t)):
            continue
        if not ENG.branch(eq(d, t)):
            raise ValueError("could not broadcast input array from shape")
    return dst


def _adv_set(a, parts, v):
    """A[adv...] = v"""
    va = asarr(v)
    st = a.store
    old = st.snapshot()
    iv = a.inv
    if a.imap is not None and iv is None:
        raise Unsupported("write through a non invertible view")
    # single boolean mask covering leading axes
    masks = [k for k in parts if isinstance(k, SArr) and k.kind == "b"]
    kind = st.kind
    if len(masks) == 1 and sum(isinstance(k, SArr) for k in parts) == 1:
        mk_ = masks[0]
        j0 = [j for j, k in enumerate(parts) if k is mk_][0]
        if all(isinstance(k, slice) and k == slice(None) for k in parts if k is not mk_) and all(k is not None for k in parts):
            for d, n in zip(mk_._shape, a._shape[j0:]):
                if d is not n and not ENG.known(eq(d, n)):
                    if not ENG.branch(eq(d, n)):
                        raise IndexError("boolean index did not match")
            fm = mk_.fn()
            r = mk_.ndim
            cntarr = nonzero(mk_)[0]._shape[0] if r <= 2 else None
            tgt = a._shape[:j0] + (cntarr,) + a._shape[j0 + r:]
            _assign_shape(tgt, va)
            fv = va.fn()

            def g(*s):
                c, w = iv(*s) if iv else (TRUE, s)
                mi = w[j0: j0 + r]
                m = _tb(fm(*mi))
                if r == 1:
                    rank = lam("rank", [a._shape[j0], mi[0]], 1, lambda q: _tb(fm(q)), isint=True) if va.ndim > len(tgt) - j0 - 1 and va.ndim > 0 else ZERO
                else:
                    rank = lam("rank2", [a._shape[j0], a._shape[j0 + 1], mi[0], mi[1]], 2, lambda p, q: _tb(fm(p, q)), isint=True)
                vi = w[:j0] + (rank,) + w[j0 + r:]
                return ite(band(c, m), cast(fv(*bindex(va._shape, tgt, vi)), kind), old(*s))
            st.set_fn(g)
            return
    parts = _expand_adv(a, parts)
    if any(k is None for k in parts):
        raise Unsupported("newaxis in assignment")
    tr = [getattr(k, "tri", None) if isinstance(k, SArr) else None for k in parts]
    if len(parts) == 2 and None not in tr and tr[0][:2] == tr[1][:2] and (tr[0][2], tr[1][2]) == (0, 1):
        kind_, n_ = tr[0][:2]
        for d in a._shape:
            if d is not n_ and not ENG.known(eq(d, n_)):
                raise Unsupported("triangle of another size")
        tgt = (n_,) if kind_ == "diag" else (tm.tri(n_),)
        _assign_shape(tgt, va)
        fv = va.fn()
        if kind_ == "diag":
            def gd_(*s):
                c, w = iv(*s) if iv else (TRUE, s)
                return ite(band(c, eq(w[0], w[1])), cast(fv(*bindex(va._shape, tgt, (w[0],))), kind), old(*s))
            st.set_fn(gd_)
            return

        def gt_(*s):
            c, w = iv(*s) if iv else (TRUE, s)
            m = le(w[0], w[1]) if kind_ == "triu" else le(w[1], w[0])
            return ite(band(c, m), cast(fv(*bindex(va._shape, tgt, (app(kind_ + "_pos", n_, w[0], w[1], isint=True),))), kind), old(*s))
        st.set_fn(gt_)
        return
    # orthogonal or single integer index arrays
    specs = []
    advs = []
    for ax, k in enumerate(parts):
        n = a._shape[ax]
        if isinstance(k, SArr):
            check_idx_array(k, n)
            advs.append((ax, k))
        elif isinstance(k, slice):
            s_, l_, st_ = (ZERO, n, 1) if k == slice(None) else norm_slice(k, n)
            if st_ != 1:
                raise Unsupported("strided slice with index array in assignment")
            specs.append((ax, "s", s_, l_))
        else:
            specs.append((ax, "i", norm_index(k, n)))
    ashape = bshape([k._shape for _, k in advs])
    # which output axis does each adv array vary along?
    varying = []
    for ax, k in advs:
        off = len(ashape) - k.ndim
        dims = [off + j for j, d in enumerate(k._shape) if d is not ONE]
        varying.append(dims)
    flatdims = [d for v_ in varying for d in v_]
    if len(set(flatdims)) != len(flatdims) or any(len(v_) > 1 for v_ in varying):
        if len(advs) == 2 and all(k.ndim == 1 for _, k in advs) and not specs:
            return _pair_set(a, advs, va, kind, iv, old)
        if len(advs) == 1 and advs[0][1].ndim == 2:
            raise Unsupported("2d index array assignment")
        raise Unsupported("coupled index arrays in assignment")
    slices = [s for s in specs if s[1] == "s"]
    advpos = [ax for ax, _ in advs]
    contiguous = advpos == list(range(advpos[0], advpos[0] + len(advpos)))
    # target shape/order
    order = []
    placed = False
    if not contiguous:
        order.append("A")
        placed = True
    for ax in range(a.ndim):
        if ax in advpos:
            if not placed:
                order.append("A")
                placed = True
        else:
            s = [x for x in specs if x[0] == ax][0]
            if s[1] == "s":
                order.append(s)
    tgt = []
    for o in order:
        if o == "A":
            tgt += list(ashape)
        else:
            tgt.append(o[3])
    _assign_shape(tuple(tgt), va)
    fv = va.fn()
    afn = [(ax, k.fn(), k) for ax, k in advs]

    def g(*s):
        c, w = iv(*s) if iv else (TRUE, s)
        conds = [c]
        aidx = [ZERO] * len(ashape)
        for (ax, f, k), dims in zip(afn, varying):
            if not dims:
                conds.append(eq(w[ax], f(*([ZERO] * k.ndim))))
                continue
            n = ashape[dims[0]]
            x = w[ax]
            ff = lambda q, f=f, k=k, dims=dims: f(*[q if (len(ashape) - k.ndim + j) == dims[0] else ZERO for j in range(k.ndim)])
            cc, pos = inv_index(n, ff, x)
            conds.append(cc)
            aidx[dims[0]] = pos
        vi = []
        for o in order:
            if o == "A":
                vi += aidx
            else:
                d = sub(w[o[0]], o[2])
                conds += [le(ZERO, d), lt(d, o[3])]
                vi.append(d)
        for sp in specs:
            if sp[1] == "i":
                conds.append(eq(w[sp[0]], sp[2]))
        return ite(band(*conds), cast(fv(*bindex(va._shape, tuple(tgt), tuple(vi))), kind), old(*s))
    st.set_fn(g)


def inv_index(n, f, x):
    """(exists k<n: f(k)==x, the last such k)"""
    v = fresh("k")
    e = f(v)
    if e.op == "lam" and e.val[0] == "sel" and e.args[1] is v:
        m = lam_body(e, x)
        rank = solve._relam(e, [e.args[0], x], "rank", True)
        return band(le(ZERO, x), lt(x, e.args[0]), m), rank
    if e.op == "lam" and e.val[0] in ("perm", "sperm") and e.args[1] is v:
        return band(le(ZERO, x), lt(x, e.args[0])), solve._relam(e, [e.args[0], x], "invperm" if e.val[0] == "perm" else "sinvperm", True)
    s = tm._solve_eq(sub(e, x), v)
    if s is not None:
        return band(le(ZERO, s), lt(s, n)), s
    ex = tm.quant_from("exists", [v], band(le(ZERO, v), lt(v, n), eq(e, x)))
    w = fresh("k")
    last = lam_from("last", [n], [w], eq(f(w), x), "N", True)
    return ex, last


def _pair_set(a, advs, va, kind, iv, old):
    (ax0, k0), (ax1, k1) = sorted(advs, key=lambda t: t[0])
    n = bshape([k0._shape, k1._shape])[0]
    f0, f1 = k0.fn(), k1.fn()
    fv = va.fn()
    _assign_shape((n,), va)

    def g(*s):
        c, w = iv(*s) if iv else (TRUE, s)
        v = fresh("k")
        i0 = lambda q: f0(*bindex(k0._shape, (n,), (q,)))
        i1 = lambda q: f1(*bindex(k1._shape, (n,), (q,)))
        cond = lambda q: band(eq(i0(q), w[0]), eq(i1(q), w[1]))
        ex = tm.quant_from("exists", [v], band(le(ZERO, v), lt(v, n), cond(v)))
        if va.ndim == 0:
            val = fv()
        else:
            u = fresh("k")
            last = lam_from("last", [n], [u], cond(u), "N", True)
            val = fv(*bindex(va._shape, (n,), (last,)))
        return ite(band(c, ex), cast(val, kind), old(*s))
    a.store.set_fn(g)


# =============================================================== ranges and lists
class SymRange:
    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = start, n, step

    def elem(self, i):
        return mk(add(self.start, scale(i, self.step)))

    def as_array(self):
        return SArr((self.n,), "i", lambda i: add(self.start, scale(i, self.step)))

    def vlen(self):
        return mk(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of range")
        return self.elem(norm_index(k, self.n))

    def __iter__(self):
        if self.n.op == "num":
            return iter([self.elem(num(i)) for i in range(_pyint(self.n.val))])
        raise Unsupported("iteration over symbolic range through C")


class VList(list):
    """python list; symbolic mode: length term and element function"""

    def __init__(self, it=(), sym=None):
        if isinstance(it, VList) and it.sym is not None:
            super().__init__()
            self.sym = it.sym
        else:
            super().__init__(it)
            self.sym = sym
        self.uid = next(Store._c)

    @staticmethod
    def symbolic(n, f):
        r = VList()
        n = lift(n)
        if n.op == "num":
            list.extend(r, [f(num(i)) for i in range(_pyint(n.val))])
            return r
        r.sym = (n, f)
        return r

    def __hash__(self):
        return self.uid

    def _touch(self):
        ENG.touch(("list", self), lambda: (list(list.__iter__(self)), self.sym), self._restore)

    def _restore(self, s):
        if s is None:
            return (list(list.__iter__(self)), self.sym)
        list.clear(self)
        list.extend(self, s[0])
        self.sym = s[1]

    def vlen(self):
        return list.__len__(self) if self.sym is None else mk(self.sym[0])

    def elem(self, t):
        if self.sym is None:
            if t.op == "num":
                return list.__getitem__(self, _pyint(t.val))
            r = list.__getitem__(self, list.__len__(self) - 1)
            for j in range(list.__len__(self) - 2, -1, -1):
                r = vite(eq(t, num(j)), list.__getitem__(self, j), r)
            return r
        return self.sym[1](t)

    def to_sym(self):
        if self.sym is None:
            items = list(list.__iter__(self))
            n = num(len(items))
            return (n, lambda t: VList(items).elem(t))
        return self.sym

    def as_array(self):
        n, f = self.to_sym()
        v = fresh("p")
        e = f(v)
        if isinstance(e, SArr):
            fn = lambda i, *r: as_sarr(f(i)).at(*r)
            for d in e._shape:
                if v in d.fv:
                    raise Unsupported("ragged list of arrays")
            return SArr((n,) + e._shape, e.kind, fn)
        if isinstance(e, (tuple, VList)):
            a = asarr(e)
            if any(v in d.fv for d in a._shape):
                raise Unsupported("ragged list of lists")
            return SArr((n,) + tuple(a._shape), a.kind, lambda i, *r: asarr(f(i)).at(*r))
        t = lift(e)
        return SArr((n,), kind_of(t), lambda i: lift(f(i)))

    def append(self, x):
        self._touch()
        if self.sym is None:
            list.append(self, x)
        else:
            n, f = self.sym
            self.sym = (add(n, ONE), _ext(n, f, x))

    def extend(self, o):
        self._touch()
        if self.sym is None and not (isinstance(o, VList) and o.sym is not None) and not isinstance(o, (SArr, SymRange)):
            list.extend(self, o)
            return
        n, f = self.to_sym()
        o = o if isinstance(o, VList) else VList.symbolic(o.vlen(), lambda i, o=o: o[mk(i)])
        m, g = o.to_sym()
        self.sym = (add(n, m), _cat(n, f, g))
        list.clear(self)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = VList(self)
        r.extend(o)
        return r

    def __getitem__(self, k):
        if self.sym is None:
            if isinstance(k, SV):
                n = num(list.__len__(self))
                return self.elem(norm_index(k, n))
            if isinstance(k, slice):
                if not any(isinstance(x, SV) for x in (k.start, k.stop, k.step)):
                    return VList(list.__getitem__(self, k))
            else:
                return list.__getitem__(self, k)
        n, f = self.to_sym()
        if isinstance(k, slice):
            st, ln, step = norm_slice(k, n)
            return VList.symbolic(ln, lambda i: f(add(st, scale(i, step))))
        return f(norm_index(k, n))

    def __setitem__(self, k, v):
        self._touch()
        if self.sym is None and not isinstance(k, SV):
            list.__setitem__(self, k, v)
            return
        n, f = self.to_sym()
        i = norm_index(k, n)
        self.sym = (n, lambda t: vite(eq(t, i), v, f(t)))
        list.clear(self)

    def __len__(self):
        if self.sym is None:
            return list.__len__(self)
        raise Unsupported("len of symbolic list through C")

    def __iter__(self):
        if self.sym is None:
            return list.__iter__(self)
        raise Unsupported("iteration of symbolic list through C")

    def __bool__(self):
        if self.sym is None:
            return list.__len__(self) > 0
        return ENG.branch(ge(self.sym[0], ONE))

    def __contains__(self, x):
        return _pybool(self.contains(x))

    def contains(self, x):
        if self.sym is None:
            r = FALSE
            for y in list.__iter__(self):
                e = y == x
                if e is True:
                    return True
                r = bor(r, lift(e))
            return mk(r)
        n, f = self.sym
        return mk(tm.exists_rng(n, lambda i: lift(f(i) == x)))

    def __eq__(self, o):
        if self.sym is None and not (isinstance(o, VList) and o.sym is not None):
            return list.__eq__(self, o)
        raise Unsupported("comparison of symbolic lists")

    def copy(self):
        return VList(self)

    def index(self, x):
        n, f = self.to_sym()
        fi = lam("first", [n], 1, lambda i: lift(f(i) == x), isint=True)
        ex = tm.exists_rng(n, lambda i: lift(f(i) == x))
        if not ENG.branch(ex):
            raise ValueError("not in list")
        return mk(fi)

    def insert(self, i, x):
        self._touch()
        if self.sym is not None:
            raise Unsupported("insert in symbolic list")
        list.insert(self, i, x)

    def pop(self, *a):
        self._touch()
        if self.sym is not None:
            raise Unsupported("pop from symbolic list")
        return list.pop(self, *a)

    def sort(self, *a, **k):
        if self.sym is not None:
            raise Unsupported("sort symbolic list")
        self._touch()
        list.sort(self, *a, **k)

    def reverse(self):
        if self.sym is not None:
            raise Unsupported("reverse symbolic list")
        self._touch()
        list.reverse(self)


def as_sarr(v):
    return v if isinstance(v, SArr) else asarr(v)


def _ext(n, f, x):
    def g(t):
        if eq(t, n) is TRUE:
            return x
        if lt(t, n) is TRUE or ENG.known(lt(t, n)):
            return f(t)
        return vite(eq(t, n), x, f(t))
    return g


def _cat(n, f, g):
    if n.op == "num" and n.val == 0:
        return g

    def h(t):
        c = lt(t, n)
        if c is TRUE or ENG.known(c):
            return f(t)
        if c is FALSE or ENG.known(bnot(c)):
            return g(sub(t, n))
        return vite(c, f(t), g(sub(t, n)))
    return h


def vite(c, a, b):
    """value-level if-then-else"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, SArr) or isinstance(b, SArr):
        a, b = as_sarr(a), as_sarr(b)
        if a.ndim != b.ndim:
            raise Unsupported("merge of arrays of different rank")
        shp = [ite(c, x, y) for x, y in zip(a._shape, b._shape)]
        fa, fb = a.fn(), b.fn()
        k = promote(a.kind, b.kind)
        return SArr(shp, k, lambda *i: ite(c, cast(fa(*i), k), cast(fb(*i), k)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, VList) and isinstance(b, VList):
        na, fa = a.to_sym()
        nb, fb = b.to_sym()
        if na is nb:
            return VList.symbolic(na, lambda t: vite(c, fa(t), fb(t)))
        return VList.symbolic(ite(c, na, nb), lambda t: vite(c, fa(t), fb(t)))
    if isinstance(a, Rope) or isinstance(b, Rope):
        if isinstance(a, Rope) and isinstance(b, Rope) and a.same(b):
            return a
        raise Unsupported("merge of strings")
    try:
        x, y = lift(a), lift(b)
    except Unsupported:
        if type(a) is type(b) and hasattr(a, "__vc_ite__"):
            return a.__vc_ite__(c, b)
        raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))
    if x.sort != y.sort:
        if x.sort == "S" or y.sort == "S":
            raise Unsupported("merge of different sorts")
        x, y = cast(x, "f"), cast(y, "f")
    return mk(ite(c, x, y))


def vsubst(v, mp):
    """substitute variables inside a value"""
    if isinstance(v, SV):
        return mk(subst(v.t, mp))
    if isinstance(v, T):
        return subst(v, mp)
    if isinstance(v, SArr):
        f = v.fn()
        # protect index arguments from capture: indices are instantiated after substitution
        def g(*i):
            vs = [fresh("vs") for _ in i]
            body = subst(f(*vs), mp)
            return subst(body, dict(zip(vs, i)))
        return SArr([subst(d, mp) for d in v._shape], v.kind, g, dname=v.store.dname)
    if isinstance(v, VList):
        if v.sym is None:
            return VList([vsubst(x, mp) for x in list.__iter__(v)])
        n, f = v.sym

        def g(t):
            q = fresh("vs")
            return vsubst(vsubst(f(q), mp), {q: t})
        return VList.symbolic(subst(n, mp), g)
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    if isinstance(v, list):
        return [vsubst(x, mp) for x in v]
    if isinstance(v, Rope):
        return Rope([vsubst(p, mp) if not isinstance(p, (_pystr, bytes)) else p for p in v.parts])
    if hasattr(v, "__vc_subst__"):
        return v.__vc_subst__(mp)
    return v


def vfree(v, vars_):
    """does the value mention any of the variables?"""
    if isinstance(v, SV):
        return _pybool(v.t.fv & vars_)
    if isinstance(v, SArr):
        if any(d.fv & vars_ for d in v._shape):
            return True
        vs = [fresh("vf") for _ in v._shape]
        return _pybool(v.at(*vs).fv & vars_)
    if isinstance(v, VList):
        if v.sym is None:
            return any(vfree(x, vars_) for x in list.__iter__(v))
        return _pybool(v.sym[0].fv & vars_) or vfree(v.sym[1](fresh("vf")), vars_)
    if isinstance(v, (tuple, list)):
        return any(vfree(x, vars_) for x in v)
    if isinstance(v, Rope):
        return any(vfree(p, vars_) for p in v.parts if not isinstance(p, (_pystr, bytes)))
    return False


# =============================================================== ropes (structured strings)
class Fmt:
    """formatted number inside a rope: %d of an int term or a %f/%s of a real term"""

    def __init__(self, spec, t):
        self.spec, self.t = spec, t

    def __vc_subst__(self, mp):
        return Fmt(self.spec, subst(self.t, mp))

    def same(self, o):
        return isinstance(o, Fmt) and self.spec == o.spec and self.t is o.t

    def __repr__(self):
        return "{%s:%s}" % (self.spec, show(self.t))


class Rope:
    """concatenation of literal strings, string atoms (SV of sort S: non-empty tokens without
    white space, ':' '[' ']' ',') and formatted numbers"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Rope):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, _pystr):
                    if q == "":
                        continue
                    if out and isinstance(out[-1], _pystr):
                        out[-1] = out[-1] + q
                        continue
                elif isinstance(q, (_pyint, _pyfloat)) or (isinstance(q, SV) and q.t.sort == "N"):
                    q = Fmt("%d" if lift(q).isint else "%f", lift(q))
                out.append(q)
        self.parts = out

    def simplify(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and not isinstance(self.parts[0], Fmt):
            return self.parts[0]
        return self

    def __repr__(self):
        return "Rope%r" % (self.parts,)

    def same(self, o):
        o = o if isinstance(o, Rope) else Rope([o])
        if len(self.parts) != len(o.parts):
            return False
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, SV) and isinstance(b, SV):
                if a.t is not b.t:
                    return False
            elif isinstance(a, Fmt):
                if not a.same(b):
                    return False
            elif isinstance(a, _pystr) and isinstance(b, _pystr):
                if a != b:
                    return False
            else:
                return False
        return True

    def term(self):
        if not self.parts:
            return strc("")
        ts = []
        for p in self.parts:
            if isinstance(p, _pystr):
                ts.append(strc(p))
            elif isinstance(p, Fmt):
                ts.append(app("fmt" + p.spec, p.t, sort="S"))
            else:
                ts.append(lift(p))
        if len(ts) == 1:
            return ts[0]
        return app("concat%d" % len(ts), *ts, sort="S")

    def __add__(self, o):
        if hasattr(o, "chunks"):
            return NotImplemented
        return Rope([self, o]).simplify()

    def __radd__(self, o):
        return Rope([o, self]).simplify()

    def splitlines(self, keepends=False):
        import symio
        return VList([l if keepends else symio._chomp(l) for l in symio.split_lines(self)])

    def __eq__(self, o):
        if isinstance(o, (_pystr, SV, Rope)):
            if self.same(o):
                return True
            return mk(eq(self.term(), lift(o)))
        return False

    def __ne__(self, o):
        r = self == o
        return mk(bnot(lift(r)))

    def __hash__(self):
        return self.term().uid

    def rstrip(self, chars=None):
        ps = list(self.parts)
        while ps and isinstance(ps[-1], _pystr):
            s = ps[-1].rstrip(chars)
            if s == ps[-1]:
                break
            if s:
                ps[-1] = s
                break
            ps.pop()
        return Rope(ps).simplify()

    def isdecimal(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Fmt) and self.parts[0].spec == "%d":
            return mk(le(ZERO, self.parts[0].t))
        if any(isinstance(p, _pystr) and not p.isdecimal() for p in self.parts):
            return False
        raise Unsupported("isdecimal of a composed string")

    def lstrip(self, chars=None):
        ps = list(self.parts)
        while ps and isinstance(ps[0], _pystr):
            s = ps[0].lstrip(chars)
            if s == ps[0]:
                break
            if s:
                ps[0] = s
                break
            ps.pop(0)
        return Rope(ps).simplify()

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars) if isinstance(r, Rope) else (r.lstrip(chars) if isinstance(r, _pystr) else r)

    def split(self, sep=None, maxsplit=-1):
        if sep is not None and sep not in SAFE_SEPS:
            for p in self.parts:
                if not isinstance(p, _pystr):
                    raise Unsupported("split on %r" % sep)
        cur, out, n = [], [], 0
        any_ = False
        for idx, p in enumerate(self.parts):
            if isinstance(p, _pystr):
                if sep is None:
                    import re
                    pieces = re.split(r"(\s+)", p)
                else:
                    pieces = []
                    for j, s in enumerate(p.split(sep)):
                        if j:
                            pieces.append(None)
                        pieces.append(s)
                for s in pieces:
                    issep = (s is None) if sep is not None else (s != "" and s.isspace())
                    if issep and not (maxsplit >= 0 and n >= maxsplit):
                        if sep is not None or cur:
                            out.append(Rope(cur).simplify())
                            cur = []
                            n += 1
                    elif s:
                        cur.append(s)
                    elif s is None:
                        cur.append(sep)
            else:
                cur.append(p)
        if sep is not None or cur:
            r = Rope(cur)
            out.append((r.rstrip() if sep is None else r.simplify()) if r.parts else "")
        return VList(out)

    def startswith(self, p):
        if not self.parts:
            return "".startswith(p)
        f = self.parts[0]
        if isinstance(f, _pystr):
            if f.startswith(p):
                return True
            if isinstance(p, _pystr) and len(f) < len(p) and len(self.parts) > 1:
                raise Unsupported("startswith")
            return False
        raise Unsupported("startswith on atom")

    def endswith(self, p):
        f = self.parts[-1]
        if isinstance(f, _pystr) and len(f) >= len(p):
            return f.endswith(p)
        raise Unsupported("endswith on atom")

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            ps = list(self.parts)
            if isinstance(k.start, _pyint) and k.start > 0:
                if not (ps and isinstance(ps[0], _pystr) and len(ps[0]) >= k.start):
                    raise Unsupported("slice of string")
                ps[0] = ps[0][k.start:]
            elif k.start not in (None, 0):
                raise Unsupported("slice of string")
            if isinstance(k.stop, _pyint) and k.stop < 0:
                if not (ps and isinstance(ps[-1], _pystr) and len(ps[-1]) >= -k.stop):
                    raise Unsupported("slice of string")
                ps[-1] = ps[-1][: k.stop]
            elif k.stop is not None:
                raise Unsupported("slice of string")
            return Rope(ps).simplify()
        if k == 0 and self.parts and isinstance(self.parts[0], _pystr):
            return self.parts[0][0]
        if k == -1 and self.parts and isinstance(self.parts[-1], _pystr):
            return self.parts[-1][-1]
        raise Unsupported("index of string")

    def __bool__(self):
        return _pybool(self.parts)

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def to_int(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Fmt) and self.parts[0].t.isint:
            return mk(self.parts[0].t)
        if len(self.parts) == 2 and self.parts[0] == "-" and isinstance(self.parts[1], Fmt):
            return mk(neg(self.parts[1].t))
        raise ValueError("invalid literal for int()") if len(self.parts) > 1 else Unsupported("int of string atom")

    def to_float(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Fmt):
            return mk(self.parts[0].t)
        raise Unsupported("float of string atom")

    def replace(self, a, b):
        if a in SAFE_SEPS:
            return Rope([p.replace(a, b) if isinstance(p, _pystr) else p for p in self.parts]).simplify()
        raise Unsupported("replace")

    def find(self, s):
        raise Unsupported("find")


SAFE_SEPS = {":", " ", "\n", "\t", ",", "[", "]", "#"}
