"""Mechanical extraction: every run re-reads /repo's source, rewrites loops, comprehensions,
subscripts, attribute stores, % formatting and the builtins that CPython evaluates in C
(len, range, int, ...) into calls of the VC runtime, and executes the result.
Nothing is dropped from the functions: statements keep their order and their operators."""
import ast
import os
import sys
import types
import importlib
import builtins as _bi
from sym import *
import sym
from terms import *
import terms as tm
import shim_np
import solve

REPO = os.environ.get("VC_REPO", "/repo")


# =============================================================== runtime
class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class _Break:
    pass


BREAK, RETURN = object(), object()


class SymIter:
    """symbolic iterable: length term and element function (index term -> value)"""

    def __init__(self, n, f):
        self.n, self.f = n, f


def as_iter(it):
    """-> SymIter or a concrete python iterable"""
    if isinstance(it, SymIter):
        return it if it.n.op != "num" else [it.f(num(i)) for i in range(int(it.n.val))]
    if isinstance(it, SymRange):
        return it if it.n.op == "num" else SymIter(it.n, lambda i: it.elem(i))
    if isinstance(it, SArr):
        if it.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        d = it._shape[0]
        if d.op == "num":
            return [it[k] for k in range(int(d.val))]

        def f(i):
            return sym._basic_view(it, [SV(i)] + [slice(None)] * (it.ndim - 1)) if it.ndim > 1 else mk(it.at(i))
        return SymIter(d, f)
    if isinstance(it, VList):
        if it.sym is None:
            return list(list.__iter__(it))
        n, f = it.sym
        return SymIter(n, f)
    if isinstance(it, VDict):
        return as_iter(it.keys())
    if hasattr(it, "__vc_iter__"):
        return as_iter(it.__vc_iter__())
    if isinstance(it, SV):
        raise Unsupported("iteration over a scalar")
    return it


def _same_term(a, b):
    return a is b or a == b or ENG.known(eq(a, b))


def _same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not isinstance(a, VList) and not isinstance(b, VList):
        return len(a) == len(b) and all(_same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim or a.kind != b.kind or not all(_same_term(x, y) for x, y in zip(a._shape, b._shape)):
            return False
        vs = [fresh("q") for _ in a._shape]
        return _same_term(a.at(*vs), b.at(*vs))
    if isinstance(a, (SV, bool, int, float)) and isinstance(b, (SV, bool, int, float)):
        return _same_term(lift(a), lift(b))
    return False


class Runtime:
    NP = shim_np.NP

    # ---------------------------------------------------------- loops
    def is_sym(self, it):
        return isinstance(it, SymIter)

    def iter(self, it):
        r = as_iter(it)
        return r

    def unpack(self, v, n):
        if isinstance(v, SArr):
            return [v[i] for i in range(n)]
        return v

    def symloop(self, it, body, names, init, line):
        """-> (None | BREAK | (RETURN, value), variables...)"""
        r = self.symloop0(it, body, names, init, line)
        if len(r) == len(names) + 1:
            return (r[0][1],) + tuple(r[1:])
        return (None,) + tuple(r)

    def symloop0(self, it, body, names, init, line):
        try:
            return self._symloop(it, body, names, init, line)
        except Unsupported as e:
            msg = str(e)
            if not any(x in msg for x in ("use of loop-carried", "no closed form", "Undef", "does not stabilise")) or "peeled" in msg:
                raise
            why = msg
        # execute the first iteration as it is, then summarise the rest (variables initialised in the first iteration)
        n = it.n
        if not ENG.branch(ge(n, ONE)):
            return init
        undo = self._warm(it, body, init)
        if undo is not None:
            try:
                return self._symloop(it, body, names, init, line)
            except Unsupported as e:
                undo()
                why = str(e)
        res = body(it.f(ZERO), *init)
        if res[0] is not None:
            raise Unsupported("line %d: break/return inside a symbolic loop (peeled)" % line)
        try:
            return self._symloop(SymIter(sub(n, ONE), lambda k: it.f(add(k, ONE))), body, names, tuple(res[1:]), line)
        except Unsupported as e:
            raise Unsupported("%s (peeled: %s)" % (why, e))

    def _warm(self, it, body, init):
        """attributes that are None and get a value in the first iteration (caches): start with them filled when
        the first iteration does the same with the filled cache as with the empty one"""
        def first():
            return body(it.f(ZERO), *init)

        def run():
            r = ENG.explore(first)
            return r[0] if len(r) == 1 and r[0][2] == "ret" else None
        a = run()
        if a is None:
            return None
        caches = {}
        for key, (st, restore, before) in a[4].items():
            if key[0] == "attr":
                cur = restore(None)
                if cur[0] is None and st[0] is not None:
                    caches[key] = (restore, st, cur)
        if not caches:
            return None

        def undo():
            for restore, st, cur in caches.values():
                restore(cur)
        for key, (restore, st, cur) in caches.items():
            ENG.touch(key, lambda r=restore: r(None), restore)
            restore(st)
        b = run()
        ok = b is not None and tuple(a[0]) == tuple(b[0]) and all(_same_value(x, y) for x, y in zip(a[3], b[3])) and set(b[4]) | set(caches) >= set(a[4]) and set(b[4]) <= set(a[4])
        if ok:
            for key, (st, restore, before) in a[4].items():
                if key in caches:
                    ok = ok and (key not in b[4] or _same_value(b[4][key][0][0], st[0]))
                elif key[0] == "store":
                    sh = key[1].shape
                    vs = [fresh("q") for _ in sh]
                    ok = ok and _same_term(lift(st[0](*vs)), lift(b[4][key][0][0](*vs)))
                elif key[0] == "attr":
                    ok = ok and _same_value(st[0], b[4][key][0][0])
                else:
                    ok = False
        if not ok:
            undo()
            return None
        return undo

    def _symloop(self, it, body, names, init, line):
        try:
            return self._symloop1(it, body, names, init, line)
        except Unsupported:
            # again, with the counters of the loop (x += step) known from the first iteration and checked at the end
            seen = []
            try:
                return self._symloop1(it, body, names, init, line, seen)
            except Unsupported:
                if seen:
                    raise
            raise

    def _symloop1(self, it, body, names, init, line, counters=None):
        """summarise a loop over a symbolic range: body(i_value, carried...) -> (status, carried...)"""
        n = it.n
        if not ENG.known(ge(n, ONE)):
            # zero iterations or at least one
            if ENG.known(eq(n, ZERO)):
                return init
        i = fresh("it")
        rng = [le(ZERO, i), lt(i, n)]

        def run(carried):
            def fn():
                for c in rng:
                    ENG.assume(c)
                el = it.f(i)
                return body(el, *carried)
            return ENG.explore(fn)

        # ---- pass 0: discover what changes
        touched = {}          # heap key -> restore
        changed = set()
        holders = {}
        carried = list(init)
        place = {}            # name index -> placeholder value
        heap_place = {}
        for rnd in range(6):
            # install placeholders
            saved = {}
            for key, restore in touched.items():
                saved[key] = restore(None)
            for key, restore in touched.items():
                restore(heap_place[key].state())
            try:
                res = run([place[j].value() if j in place else v for j, v in enumerate(carried)])
            finally:
                for key, restore in touched.items():
                    restore(saved[key])
            new = False
            if rnd == 0 and any(r[2] == "ret" and r[3][0] is not None for r in res):
                return self._searchloop(it, body, names, init, line, i, rng, res)
            for conds, facts, out, val, after in res:
                for key, (st, restore, before) in after.items():
                    if key not in touched:
                        cur = restore(None)
                        hp = heap_placeholder(key, cur)
                        touched[key] = restore
                        heap_place[key] = hp
                        new = True
                if out == "ret":
                    status, vals = val[0], val[1:]
                    if status is not None:
                        raise Unsupported("line %d: break/return inside a symbolic loop" % line)
                    for j, v in enumerate(vals):
                        if j in place:
                            continue
                        if init[j] is UNDEF:
                            continue
                        if v is init[j]:
                            continue
                        place[j] = var_placeholder(names[j], init[j], v)
                        if counters is not None and rnd == 0 and isinstance(place[j], ScalarPH):
                            c = CounterPH.guess(names[j], init[j], [r[3][1 + j] for r in res if r[2] == "ret"], i)
                            if c is not None:
                                counters.append(j)
                                place[j] = c
                        new = True
            if not new:
                break
        else:
            raise Unsupported("line %d: loop discovery does not stabilise" % line)
        # exceptional paths
        rets = [r for r in res if r[2] == "ret"]
        excs = [r for r in res if r[2] == "exc"]
        if not rets:
            if excs:
                if ENG.branch(ge(n, ONE)):
                    raise excs[0][3]
                return init
            raise PathEnd()
        # ---- merge the paths
        recs = {}
        unknown = {}
        for j, p in place.items():
            recs[("v", j)] = (p, self._merge(rets, lambda r: r[3][1 + j]))
        for key, p in heap_place.items():
            recs[("h", key)] = (p, p.merge([(r[0], r[4].get(key)) for r in rets]))
        temps = {}
        for j, v in enumerate(init):
            if v is UNDEF or j not in place:
                temps[j] = None
        # ---- solve the recurrences
        sol = {}
        order = list(recs)
        phvars = {}
        for k in order:
            for x in recs[k][0].symbols():
                phvars[x] = k
        pend = list(order)
        progress = True
        pmap = []   # list of substituters for solved placeholders (at iteration i)
        while pend and progress:
            progress = False
            for k in list(pend):
                p, upd = recs[k]
                u = p.subst_solved(upd, sol, recs, i)
                others = set(x for x in p.used_symbols(u)) & set(phvars) - set(p.symbols())
                if any(phvars[x] not in sol for x in others):
                    continue
                s = p.solve(u, i, n)
                if s is None:
                    continue
                sol[k] = s
                pend.remove(k)
                progress = True
        if pend:
            raise Unsupported("line %d: no closed form for loop-carried %s" % (line, ", ".join(str(recs[k][0].name) for k in pend)))

        def resolve(v, at):
            """replace placeholders in v (a value produced in iteration `at`) by their closed forms"""
            for k, s in sol.items():
                v = recs[k][0].apply(v, s, i)
            return vsubst(v, {i: at})
        # ---- exceptions of the body
        for conds, facts, out, exc, after in excs:
            c = band(*conds) if conds else TRUE
            for k, s in sol.items():
                c = recs[k][0].apply(c, s, i)
            ex = tm.quant_from("exists", [i], band(rng[0], rng[1], c)) if True else None
            if not (i in c.fv):
                ex = band(c, ge(n, ONE))
            if quick(ENG.facts + rng, bnot(c)):
                continue
            if ENG.branch(ex):
                raise exc
        # ---- write back
        final = list(init)
        last = sub(n, ONE)
        atleast1 = ENG.known(ge(n, ONE))
        for k, s in sol.items():
            p = recs[k][0]
            v = s(n)
            if k[0] == "v":
                final[k[1]] = v
            else:
                p.install(touched[k[1]], v)
        for j in range(len(init)):
            if ("v", j) in sol:
                continue
            if init[j] is UNDEF or True:
                if init[j] is not UNDEF:
                    continue
                vals = [r[3][1 + j] for r in rets]
                if any(v is UNDEF for v in vals):
                    continue
                try:
                    m = self._merge(rets, lambda r: r[3][1 + j])
                    final[j] = resolve(m, last)
                except Unsupported:
                    final[j] = UNDEF
        return tuple(final)

    def _searchloop(self, it, body, names, init, line, i, rng, res):
        """a loop left by break/return whose other iterations leave the state as it was: nothing happens before the
        first iteration that leaves it"""
        n = it.n
        leave, stay, temps = [], [], set()
        for r in res:
            conds, facts, out, val, after = r
            if out == "ret" and val[0] is None:
                if after:
                    raise Unsupported("line %d: break/return inside a symbolic loop that changes the state" % line)
                for j, v in enumerate(val[1:]):
                    if init[j] is not UNDEF and v is not init[j]:
                        temps.add(j)
                stay.append(r)
            else:
                leave.append(band(*conds) if conds else TRUE)
        if temps:
            # loop targets and temporaries: set again before every use
            init2 = tuple(UNDEF if j in temps else v for j, v in enumerate(init))
            if not ENG.branch(ge(n, ONE)):
                return init
            return self._symloop(it, body, names, init2, line)
        c = bor(*leave) if len(leave) > 1 else leave[0]
        ex = tm.quant_from("exists", [i], band(rng[0], rng[1], c)) if i in c.fv else band(c, ge(n, ONE))
        if ENG.branch(ex):
            i0 = tm.lam_from("first", [n], [i], c, "N", True)
            ENG.assume(le(ZERO, i0))
            ENG.assume(lt(i0, n))
            ENG.assume(tm.subst(c, {i: i0}))
            ENG.assume(tm.quant_from("forall", [i], implies(band(rng[0], lt(i, i0)), bnot(c))))
            out = body(it.f(i0), *init)
            if out[0] is None:
                raise PathEnd()
            return (("_vc_status", out[0]),) + tuple(out[1:])
        if not stay:
            return init
        ENG.assume(tm.quant_from("forall", [i], implies(band(*rng), bnot(c))))
        if not ENG.branch(ge(n, ONE)):
            return init
        out = body(it.f(sub(n, ONE)), *init)
        if out[0] is not None:
            raise PathEnd()
        return tuple(out[1:])

    def _merge(self, rets, get):
        v = get(rets[-1])
        for r in reversed(rets[:-1]):
            v = vite(band(*r[0]) if r[0] else TRUE, get(r), v)
        return v

    # ---------------------------------------------------------- comprehensions
    def listcomp(self, it, f, cond=None):
        it = as_iter(it)
        if not isinstance(it, SymIter):
            out = VList()
            for x in it:
                if cond is None or cond(x):
                    list.append(out, f(x))
            return out
        n = it.n
        v = fresh("lc")
        rng = [le(ZERO, v), lt(v, n)]

        def elemfn(g):
            def fn():
                for c in rng:
                    ENG.assume(c)
                return g(it.f(v))
            res = ENG.explore(fn)
            rets = [r for r in res if r[2] == "ret"]
            for r in res:
                if r[4]:
                    raise Unsupported("side effect in a comprehension")
                if r[2] == "exc":
                    c = band(*r[0]) if r[0] else TRUE
                    ex = tm.quant_from("exists", [v], band(rng[0], rng[1], c)) if v in c.fv else band(c, ge(n, ONE))
                    if ENG.branch(ex):
                        raise r[3]
            if not rets:
                return UNDEF
            return self._merge(rets, lambda r: r[3])
        e = elemfn(f)
        if e is UNDEF:
            if not ENG.known(eq(n, ZERO)) and not ENG.branch(eq(n, ZERO)):
                raise PathEnd()
            return VList()

        def at(t):
            return vsubst(e, {v: t})
        if cond is None:
            return VList.symbolic(n, at)
        c = elemfn(lambda x: mk(boolt(wrap0(cond(x)))))
        ct = boolt(c)
        cnt = sum_over([n], [v], ind(ct))
        return VList.symbolic(cnt, lambda k: at(tm.lam_from("sel", [n, k], [v], ct, "N", True)))

    def dictcomp(self, it, f, cond=None):
        it = as_iter(it)
        if isinstance(it, SymIter):
            lst = self.listcomp(it, f, cond)
            return VDict.from_pairs(lst)
        d = VDict()
        for x in it:
            if cond is None or cond(x):
                k, v = f(x)
                d[k] = v
        return d

    def flatcomp(self, lists):
        out = VList()
        its = as_iter(lists)
        if isinstance(its, SymIter):
            raise Unsupported("nested comprehension over symbolic range")
        for l in its:
            out.extend(l)
        return out

    # ---------------------------------------------------------- operations
    def getitem(self, o, k):
        if isinstance(o, (list, tuple)) and not isinstance(o, VList):
            if isinstance(k, SV) or (isinstance(k, slice) and any(isinstance(x, SV) for x in (k.start, k.stop))):
                return VList(o)[k]
            if isinstance(k, SArr) and k.ndim == 0:
                return VList(o)[mk(k.at())]
        if isinstance(o, dict) and not isinstance(o, VDict):
            if isinstance(k, (SV, Rope)):
                d = VDict()
                for kk, vv in o.items():
                    d[kk] = vv
                return d[k]
        if isinstance(o, str) and isinstance(k, (SV,)):
            raise Unsupported("symbolic index of a string")
        if isinstance(o, str) and isinstance(k, slice) and any(isinstance(x, SV) for x in (k.start, k.stop)):
            raise Unsupported("symbolic slice of a string")
        return o[k]

    def setitem(self, o, k, v):
        o[k] = v

    def delitem(self, o, k):
        if isinstance(o, (SArr,)):
            raise Unsupported("del item")
        del o[k]

    def setattr(self, o, name, v):
        if id(o) not in ENG.attr_uid:
            ENG.attr_uid[id(o)] = (o, -1)
        if ENG.journal and not isinstance(o, types.ModuleType):
            def restore(s, o=o, name=name):
                if s is None:
                    return (o.__dict__.get(name, UNDEF),)
                if s[0] is UNDEF:
                    o.__dict__.pop(name, None)
                else:
                    o.__dict__[name] = s[0]
            ENG.touch(("attr", id(o), name), lambda: (o.__dict__.get(name, UNDEF),), restore)
        setattr(o, name, v)

    def iadd(self, cur, op, v):
        """augmented assignment on a stored location"""
        import operator
        f = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
             "FloorDiv": operator.ifloordiv, "Mod": operator.imod, "Pow": operator.ipow, "BitOr": operator.ior,
             "BitAnd": operator.iand, "BitXor": operator.ixor}[op]
        if op == "Mod" and isinstance(cur, (str, Rope)):
            return self.mod(cur, v)
        return f(cur, v)

    def mod(self, a, b):
        if isinstance(a, (str,)) and not isinstance(a, SV):
            return fmt_percent(a, b)
        return a % b

    def contains(self, c, x):
        if isinstance(c, VList):
            return c.contains(x)
        if isinstance(c, SArr):
            return mk(tm.exists_rng(c._shape[0], lambda i: eq(c.at(i), lift(x)))) if c.ndim == 1 else Unsupported.__call__("in")
        if isinstance(c, VDict):
            return c.contains(x)
        if isinstance(c, VSet):
            return c.contains(x)
        if isinstance(c, SymRange):
            return mk(tm.exists_rng(c.n, lambda i: eq(lift(c.elem(i)), lift(x))))
        if isinstance(x, (SV, Rope)) and isinstance(c, (list, tuple, set, frozenset, dict)):
            r = FALSE
            for y in c:
                e = (x == y)
                r = bor(r, lift(e))
            return mk(r)
        if isinstance(c, (SV, Rope)):
            if isinstance(c, Rope) and isinstance(x, str) and x in sym.SAFE_SEPS:
                return any(isinstance(p, str) and x in p for p in c.parts)
            if isinstance(c, SV) and isinstance(x, str) and x in sym.SAFE_SEPS:
                return False
            raise Unsupported("substring test")
        return x in c

    def notb(self, v):
        if isinstance(v, SV) and v.t.sort == "B":
            return mk(bnot(v.t))
        return not v

    def unsupported(self, what):
        raise Unsupported(what)

    def list(self, items):
        return VList(items)

    def dict(self, items):
        d = VDict()
        for k, v in items:
            d[k] = v
        return d

    def set(self, items):
        return VSet(items)

    def call(self, f, *a, **k):
        return f(*a, **k)


RT = Runtime()


def fmt_percent(s, args):
    """'..%s..' % args with symbolic arguments"""
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    if not any(isinstance(a, (SV, Rope, SArr)) for a in args):
        return s % tuple(args)
    import re
    out = []
    pos = 0
    for m in re.finditer(r"%(%|[-+0 #]*\d*(?:\.\d+)?[sdifgeExXr])", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out.append("%")
            continue
        a = args.pop(0)
        if isinstance(a, SArr) and a.ndim == 0:
            a = mk(a.at())
        spec = "%" + m.group(1)
        if isinstance(a, (SV, Rope)):
            if isinstance(a, Rope):
                out.append(a)
            elif a.t.sort == "S":
                out.append(a)
            else:
                t = ind(a.t) if a.t.sort == "B" else a.t
                if spec in ("%d", "%i"):
                    t = ttrunc(t)
                    spec = "%d"
                elif spec == "%s" and t.isint:
                    spec = "%d"
                out.append(Fmt(spec, t))
        elif isinstance(a, SArr):
            raise Unsupported("formatting an array")
        else:
            out.append(spec % a)
    out.append(s[pos:])
    return Rope(out).simplify()


def vc_format(s, *args, **kw):
    """'..{}..'.format(...) and f-strings: by the same rules as %"""
    if not isinstance(s, str) or not any(isinstance(a, (SV, Rope, SArr)) for a in list(args) + list(kw.values())):
        return s.format(*args, **kw)
    import string
    out, vals, k = [], [], 0
    for lit, name, spec, conv in string.Formatter().parse(s):
        out.append(lit.replace("%", "%%"))
        if name is None:
            continue
        if name == "":
            v, k = args[k], k + 1
        elif name.isdigit():
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            raise Unsupported("format field %r" % name)
        if conv not in (None, "s"):
            raise Unsupported("format conversion")
        if not isinstance(v, (SV, Rope, SArr)):
            v, spec = format(v, spec), ""
        elif spec and not re_spec(spec):
            raise Unsupported("format specification %r" % spec)
        out.append("%" + (spec if spec and spec[-1] in "sdifgeExX" else spec + "s"))
        vals.append(v)
    return fmt_percent("".join(out), tuple(vals))


def re_spec(spec):
    import re
    return re.fullmatch(r"0?\d*(\.\d+)?[dfgeEs]?", spec)


# =============================================================== dictionaries and sets
class VDict:
    """insertion-ordered dictionary; symbolic mode: key membership and lookup functions"""

    def __init__(self, *a, **k):
        self.items_ = []      # concrete key/value pairs (keys pairwise distinct)
        self.sym = None       # (has(term)->bool term, get(term)->value, keys: (n, f) or None)
        self.uid = next(sym.Store._c)
        for x in a:
            if isinstance(x, VDict):
                self.items_, self.sym = list(x.items_), x.sym
            elif isinstance(x, dict):
                for kk, vv in x.items():
                    self[kk] = vv
            else:
                it = as_iter(x)
                if isinstance(it, SymIter):
                    d = VDict.from_pairs(VList.symbolic(it.n, it.f))
                    self.sym = d.sym
                else:
                    for kk, vv in it:
                        self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def __hash__(self):
        return self.uid

    @staticmethod
    def from_pairs(lst):
        if lst.sym is None:
            d = VDict()
            for k, v in list.__iter__(lst):
                d[k] = v
            return d
        n, f = lst.sym
        d = VDict()
        key = lambda i: lift(f(i)[0])
        d.sym = (lambda x: tm.exists_rng(n, lambda i: eq(key(i), x)),
                 lambda x: f(lam("last", [n], 1, lambda i: eq(key(i), x), isint=True))[1], (n, lambda i: f(i)[0]))
        return d

    def _touch(self):
        ENG.touch(("dict", self), lambda: (list(self.items_), self.sym), self._restore)

    def _restore(self, s):
        if s is None:
            return (list(self.items_), self.sym)
        self.items_, self.sym = list(s[0]), s[1]

    def contains(self, k):
        if self.sym is None:
            r = FALSE
            for kk, _ in self.items_:
                if type(kk) is type(k) and not is_sym(kk) and kk == k:
                    return True
                r = bor(r, keq(kk, k))
            return mk(r)
        r = self.sym[0](lift(k))
        for kk, _ in self.items_:
            r = bor(r, keq(kk, k))
        return mk(r)

    def __contains__(self, k):
        return bool(self.contains(k))

    def has_key(self, k):
        return self.contains(k)

    def __getitem__(self, k):
        if self.sym is None and not is_sym(k):
            for kk, v in self.items_:
                if not is_sym(kk) and kk == k:
                    return v
        if not ENG.branch(lift(self.contains(k))):
            raise KeyError(repr(k))
        return self._get(k)

    def _get(self, k):
        v = None
        first = True
        if self.sym is not None:
            v = self.sym[1](lift(k))
            first = False
        for kk, vv in self.items_:
            c = keq(kk, k)
            if c is FALSE:
                continue
            if c is TRUE:
                v, first = vv, False
                continue
            v = vv if first else vite(c, vv, v)
            first = False
        return v

    def get(self, k, default=None):
        c = lift(self.contains(k))
        if c is TRUE:
            return self._get(k)
        if c is FALSE:
            return default
        if default is None:
            return self._get(k) if ENG.branch(c) else None
        return vite(c, self._get(k), default)

    def __setitem__(self, k, v):
        self._touch()
        for j, (kk, _) in enumerate(self.items_):
            c = keq(kk, k)
            if c is TRUE:
                self.items_[j] = (kk, v)
                return
            if c is not FALSE:
                if self.sym is None and ENG.known(bnot(c)):
                    continue
                self._fold()
                break
        if self.sym is not None and is_sym(k):
            has, get, keys = self.sym
            t = lift(k)
            self.sym = (lambda x: bor(eq(x, t), has(x)), lambda x: vite(eq(x, t), v, get(x)), None)
            self.keylog = (keys, t)
            return
        self.items_.append((k, v))

    def __delitem__(self, k):
        """only concrete keys among concrete keys"""
        if self.sym is not None or is_sym(k) or any(is_sym(kk) for kk, _ in self.items_):
            raise Unsupported("deletion from a symbolic dictionary")
        for j, (kk, _) in enumerate(self.items_):
            if type(kk) is type(k) and kk == k:
                self._touch()
                self.items_ = self.items_[:j] + self.items_[j + 1:]
                return
        raise KeyError(repr(k))

    def _fold(self):
        """turn the concrete pairs into the functional representation"""
        if self.sym is not None:
            has, get, _ = self.sym
        else:
            has, get = (lambda x: FALSE), (lambda x: None)
        items = list(self.items_)

        def h(x):
            return bor(has(x), *[eq(lift(k), x) for k, _ in items if lift(k).sort == x.sort])

        def g(x):
            v = get(x)
            for k, vv in items:
                if lift(k).sort != x.sort:
                    continue
                v = vv if v is None else vite(eq(lift(k), x), vv, v)
            return v
        self.items_ = []
        self.sym = (h, g, None)

    def keys(self):
        if self.sym is None:
            return VList([k for k, _ in self.items_])
        if self.sym[2] is None:
            raise Unsupported("keys of a symbolic dictionary")
        n, f = self.sym[2]
        return VList.symbolic(n, f)

    def values(self):
        if self.sym is None:
            return VList([v for _, v in self.items_])
        raise Unsupported("values of a symbolic dictionary")

    def items(self):
        if self.sym is None:
            return VList(list(self.items_))
        raise Unsupported("items of a symbolic dictionary")

    iteritems, iterkeys = items, keys

    def update(self, *a, **k):
        for x in a:
            for kk, vv in (x.items_ if isinstance(x, VDict) else x.items()):
                self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def copy(self):
        return VDict(self)

    def pop(self, k, *d):
        if self.sym is not None or is_sym(k) or any(is_sym(kk) for kk, _ in self.items_):
            raise Unsupported("pop from a symbolic dictionary")
        self._touch()
        for j, (kk, v) in enumerate(self.items_):
            if keq(kk, k) is TRUE:
                del self.items_[j]
                return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if self.contains(k):
            return self._get(k)
        self[k] = d
        return d

    def vlen(self):
        if self.sym is None:
            return len(self.items_)
        raise Unsupported("len of a symbolic dictionary")

    def __len__(self):
        return self.vlen()

    def __iter__(self):
        return iter(self.keys())

    def __eq__(self, o):
        if isinstance(o, VDict) and self.sym is None and o.sym is None:
            if len(self.items_) != len(o.items_):
                return False
            return all(o.contains(k) and o._get(k) == v for k, v in self.items_)
        return self is o


def keq(a, b):
    if not is_sym(a) and not is_sym(b):
        return TRUE if a == b else FALSE
    try:
        x, y = lift(a), lift(b)
    except Unsupported:
        return FALSE
    if x.sort != y.sort:
        return FALSE
    return eq(x, y)


class VSet:
    def __init__(self, it=()):
        it = as_iter(it) if not isinstance(it, VSet) else it
        self.sym = None
        self.items_ = []
        if isinstance(it, VSet):
            self.sym, self.items_ = it.sym, list(it.items_)
        elif isinstance(it, SymIter):
            self.sym = (it.n, it.f)
        else:
            for x in it:
                if not any(keq(x, y) is TRUE for y in self.items_):
                    self.items_.append(x)

    def contains(self, x):
        r = FALSE
        if self.sym is not None:
            n, f = self.sym
            r = tm.exists_rng(n, lambda i: eq(lift(f(i)), lift(x)))
        return mk(bor(r, *[keq(y, x) for y in self.items_]))

    def __contains__(self, x):
        return bool(self.contains(x))

    def add(self, x):
        if not any(keq(x, y) is TRUE for y in self.items_):
            self.items_.append(x)

    def vlen(self):
        if self.sym is None:
            for i in range(len(self.items_)):
                for j in range(i):
                    if keq(self.items_[i], self.items_[j]) is not FALSE and not ENG.known(bnot(keq(self.items_[i], self.items_[j]))):
                        raise Unsupported("len of set with possibly equal elements")
            return len(self.items_)
        raise Unsupported("len of symbolic set")

    def __iter__(self):
        if self.sym is None:
            return iter(self.items_)
        raise Unsupported("iteration over a symbolic set")

    def __sub__(self, o):
        if self.sym is None and o.sym is None:
            return VSet([x for x in self.items_ if not o.contains(x)])
        raise Unsupported("set difference")

    def issubset(self, o):
        raise Unsupported("issubset")


# =============================================================== loop placeholders
class VarPH:
    """placeholder of a loop-carried local variable"""

    def __init__(self, name, init, tmpl):
        self.name = name
        self.init = init

    def symbols(self):
        return self.syms


class ScalarPH(VarPH):
    def __init__(self, name, init, upd):
        VarPH.__init__(self, name, init, upd)
        t0, t1 = lift(init), lift(upd)
        sort = t0.sort
        if t1.sort != sort:
            if {t0.sort, t1.sort} <= {"N", "B"}:
                sort = "N"
            else:
                raise Unsupported("loop-carried %s changes type" % name)
        isint = sort == "N" and t0.isint and t1.isint
        self.ph = fresh("ph_" + name, sort, isint)
        self.syms = [self.ph]

    def value(self):
        return SV(self.ph)

    def subst_solved(self, upd, sol, recs, i):
        u = lift(upd)
        if u.sort == "B" and self.ph.sort == "N":
            u = ind(u)
        for k, s in sol.items():
            u = recs[k][0].apply(u, s, i)
        return u

    def used_symbols(self, u):
        return u.fv | set(_fnsyms(u))

    def apply(self, v, s, i):
        """replace the placeholder by its closed form at iteration i"""
        x = s(i)
        return vsubst(v, {self.ph: lift(x) if self.ph.sort != "N" else numt(x)})

    def solve(self, u, i, n):
        init = lift(self.init)
        if self.ph.sort == "N":
            init = ind(init) if init.sort == "B" else init
        ph = self.ph
        f = solve_rec(init, u, ph, i)
        if f is None:
            return None
        return lambda at: mk(f(at))


class CounterPH(VarPH):
    """loop-carried number conjectured to be init + i*step (from the first iteration); solve() proves that every
    iteration keeps it"""

    def __init__(self, name, init, step, i):
        VarPH.__init__(self, name, init, init)
        self.step, self.i, self.syms = step, i, []

    @staticmethod
    def guess(name, init, vals, i):
        t0 = lift(init)
        if t0.sort != "N" or not t0.isint:
            return None
        ds = set()
        for v in vals:
            t = lift(v)
            if t.sort != "N" or not t.isint:
                return None
            ds.add(sub(t, t0))
        if len(ds) != 1:
            return None
        d, = ds
        return None if i in d.fv else CounterPH(name, init, d, i)

    def at(self, k):
        return add(lift(self.init), mul(k, self.step))

    def value(self):
        return SV(self.at(self.i))

    def subst_solved(self, upd, sol, recs, i):
        u = lift(upd)
        for k, s in sol.items():
            u = recs[k][0].apply(u, s, i)
        return u

    def used_symbols(self, u):
        return u.fv | set(_fnsyms(u))

    def apply(self, v, s, i):
        return v

    def solve(self, u, i, n):
        g = eq(u, self.at(add(i, ONE)))
        if g is not TRUE and not quick(ENG.facts + [le(ZERO, i), lt(i, n)], g):
            return None
        return lambda k: mk(self.at(k))


def solve_rec(init, u, ph, i):
    """closed form of  x(0)=init, x(i+1)=u[ph:=x(i)]  as a function of the iteration count"""
    if ph not in u.fv:
        # last value
        return lambda at: (init if at is ZERO else ite(eq(at, ZERO), init, subst(u, {i: sub(at, ONE)})) if not ENG.known(ge(at, ONE)) else subst(u, {i: sub(at, ONE)}))
    if ph.sort == "N":
        d = sub(u, ph)
        if ph not in d.fv:
            def f(at):
                v = fresh("j")
                return add(init, sum_over([at], [v], subst(d, {i: v})))
            return f
        # x' = x + [c(i)]*(val(i) - x)   (conditional overwrite)
        dd = tm._terms(d)
        keep = ZERO
        coef = ZERO
        ok = True
        for m, c in dd.items():
            e = [x for a, x in m if a is ph]
            if not e:
                keep = add(keep, tm._frompoly({m: c}))
            elif e == [1]:
                coef = add(coef, tm._frompoly({tuple((a, x) for a, x in m if a is not ph): c}))
            else:
                ok = False
        if ok and ph not in coef.fv and ph not in keep.fv:
            c = _as_condition(neg(coef))
            if c is not None:
                # x' = [not c] x + keep
                val = keep

                def f(at):
                    v = fresh("j")
                    ex = tm.quant_from("exists", [v], band(le(ZERO, v), lt(v, at), subst(c, {i: v})))
                    w = fresh("j")
                    if i not in c.fv:
                        ex = band(c, ge(at, ONE))
                        last = sub(at, ONE)
                    else:
                        last = tm.lam_from("last", [at], [w], subst(c, {i: w}), "N", True)
                    return ite(ex, subst(val, {i: last}), init) if not _guarded(val, c) else ite(ex, subst(_unguard(val, c), {i: last}), init)
                return f
        # running max / min
        for name, fn in (("max", tmax), ("min", tmin)):
            g = _ext_of(u, ph, fn)
            if g is not None:
                def f(at, g=g, name=name, fn=fn):
                    w = fresh("j")
                    m = tm.lam_from(name, [at], [w], subst(g, {i: w}), "N", g.isint)
                    return ite(ge(at, ONE), fn(init, m), init)
                return f
    if ph.sort == "B":
        for op, q in (("or", "exists"), ("and", "forall")):
            g = None
            if u.op == op and ph in u.args:
                rest = [a for a in u.args if a is not ph]
                g = (bor if op == "or" else band)(*rest)
            if g is not None and ph not in g.fv:
                def f(at, g=g, q=q):
                    v = fresh("j")
                    b = subst(g, {i: v})
                    r = band(le(ZERO, v), lt(v, at))
                    body = band(r, b) if q == "exists" else implies(r, b)
                    e = tm.quant_from(q, [v], body)
                    return bor(init, e) if q == "exists" else band(init, e)
                return f
    if ph.sort == "S" or ph.sort == "B":
        c, a = _split_ite(u, ph)
        if c is not None:
            def f(at):
                v = fresh("j")
                ex = tm.quant_from("exists", [v], band(le(ZERO, v), lt(v, at), subst(c, {i: v})))
                w = fresh("j")
                last = tm.lam_from("last", [at], [w], subst(c, {i: w}), "N", True)
                return ite(ex, subst(a, {i: last}), init)
            return f
    return None


def _split_ite(u, ph):
    if u.op == "ite":
        c, a, b = u.args
        if b is ph and ph not in a.fv and ph not in c.fv:
            return c, a
        if a is ph and ph not in b.fv and ph not in c.fv:
            return bnot(c), b
    return None, None


def _guarded(val, c):
    return False


def _unguard(val, c):
    return val


def _as_condition(p):
    """p is an indicator polynomial [c] -> c"""
    if p is ONE:
        return TRUE
    d = tm._terms(p)
    if len(d) == 1:
        (m, k), = d.items()
        if k == 1 and all(a.op == "ind" for a, _ in m):
            return band(*[a.args[0] for a, _ in m])
    # 1 - [c]
    q = sub(ONE, p)
    d = tm._terms(q)
    if len(d) == 1:
        (m, k), = d.items()
        if k == 1 and all(a.op == "ind" for a, _ in m):
            return bnot(band(*[a.args[0] for a, _ in m]))
    # general boolean polynomial: rebuild by Shannon expansion over its indicators
    inds = []
    for m, k in tm._terms(p).items():
        for a, e in m:
            if a.op != "ind" or k.denominator != 1:
                return None
            if a not in inds:
                inds.append(a)
    if len(inds) > 6:
        return None
    out = FALSE
    import itertools
    for bits in itertools.product((0, 1), repeat=len(inds)):
        val = 0
        env = dict(zip(inds, bits))
        for m, k in tm._terms(p).items():
            x = k
            for a, e in m:
                x *= env[a]
            val += x
        if val == 1:
            out = bor(out, band(*[a.args[0] if b else bnot(a.args[0]) for a, b in env.items()]))
        elif val != 0:
            return None
    return out


def _ext_of(u, ph, fn):
    """u == fn(ph, g)?"""
    cands = set()
    for m, c in tm._terms(u).items():
        for a, e in m:
            if a.op == "ind":
                p = a.args[0].args[0] if a.args[0].op in ("le", "lt") else None
                if p is not None and ph in p.fv:
                    d = tm._terms(p)
                    k = d.get(((ph, Fraction(1)),))
                    if k in (1, -1):
                        rest = tm._frompoly({mm: cc for mm, cc in d.items() if mm != ((ph, Fraction(1)),)})
                        g = scale(rest, -1 / k)
                        if ph not in g.fv:
                            cands.add(g)
    for g in cands:
        if fn(ph, g) is u or sub(fn(ph, g), u) is ZERO:
            return g
        for off in (ONE, neg(ONE)):
            g2 = add(g, off)
            if sub(fn(ph, g2), u) is ZERO:
                return g2
        # strict / non strict variants agree as functions
        r = solve.prove([], eq(u, fn(ph, g)), 2000)
        if r.status == "proved":
            return g
    return None


class ArrFnPH:
    """placeholder for the contents of a store (or a rebound array variable): fresh function symbol"""

    def __init__(self, name, shape, kind, init_fn):
        self.name = name
        self.shape = shape
        self.kind = kind
        self.init_fn = init_fn
        self.sym = "H_%s!%d" % (name, next(tm._fresh))
        self.syms = [("fn", self.sym)]
        self.sort = {"b": "B", "S": "S"}.get(kind, "N")

    def symbols(self):
        return self.syms

    def fn(self):
        return lambda *idx: app(self.sym, *idx, sort=self.sort, isint=self.kind in "ib")

    # update is represented by (idxvars, term)
    def mkupd(self, fn):
        vs = [fresh("ax") for _ in self.shape]
        return (vs, fn(*vs))

    def subst_solved(self, upd, sol, recs, i):
        vs, u = upd
        for k, s in sol.items():
            u = recs[k][0].apply(u, s, i)
        return (vs, u)

    def used_symbols(self, upd):
        return upd[1].fv | set(_fnsyms(upd[1]))

    def solve(self, upd, i, n):
        vs, u = upd
        own = app(self.sym, *vs, sort=self.sort, isint=self.kind in "ib")
        ph = fresh("cell", self.sort, self.kind in "ib")
        u2 = tm.replace(u, {own: ph})
        init = self.init_fn(*vs)
        if ("fn", self.sym) in _fnsyms(u2):
            # a cell depends on other cells of the same array
            f = self._inplace(u2, ph, i, vs, init)
        else:
            f = solve_rec_arr(init, u2, ph, i, vs, n)
            if f is None:
                f = self._inplace(u2, ph, i, vs, init)
        if f is None:
            return None

        def at(t):
            b = f(t)
            return lambda *idx: subst(b, dict(zip(vs, idx)))
        return at

    def _inplace(self, u, ph, i, vs, init):
        """every cell is written in one iteration s(vs) only, which reads cells that no earlier iteration wrote"""
        name = self.sym
        for e in sorted({x for x in subterms(u) if x.op == "eq" and i in x.fv and x.fv <= u.fv}, key=str):
            s = tm._solve_eq(e.args[0], i)
            if s is None or not s.isint or ph in s.fv or _fnsyms(s):
                continue
            if tm.replace(u, {e: FALSE}) is not ph:
                continue
            on = tm.replace(u, {e: TRUE})
            reads = [x for x in subterms(u) if x.op == "app" and x.val[0] == name]
            ok = True
            for x in reads:
                # the iteration that writes the cell read
                w = subst(s, dict(zip(vs, x.args)))
                if not (w is i or ENG.known(ge(w, i))):
                    ok = False
                    break
            if not ok:
                continue
            on = vreplace_fn(subst(on, {ph: init}), name, lambda *a: self.init_fn(*a))

            def f(at, s=s, on=on):
                return ite(band(le(ZERO, s), lt(s, at)), subst(on, {i: s}), init)
            return f
        return None

    def apply(self, v, s, i):
        fn = s(i)
        return vreplace_fn(v, self.sym, fn)


def solve_rec_arr(init, u, ph, i, vs, n):
    if ph not in u.fv:
        return lambda at: ite(eq(at, ZERO), init, subst(u, {i: sub(at, ONE)})) if at is not ZERO else init
    if ph.sort == "N":
        d = sub(u, ph)
        if ph not in d.fv:
            def f(at):
                v = fresh("j")
                return add(init, sum_over([at], [v], subst(d, {i: v})))
            return f
        keep, coef, ok = ZERO, ZERO, True
        for m, c in tm._terms(d).items():
            e = [x for a, x in m if a is ph]
            if not e:
                keep = add(keep, tm._frompoly({m: c}))
            elif e == [1] and not any(ph in a.fv for a, x in m if a is not ph):
                coef = add(coef, tm._frompoly({tuple((a, x) for a, x in m if a is not ph): c}))
            else:
                ok = False
        if ok and ph not in keep.fv and ph not in coef.fv:
            c = _as_condition(neg(coef))
            if c is not None:
                return _overwrite(init, c, keep, i)
    else:
        c, val = _split_overwrite(u, ph)
        if c is not None:
            return _overwrite(init, c, val, i)
    g = solve_rec(init, u, ph, i)
    return g


def _split_overwrite(u, ph):
    if u.op == "ite":
        c, a, b = u.args
        if b is ph and ph not in a.fv and ph not in c.fv:
            return c, a
        if a is ph and ph not in b.fv and ph not in c.fv:
            return bnot(c), b
    if ph.sort == "B":
        # (c & val) | (~c & ph):  value at ph:=T / ph:=F
        u1, u0 = subst(u, {ph: TRUE}), subst(u, {ph: FALSE})
        # ph matters where u1 != u0 ; there u == ph
        keepc = band(u1, bnot(u0))
        return bnot(keepc), u0
    return None, None


def _overwrite(init, c, val, i):
    """x' = val where c else x ; val is already multiplied by [c] in the numeric case"""
    parts = list(c.args) if c.op == "and" else [c]
    # unique writer: an equation that determines the iteration
    for p in parts:
        if p.op == "eq":
            s = tm._solve_eq(p.args[0], i)
            if s is not None and s.isint:
                rest = [x for x in parts if x is not p]

                def f(at, s=s, rest=rest):
                    cond = band(le(ZERO, s), lt(s, at), *[subst(x, {i: s}) for x in rest])
                    return ite(cond, subst(val, {i: s}), init)
                return f
    # the same equation in every alternative
    for p in parts:
        if p.op == "or":
            sols = None
            for dj in p.args:
                ps = list(dj.args) if dj.op == "and" else [dj]
                ss = set()
                for q in ps:
                    if q.op == "eq":
                        s = tm._solve_eq(q.args[0], i)
                        if s is not None and s.isint:
                            ss.add(s)
                sols = ss if sols is None else sols & ss
                if not sols:
                    break
            if sols:
                s = sorted(sols, key=str)[0]

                def f(at, s=s):
                    cond = band(le(ZERO, s), lt(s, at), *[subst(x, {i: s}) for x in parts])
                    return ite(cond, subst(val, {i: s}), init)
                return f
    # block writer: lo(i) <= x < lo(i)+w with lo(i) = a*i + b  ->  i = (x-b) // a   (needs w <= a)
    r = _block(parts, i)
    if r is not None:
        s, rest = r

        def f(at):
            cond = band(le(ZERO, s), lt(s, at), *[subst(x, {i: s}) for x in parts])
            return ite(cond, subst(val, {i: s}), init)
        return f

    def f(at):
        v = fresh("j")
        ex = tm.quant_from("exists", [v], band(le(ZERO, v), lt(v, at), subst(c, {i: v})))
        w = fresh("j")
        last = tm.lam_from("last", [at], [w], subst(c, {i: w}), "N", True)
        return ite(ex, subst(val, {i: last}), init)
    return f


def _block(parts, i):
    """lower bound  a*i + b - x <= 0 and upper  x - (a*i + b + w) < 0 , 0<w<=a"""
    los, his = [], []
    for p in parts:
        if p.op != "le":
            continue
        q = p.args[0]
        if i not in q.fv:
            continue
        d = tm._terms(q)
        coef = ZERO
        ok = True
        for m, c in d.items():
            e = [x for a, x in m if a is i]
            if e == [1]:
                coef = add(coef, tm._frompoly({tuple((a, x) for a, x in m if a is not i): c}))
            elif any(i in a.fv for a, _ in m):
                ok = False
        if not ok or i in coef.fv:
            continue
        rest = sub(q, mul(coef, i))
        if ENG.known(gt(coef, ZERO)):
            los.append((coef, rest, p))     # coef*i + rest <= 0   (rest = b - x)
        elif ENG.known(lt(coef, ZERO)):
            his.append((neg(coef), rest, p))  # -a*i + rest <= 0 (rest = x - b - w + 1)
    for a, r1, p1 in los:
        for a2, r2, p2 in his:
            if a is not a2:
                continue
            # x - b = -r1 ; condition 2: a*i >= r2 ; r2 = x-b-w+1 = -r1 - w + 1 -> w = 1 - r1 - r2
            w = sub(ONE, add(r1, r2))
            if ENG.known(le(w, a)):
                s = tfdiv(neg(r1), a)
                return s, [p for p in parts if p not in (p1,)]
    return None


def _fnsyms(t):
    if isinstance(t, tuple):
        t = t[1]
    out = set()
    for s in subterms(t):
        if s.op == "app" and s.val[0].startswith(("H_", "L_")):
            out.add(("fn", s.val[0]))
    return out


def vreplace_fn(v, name, fn):
    """replace applications of function symbol `name` by fn(args) inside a term or value"""
    if isinstance(v, T):
        if ("fn", name) not in _fnsyms(v):
            return v
        return tm.map_term(v, lambda x: fn(*x.args) if x.op == "app" and x.val[0] == name else x)
    if isinstance(v, SV):
        return mk(vreplace_fn(v.t, name, fn))
    if isinstance(v, SArr):
        f = v.fn()

        def g(*i):
            vs = [fresh("vr") for _ in i]
            return subst(vreplace_fn(f(*vs), name, fn), dict(zip(vs, i)))
        return SArr([vreplace_fn(d, name, fn) for d in v._shape], v.kind, g)
    if isinstance(v, tuple):
        return tuple(vreplace_fn(x, name, fn) for x in v)
    if isinstance(v, VList):
        if v.sym is None:
            return VList([vreplace_fn(x, name, fn) for x in list.__iter__(v)])
        n, f = v.sym

        def g(t):
            q = fresh("vr")
            return vsubst(vreplace_fn(f(q), name, fn), {q: t})
        return VList.symbolic(vreplace_fn(n, name, fn), g)
    if isinstance(v, Rope):
        return Rope([p if isinstance(p, str) else vreplace_fn(p, name, fn) for p in v.parts])
    if isinstance(v, Fmt):
        return Fmt(v.spec, vreplace_fn(v.t, name, fn))
    return v


class ArrVarPH(ArrFnPH):
    """local variable rebound to a new array each iteration (same shape)"""

    def __init__(self, name, init, upd):
        for a, b in zip(init._shape, upd._shape):
            if a is not b and not ENG.known(eq(a, b)):
                raise Unsupported("loop-carried array %s changes shape" % name)
        if init.ndim != upd.ndim:
            raise Unsupported("loop-carried array %s changes rank" % name)
        kind = promote(init.kind, upd.kind)
        f0 = init.fn()
        ArrFnPH.__init__(self, name, init._shape, kind, lambda *i: cast(f0(*i), kind))

    def value(self):
        return SArr(self.shape, self.kind, self.fn())

    def subst_solved(self, upd, sol, recs, i):
        if isinstance(upd, SArr):
            f = upd.fn()
            upd = self.mkupd(lambda *x: cast(f(*x), self.kind))
        return ArrFnPH.subst_solved(self, upd, sol, recs, i)

    def solve(self, upd, i, n):
        f = ArrFnPH.solve(self, upd, i, n)
        if f is None:
            return None
        self.cells = f
        return lambda at: SArr(self.shape, self.kind, f(at))

    def apply(self, v, s, i):
        return vreplace_fn(v, self.sym, s(i).fn())


class StorePH(ArrFnPH):
    """mutated array storage"""

    def __init__(self, key, cur):
        st = key[1]
        self.st = st
        fn0, memo0 = cur
        ArrFnPH.__init__(self, st.name or "arr", st.shape, st.kind, lambda *i: lift(fn0(*i)))

    def state(self):
        return (self.fn(), {})

    def merge(self, paths):
        vs = [fresh("ax") for _ in self.shape]
        own = app(self.sym, *vs, sort=self.sort, isint=self.kind in "ib")
        r = None
        for conds, st in reversed(paths):
            v = own if st is None else lift(st[0][0](*vs))
            r = v if r is None else ite(band(*conds) if conds else TRUE, v, r)
        return (vs, r)

    def install(self, restore, fn):
        st = self.st
        ENG.touch(("store", st), lambda: (st.fn, st.memo), st._restore)
        st._restore((fn, {}))


class ListPH:
    """list that is appended to in the loop"""

    def __init__(self, key, cur):
        self.lst = key[1]
        self.name = "list"
        self.cur = cur
        self.len = fresh("L_len")
        self.mark = "L_list!%d" % next(tm._fresh)
        self.syms = [self.len, ("fn", self.mark)]
        self.base = lambda t: _ListCell(self.mark, t)

    def symbols(self):
        return self.syms

    def state(self):
        return ([], (self.len, self.base))

    def merge(self, paths):
        """-> list of (cond, [appended values])"""
        out = []
        for conds, st in paths:
            c = band(*conds) if conds else TRUE
            if st is None:
                out.append((c, []))
                continue
            items, s = st[0]
            if s is None:
                raise Unsupported("list reset in a loop")
            n, f = s
            k = sub(n, self.len)
            if k.op == "num" and f is self.base:
                out.append((c, []))
                continue
            if k.op != "num" or k.val < 0:
                raise Unsupported("list grows by a symbolic amount per iteration")
            vals = [f(add(self.len, num(j))) for j in range(int(k.val))]
            # old cells must be unchanged
            q = fresh("q")
            out.append((c, vals))
        return out

    def subst_solved(self, upd, sol, recs, i):
        r = []
        for c, vals in upd:
            for k, s in sol.items():
                c = recs[k][0].apply(c, s, i)
                vals = [recs[k][0].apply(v, s, i) for v in vals]
            r.append((c, vals))
        return r

    def used_symbols(self, upd):
        out = set()
        for c, vals in upd:
            out |= set(c.fv) | _fnsyms(c)
            for v in vals:
                out |= value_syms(v)
        return out

    def solve(self, upd, i, n):
        if self.used_symbols(upd) & set(self.syms):
            return None
        counts = set(len(v) for _, v in upd)
        items, s = self.cur
        base = VList(items) if s is None else VList(sym=s)
        if len(counts) == 1:
            k = counts.pop()
            if k == 0:
                return lambda at: base
            vals = []
            for j in range(k):
                v = upd[-1][1][j]
                for c, vs in reversed(upd[:-1]):
                    v = vite(c, vs[j], v)
                vals.append(v)

            def at(t):
                r = VList(base)
                if k == 1:
                    r.extend(VList.symbolic(t, lambda x: vsubst(vals[0], {i: x})))
                else:
                    def f(x):
                        q, m = divmod_t(x, num(k))
                        return VList([vsubst(v, {i: q}) for v in vals]).elem(m)
                    r.extend(VList.symbolic(mul(t, num(k)), f))
                return r
            return at
        if counts == {0, 1}:
            cond = bor(*[c for c, v in upd if v])
            v = None
            for c, vs in reversed(upd):
                if vs:
                    v = vs[0] if v is None else vite(c, vs[0], v)

            def at(t):
                w = fresh("j")
                cw = subst(cond, {i: w})
                cnt = sum_over([t], [w], ind(cw))
                r = VList(base)
                r.extend(VList.symbolic(cnt, lambda x: vsubst(v, {i: tm.lam_from("sel", [t, x], [w], cw, "N", True)})))
                return r
            return at
        return None

    def apply(self, v, s, i):
        syms = value_syms(v) if not isinstance(v, T) else set(v.fv)
        if not (syms & set(self.syms)):
            return v
        r = s(i)
        n, f = r.to_sym()
        v = vsubst(v, {self.len: n})
        if ("fn", self.mark) in (value_syms(v) if not isinstance(v, T) else _fnsyms(v)):
            raise Unsupported("loop reads back the list it appends to")
        return v

    def install(self, restore, v):
        n, f = v.to_sym()
        l = self.lst
        ENG.touch(("list", l), lambda: (list(list.__iter__(l)), l.sym), l._restore)
        if v.sym is None:
            l._restore((list(list.__iter__(v)), None))
        else:
            l._restore(([], v.sym))


class _ListCell(SV):
    __slots__ = ()

    def __init__(self, mark, t):
        SV.__init__(self, app(mark, t))


def value_syms(v):
    if isinstance(v, T):
        return set(v.fv) | _fnsyms(v)
    if isinstance(v, SV):
        return set(v.t.fv) | _fnsyms(v.t)
    if isinstance(v, SArr):
        vs = [fresh("vf") for _ in v._shape]
        out = value_syms(v.at(*vs))
        for d in v._shape:
            out |= value_syms(d)
        return out
    if isinstance(v, VList):
        if v.sym is None:
            out = set()
            for x in list.__iter__(v):
                out |= value_syms(x)
            return out
        return value_syms(v.sym[0]) | value_syms(v.sym[1](fresh("vf")))
    if isinstance(v, (tuple, list)):
        out = set()
        for x in v:
            out |= value_syms(x)
        return out
    if isinstance(v, Rope):
        out = set()
        for p in v.parts:
            if isinstance(p, Fmt):
                out |= value_syms(p.t)
            elif not isinstance(p, str):
                out |= value_syms(p)
        return out
    if hasattr(v, "__vc_syms__"):
        return v.__vc_syms__()
    return set()


class DictPH:
    """dictionary filled in a loop: insert-if-absent or overwrite"""

    def __init__(self, key, cur):
        self.d = key[1]
        self.name = "dict"
        self.cur = cur
        self.has = "H_has!%d" % next(tm._fresh)
        self.get = "H_get!%d" % next(tm._fresh)
        self.syms = [("fn", self.has), ("fn", self.get)]

    def symbols(self):
        return self.syms

    def state(self):
        return ([], (lambda x: app(self.has, x, sort="B"), lambda x: SV(app(self.get, x)), None))

    def merge(self, paths):
        return paths

    def subst_solved(self, upd, sol, recs, i):
        out = []
        q = fresh("key", "S")
        for conds, st in upd:
            c = band(*conds) if conds else TRUE
            for k, s in sol.items():
                c = recs[k][0].apply(c, s, i)
            ins = None
            if st is not None:
                items, sy = st[0]
                if items:
                    raise Unsupported("dictionary keys of mixed type in a loop")
                has, get, _ = sy
                h = has(q)
                ownh = app(self.has, q, sort="B")
                # has' = has | q==key
                if h.op != "or" or ownh not in h.args or len(h.args) != 2:
                    raise Unsupported("dictionary update pattern")
                e, = [a for a in h.args if a is not ownh]
                if e.op != "seq":
                    raise Unsupported("dictionary update pattern")
                kt = [a for a in e.args if a is not q][0]
                val = get(kt)
                for k, s in sol.items():
                    kt = recs[k][0].apply(kt, s, i)
                    val = recs[k][0].apply(val, s, i)
                ins = (kt, val)
            out.append((c, ins))
        return out

    def used_symbols(self, upd):
        out = set()
        for c, ins in upd:
            out |= value_syms(c)
            if ins:
                out |= value_syms(ins[0]) | value_syms(ins[1])
        return out

    def solve(self, upd, i, n):
        items, s0 = self.cur
        if items or s0 is not None:
            if s0 is not None:
                return None
        inserts = [(c, ins) for c, ins in upd if ins]
        if not inserts:
            return None
        kt, val = inserts[0][1]
        if any(x[1][0] is not kt for x in inserts):
            return None
        if value_syms(val) & set(self.syms):
            return None
        base = VDict()
        base.items_ = list(items)
        cond = bor(*[c for c, _ in inserts])
        ownhas = app(self.has, kt, sort="B")
        if cond is TRUE:
            mode = "last"
        elif cond is bnot(ownhas):
            mode = "first"
        else:
            return None

        def at(t):
            key = lambda j: subst(kt, {i: j})
            d = VDict()
            which = "first" if mode == "first" else "last"
            d.sym = (lambda x: bor(tm.exists_rng(t, lambda j: eq(key(j), x)), lift(base.contains(mk(x))) if base.items_ else FALSE),
                     lambda x: _getd(x), None)

            def _getd(x):
                v = vsubst(val, {i: lam(which, [t], 1, lambda j: eq(key(j), x), isint=True)})
                if base.items_:
                    inb = lift(base.contains(mk(x)))
                    inn = tm.exists_rng(t, lambda j: eq(key(j), x))
                    return vite(inb, base._get(mk(x)), v) if mode == "first" else vite(inn, v, base._get(mk(x)))
                return v
            return d
        return at

    def apply(self, v, s, i):
        syms = value_syms(v)
        if not (syms & set(self.syms)):
            return v
        d = s(i)
        v = vreplace_fn(v, self.has, lambda x: d.sym[0](x))
        if ("fn", self.get) in value_syms(v):
            v = vreplace_fn(v, self.get, lambda x: lift(d.sym[1](x)))
        return v

    def install(self, restore, v):
        d = self.d
        ENG.touch(("dict", d), lambda: (list(d.items_), d.sym), d._restore)
        d._restore((v.items_, v.sym))


class AttrPH:
    """object attribute assigned in a loop"""

    def __init__(self, key, cur):
        self.key = key
        v = cur[0]
        if v is UNDEF:
            raise Unsupported("attribute %s first assigned inside a symbolic loop" % key[2])
        self.init = v
        self.inner = None
        self.name = key[2]

    def _mk(self, upd):
        if self.inner is None:
            self.inner = var_placeholder(self.name, self.init, upd)

    def ensure(self):
        if self.inner is None:
            self.inner = var_placeholder(self.name, self.init, self.init)

    def symbols(self):
        self.ensure()
        return self.inner.symbols()

    def state(self):
        self.ensure()
        return (self.inner.value(),)

    def merge(self, paths):
        self.ensure()
        v = None
        for conds, st in reversed(paths):
            x = self.inner.value() if st is None else st[0][0]
            v = x if v is None else vite(band(*conds) if conds else TRUE, x, v)
        return v

    def subst_solved(self, *a):
        return self.inner.subst_solved(*a)

    def used_symbols(self, u):
        return self.inner.used_symbols(u)

    def solve(self, u, i, n):
        return self.inner.solve(u, i, n)

    def apply(self, v, s, i):
        return self.inner.apply(v, s, i)

    def install(self, restore, v):
        restore((v,))


class FilePH:
    """symbolic file written in a loop: append of a fixed structure per iteration"""

    def __init__(self, key, cur):
        self.f = key[1]
        self.name = "file"
        self.cur = cur
        self.syms = [("file", id(self.f))]

    def symbols(self):
        return self.syms

    def state(self):
        return ([("MARK", self)],)

    def merge(self, paths):
        return [(band(*c) if c else TRUE, [] if st is None else st[0][0][1:]) for c, st in paths]

    def subst_solved(self, upd, sol, recs, i):
        out = []
        for c, chunks in upd:
            for k, s in sol.items():
                c = recs[k][0].apply(c, s, i)
                chunks = [recs[k][0].apply(x, s, i) if not isinstance(x, str) else x for x in chunks]
            out.append((c, chunks))
        return out

    def used_symbols(self, upd):
        out = set()
        for c, ch in upd:
            out |= value_syms(c)
            for x in ch:
                out |= value_syms(x)
        return out

    def solve(self, upd, i, n):
        from symio import Repeat
        prev = self.cur[0]
        if len(upd) > 1 and all(not ch for c, ch in upd):
            return lambda at: list(prev)
        return lambda at: list(prev) + [Repeat(at, i, [(c, list(ch)) for c, ch in upd])]

    def apply(self, v, s, i):
        return v

    def install(self, restore, v):
        restore((v,))


def heap_placeholder(key, cur):
    k = key[0]
    if k == "store":
        return StorePH(key, cur)
    if k == "list":
        return ListPH(key, cur)
    if k == "dict":
        return DictPH(key, cur)
    if k == "attr":
        return AttrPH(key, cur)
    if k == "file":
        return FilePH(key, cur)
    raise Unsupported("mutation of %s in a symbolic loop" % k)


class TuplePH:
    def __init__(self, name, init, upd):
        self.name = name
        self.parts = [var_placeholder("%s_%d" % (name, j), a, b) for j, (a, b) in enumerate(zip(init, upd))]

    def symbols(self):
        return [s for p in self.parts for s in p.symbols()]

    def value(self):
        return tuple(p.value() for p in self.parts)

    def subst_solved(self, upd, sol, recs, i):
        return [p.subst_solved(u, sol, recs, i) for p, u in zip(self.parts, upd)]

    def used_symbols(self, u):
        out = set()
        for p, x in zip(self.parts, u):
            out |= set(p.used_symbols(x))
        return out

    def solve(self, u, i, n):
        ss = [p.solve(x, i, n) for p, x in zip(self.parts, u)]
        if any(s is None for s in ss):
            return None
        return lambda at: tuple(s(at) for s in ss)

    def apply(self, v, s, i):
        for j, p in enumerate(self.parts):
            v = p.apply(v, lambda at, j=j: s(at)[j], i)
        return v


class OpaquePH:
    """variable that is re-assigned every iteration from values not depending on itself"""

    def __init__(self, name, init, upd):
        self.name, self.init = name, init
        self.tok = fresh("opq_" + name)
        self.syms = [self.tok]

    def symbols(self):
        return self.syms

    def value(self):
        return _Poison(self.name)

    def subst_solved(self, upd, sol, recs, i):
        for k, s in sol.items():
            upd = recs[k][0].apply(upd, s, i)
        return upd

    def used_symbols(self, u):
        return value_syms(u)

    def solve(self, u, i, n):
        def at(t):
            if t is ZERO:
                return self.init
            if ENG.known(ge(t, ONE)):
                return vsubst(u, {i: sub(t, ONE)})
            if t is not n and i in t.fv:
                return _Poison(self.name)
            try:
                return vite(eq(t, ZERO), self.init, vsubst(u, {i: sub(t, ONE)}))
            except Unsupported:
                return _Poison(self.name)
        return at

    def apply(self, v, s, i):
        return v


class _Poison:
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, k):
        raise Unsupported("use of loop-carried variable %s across iterations" % object.__getattribute__(self, "_n"))

    def _bad(self, *a, **k):
        raise Unsupported("use of loop-carried variable %s across iterations" % object.__getattribute__(self, "_n"))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __setitem__ = __call__ = __eq__ = __bool__ = __iter__ = __len__ = __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = _bad
    __hash__ = object.__hash__


def var_placeholder(name, init, upd):
    if isinstance(init, SArr) and isinstance(upd, SArr) and init.ndim == upd.ndim and init.ndim > 0:
        same = all(a is b or ENG.known(eq(a, b)) for a, b in zip(init._shape, upd._shape))
        if same:
            return ArrVarPH(name, init, upd)
        return OpaquePH(name, init, upd)
    if isinstance(init, tuple) and isinstance(upd, tuple) and len(init) == len(upd):
        return TuplePH(name, init, upd)
    try:
        lift(init), lift(upd)
    except Unsupported:
        return OpaquePH(name, init, upd)
    try:
        return ScalarPH(name, init, upd)
    except Unsupported:
        return OpaquePH(name, init, upd)


# =============================================================== builtins seen by the code
class _VCInt(int):
    pass


def vc_len(o):
    if hasattr(o, "vlen"):
        return o.vlen()
    if isinstance(o, SV) and o.t.sort == "S":
        return mk(app("strlen", o.t, isint=True))
    if isinstance(o, Rope):
        if all(isinstance(p, str) for p in o.parts):
            return sum(len(p) for p in o.parts)
        return mk(app("strlen", o.term(), isint=True))
    if isinstance(o, types.MethodType) or not hasattr(type(o), "__len__"):
        return len(o)
    m = type(o).__len__
    if isinstance(m, types.FunctionType):
        return m(o)
    return len(o)


def vc_range(*a):
    if any(isinstance(x, (SV, SArr)) for x in a):
        a = [wrap0(x) for x in a]
    if not any(isinstance(x, SV) for x in a):
        return range(*[int(x) for x in a])
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    s, e = lift(s), lift(e)
    if not (s.isint and e.isint):
        raise TypeError("integer argument expected")
    stt = lift(st)
    if stt is ONE:
        return SymRange(s, nonneg(sub(e, s)), 1)
    if stt.op == "num":
        k = int(stt.val)
        if k > 0:
            return SymRange(s, tceil(div(nonneg(sub(e, s)), stt)), k)
        return SymRange(s, tceil(div(nonneg(sub(s, e)), neg(stt))), k)
    if not ENG.branch(gt(stt, ZERO)):
        raise Unsupported("range with non positive symbolic step")
    n = tceil(div(nonneg(sub(e, s)), stt))

    class R(SymRange):
        def elem(self, i):
            return mk(add(s, mul(i, stt)))

        def as_array(self):
            return SArr((n,), "i", lambda i: add(s, mul(i, stt)))
    return R(s, n, 1)


def vc_enumerate(it, start=0):
    it = as_iter(it)
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda i: (mk(add(lift(start), i)), it.f(i)))
    return enumerate(it, start)


def vc_zip(*its):
    its = [as_iter(x) for x in its]
    if any(isinstance(x, SymIter) for x in its):
        n = None
        fs = []
        for x in its:
            if isinstance(x, SymIter):
                m, f = x.n, x.f
            else:
                l = VList(list(x))
                m, f = num(list.__len__(l)), l.elem
            fs.append(f)
            n = m if n is None or n is m or ENG.known(eq(n, m)) else tmin(n, m)
        return SymIter(n, lambda i: tuple(f(i) for f in fs))
    return list(zip(*its))


def vc_map(f, *its):
    if len(its) == 1:
        return RT.listcomp(its[0], f)
    return RT.listcomp(vc_zip(*its), lambda t: f(*t))


def vc_filter(f, it):
    return RT.listcomp(it, lambda x: x, f)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, SV) and o.t.sort == "N" and o.t.isint)

    def __eq__(cls, o):
        return cls is o or o is int

    __hash__ = type.__hash__


class vc_int(metaclass=_IntMeta):
    def __new__(cls, v=0, *a):
        if isinstance(v, SArr):
            v = v.item()
        if isinstance(v, SV):
            if v.t.sort == "S":
                return mk(app("int_of_str", v.t, isint=True))
            return mk(ttrunc(numt(v)))
        if isinstance(v, Rope):
            return v.to_int()
        return int(v, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, SV) and o.t.sort == "N" and not o.t.isint)

    def __eq__(cls, o):
        return cls is o or o is float

    __hash__ = type.__hash__


class vc_float(metaclass=_FloatMeta):
    def __new__(cls, v=0.0):
        if isinstance(v, SArr):
            v = v.item()
        if isinstance(v, SV):
            if v.t.sort == "S":
                return mk(app("float_of_str", v.t))
            return mk(numt(v))
        if isinstance(v, Rope):
            return v.to_float()
        return float(v)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, bool) or (isinstance(o, SV) and o.t.sort == "B")

    def __eq__(cls, o):
        return cls is o or o is bool

    __hash__ = type.__hash__


class vc_bool(metaclass=_BoolMeta):
    def __new__(cls, v=False):
        if isinstance(v, SV):
            return mk(boolt(v))
        return bool(v)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (str, Rope)) or (isinstance(o, SV) and o.t.sort == "S")

    def __eq__(cls, o):
        return cls is o or o is str

    __hash__ = type.__hash__


class vc_str(metaclass=_StrMeta):
    def __new__(cls, v=""):
        if isinstance(v, SArr):
            if v.ndim:
                raise Unsupported("str of an array")
            v = mk(v.at())
        if isinstance(v, SV):
            if v.t.sort == "S":
                return v
            return Rope([Fmt("%d" if v.t.isint else "%s", numt(v))])
        if isinstance(v, Rope):
            return v
        return str(v)

    join = staticmethod(lambda sep, it: vc_join(sep, it))


def vc_join(sep, it):
    if not isinstance(sep, (str, Rope)):
        return sep.join(it)
    it = as_iter(it)
    if isinstance(it, SymIter):
        if not ENG.branch(tm.lt(num(0), it.n)):
            return ""
        i = fresh("j")
        import symio
        if sep == "":
            return symio.TextBlock([symio.Repeat(it.n, i, [(TRUE, [it.f(i)])])])
        n1 = sub(it.n, num(1))
        return symio.TextBlock([symio.Repeat(n1, i, [(TRUE, [it.f(i), sep])]), it.f(n1)])
    out = []
    for j, x in enumerate(it):
        if j:
            out.append(sep)
        out.append(x)
    return Rope(out).simplify()


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, list)

    def __eq__(cls, o):
        return cls is o or o is list

    __hash__ = type.__hash__


class vc_list(metaclass=_ListMeta):
    def __new__(cls, it=()):
        it = as_iter(it)
        if isinstance(it, SymIter):
            return VList.symbolic(it.n, it.f)
        return VList(it)


class _TupleMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, tuple)

    def __eq__(cls, o):
        return cls is o or o is tuple

    __hash__ = type.__hash__


class vc_tuple(metaclass=_TupleMeta):
    def __new__(cls, it=()):
        it = as_iter(it)
        if isinstance(it, SymIter):
            raise Unsupported("tuple of symbolic length")
        return tuple(it)


class _DictMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (dict, VDict))

    __hash__ = type.__hash__


class vc_dict(metaclass=_DictMeta):
    def __new__(cls, *a, **k):
        return VDict(*a, **k)


class _SetMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (set, VSet))

    __hash__ = type.__hash__


class vc_set(metaclass=_SetMeta):
    def __new__(cls, it=()):
        return VSet(it)


def vc_sum(it, start=0):
    it = as_iter(it)
    if isinstance(it, SymIter):
        v = fresh("sm")
        e = it.f(v)
        if isinstance(e, SArr):
            if any(v in d.fv for d in e._shape):
                raise Unsupported("sum of ragged arrays")
            return SArr(e._shape, e.kind, lambda *i: sum_over([it.n], [v], numt(mk(e.at(*i))))) + start
        return mk(sum_over([it.n], [v], numt(e))) + start
    r = start
    for x in it:
        r = r + x
    return r


def vc_ext(name, fn):
    def f(*a, **k):
        if k:
            raise Unsupported("%s with key" % name)
        it = as_iter(a[0]) if len(a) == 1 else a
        if isinstance(it, SymIter):
            return getattr(RT.listcomp(it, lambda x: x).as_array(), name)()
        it = list(it)
        r = it[0]
        for x in it[1:]:
            if is_sym(r) or is_sym(x):
                r = mk(fn(numt(r), numt(x)))
            else:
                r = getattr(_bi, name)(r, x)
        return r
    return f


def vc_all(it):
    it = as_iter(it)
    if isinstance(it, SymIter):
        return mk(tm.forall_rng(it.n, lambda i: boolt(it.f(i))))
    for x in it:
        if not x:
            return False
    return True


def vc_any(it):
    it = as_iter(it)
    if isinstance(it, SymIter):
        return mk(tm.exists_rng(it.n, lambda i: boolt(it.f(i))))
    for x in it:
        if x:
            return True
    return False


def vc_sorted(it, **k):
    it = as_iter(it)
    if isinstance(it, SymIter):
        if k:
            raise Unsupported("sorted with key")
        a = VList.symbolic(it.n, it.f).as_array()
        return sym.sort1(a).tolist()
    it = list(it)
    if any(is_sym(x) for x in it):
        raise Unsupported("sorted of symbolic values")
    return VList(sorted(it, **k))


def vc_reversed(it):
    it = as_iter(it)
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda i: it.f(sub(sub(it.n, ONE), i)))
    return reversed(list(it))


def vc_abs(x):
    return abs(x)


def vc_isinstance(o, c):
    if isinstance(c, tuple):
        return any(vc_isinstance(o, x) for x in c)
    if c is str and isinstance(o, (Rope,)) or (c is str and isinstance(o, SV) and o.t.sort == "S"):
        return True
    if isinstance(c, type) and not isinstance(c, (_IntMeta,)) and c is dict and isinstance(o, VDict):
        return True
    return isinstance(o, c)


def vc_print(*a, **k):
    pass


def vc_type(o, *a):
    if a:
        return type(o, *a)
    return type(o)


def vc_round(x, n=None):
    if isinstance(x, SV):
        return mk(sym.tround(x.t))
    return round(x, n) if n is not None else round(x)


def vc_open(name, mode="r", *a, **k):
    import symio
    return symio.open_(name, mode)


def vc_iter_fn(x):
    it = as_iter(x)
    if isinstance(it, SymIter):
        raise Unsupported("iter() of a symbolic iterable")
    return iter(it)


def vc_next(*a):
    return next(*a)


def vc_hash(x):
    return hash(x)


def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
    return LOADER.imp(name, globals, fromlist, level)


def make_builtins():
    b = dict(vars(_bi))
    b.update(len=vc_len, range=vc_range, enumerate=vc_enumerate, zip=vc_zip, map=vc_map, filter=vc_filter, int=vc_int, float=vc_float,
             bool=vc_bool, str=vc_str, list=vc_list, tuple=vc_tuple, dict=vc_dict, set=vc_set, sum=vc_sum, max=vc_ext("max", tmax), min=vc_ext("min", tmin),
             all=vc_all, any=vc_any, sorted=vc_sorted, reversed=vc_reversed, isinstance=vc_isinstance, print=vc_print, open=vc_open,
             round=vc_round, iter=vc_iter_fn, __import__=vc_import)
    return b


# =============================================================== AST instrumentation
class Instr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn_depth = 0

    def tmp(self, p):
        self.n += 1
        return "_vc_%s%d" % (p, self.n)

    @staticmethod
    def rt(name):
        return ast.Attribute(ast.Name("_vcrt", ast.Load()), name, ast.Load())

    def call(self, name, *args):
        return ast.Call(self.rt(name), list(args), [])

    def visit_FunctionDef(self, node):
        self.fn_depth += 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
        node.body = self.block(node.body)
        self.fn_depth -= 1
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    # ---- for loops
    def visit_For(self, node):
        if self.fn_depth == 0 or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            self.generic_visit(node)
            return node
        it = self.visit(node.iter)
        stored = []

        def names(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in stored:
                    stored.append(x.id)
        names(node.target)
        targets = list(stored)
        for s in node.body:
            for x in walk_scope(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in stored:
                    stored.append(x.id)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name not in stored:
                    stored.append(x.name)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in x.names:
                        nm = (a.asname or a.name).split(".")[0]
                        if nm not in stored:
                            stored.append(nm)
        itv, bodyv = self.tmp("it"), self.tmp("body")
        el = self.tmp("el")
        import copy
        body1 = self.block(copy.deepcopy(node.body))
        body2 = LoopBody(stored).block(self.block(copy.deepcopy(node.body)))
        tgt = copy.deepcopy(node.target)
        L = node.lineno
        ret = ast.Return(ast.Tuple([ast.Constant(None)] + [ast.Name(n, ast.Load()) for n in stored], ast.Load()))
        asg = ast.Assign([tgt], self.unpack(tgt, ast.Name(el, ast.Load())))
        # names possibly unbound after the body: initialise through parameters (UNDEF default)
        fdef = ast.FunctionDef(bodyv, ast.arguments([], [ast.arg(el)] + [ast.arg(n) for n in stored], None, [], [], None, []),
                               [self.visit(asg)] + body2 + [ret], [], None, None)
        getter = ast.List([ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(n, ast.Load())) for n in stored], ast.Load())
        symcall = ast.Call(ast.Name("_vc_symloop", ast.Load()),
                           [ast.Name(itv, ast.Load()), ast.Name(bodyv, ast.Load()), ast.Constant(tuple(stored)),
                            ast.Call(ast.Name("_vc_defd", ast.Load()), [getter], []), ast.Constant(L)], [])
        stv = self.tmp("st")
        assign_back = [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in [stv] + stored], ast.Store())], symcall)]
        if any(isinstance(x, ast.Return) for s in node.body for x in walk_scope(s)):
            assign_back.append(ast.If(ast.Call(ast.Name("isinstance", ast.Load()), [ast.Name(stv, ast.Load()), ast.Name("tuple", ast.Load())], []),
                                      [ast.Return(ast.Subscript(ast.Name(stv, ast.Load()), ast.Constant(1), ast.Load()))], []))
        # unbound-again for UNDEF values
        cleanup = []
        for n in stored:
            cleanup.append(ast.If(ast.Compare(ast.Name(n, ast.Load()), [ast.Is()], [ast.Name("_vc_UNDEF", ast.Load())]),
                                  [ast.Delete([ast.Name(n, ast.Del())])], []))
        conc = ast.For(copy.deepcopy(node.target), ast.Name(itv, ast.Load()), body1, self.block(node.orelse) if node.orelse else [], None)
        conc.target = self.visit(conc.target) if not isinstance(conc.target, (ast.Name, ast.Tuple)) else conc.target
        symb = [fdef] + assign_back + cleanup
        if node.orelse:
            symb.append(ast.If(ast.Compare(ast.Name(stv, ast.Load()), [ast.Is()], [ast.Constant(None)]), self.block(copy.deepcopy(node.orelse)), []))
        out = [ast.Assign([ast.Name(itv, ast.Store())], self.call("iter", it)),
               ast.If(self.call("is_sym", ast.Name(itv, ast.Load())), symb, [conc])]
        return out

    def unpack(self, tgt, value):
        if isinstance(tgt, ast.Tuple):
            return self.call("unpack", value, ast.Constant(len(tgt.elts)))
        return value

    def visit_While(self, node):
        self.generic_visit_block(node)
        return node

    def generic_visit_block(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)

    def visit_If(self, node):
        self.generic_visit_block(node)
        return node

    def visit_With(self, node):
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        for h in node.handlers:
            h.body = self.block(h.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    # ---- comprehensions
    def _comp(self, node, elt):
        gens = node.generators
        g = gens[0]
        if any(x.is_async for x in gens):
            return node
        arg = self.tmp("e")

        def fn(body):
            return ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), self.bind(g.target, arg, body))
        conds = [self.visit(c) for c in g.ifs]
        cond = None
        if conds:
            c = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
            cond = fn(c)
        it = self.visit(g.iter)
        if len(gens) > 1:
            import copy
            inner = copy.copy(node)
            inner.generators = gens[1:]
            body = self._comp(inner, elt)
            args = [it, fn(body)] + ([cond] if cond else [])
            return self.call("flatcomp", self.call("listcomp", *args))
        args = [it, fn(self.visit(elt))] + ([cond] if cond else [])
        return self.call("listcomp", *args)

    def bind(self, tgt, arg, body):
        """(lambda a,b: body)(*unpack(arg))"""
        a = ast.Name(arg, ast.Load())
        if isinstance(tgt, ast.Name):
            return ast.Call(ast.Lambda(ast.arguments([], [ast.arg(tgt.id)], None, [], [], None, []), body), [a], [])
        if isinstance(tgt, ast.Tuple) and all(isinstance(x, ast.Name) for x in tgt.elts):
            return ast.Call(ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in tgt.elts], None, [], [], None, []), body),
                            [ast.Starred(self.call("unpack", a, ast.Constant(len(tgt.elts))), ast.Load())], [])
        if isinstance(tgt, ast.Tuple):
            # nested tuples
            nms, inner = [], body
            for x in tgt.elts:
                if isinstance(x, ast.Name):
                    nms.append(x.id)
                else:
                    nm = self.tmp("t")
                    nms.append(nm)
                    inner = self.bind(x, nm, inner)
            return ast.Call(ast.Lambda(ast.arguments([], [ast.arg(n) for n in nms], None, [], [], None, []), inner),
                            [ast.Starred(self.call("unpack", a, ast.Constant(len(nms))), ast.Load())], [])
        raise Unsupported("comprehension target")

    def visit_ListComp(self, node):
        return self._comp(node, node.elt)

    visit_GeneratorExp = visit_ListComp

    def visit_SetComp(self, node):
        return self.call("set", self._comp(node, node.elt))

    def visit_DictComp(self, node):
        g = node.generators[0]
        if len(node.generators) > 1:
            raise Unsupported("nested dict comprehension")
        arg = self.tmp("e")
        fn = lambda body: ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), self.bind(g.target, arg, body))
        conds = [self.visit(c) for c in g.ifs]
        args = [self.visit(g.iter), fn(ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()))]
        if conds:
            args.append(fn(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)))
        return self.call("dictcomp", *args)

    # ---- displays
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call("list", node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return self.call("dict", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call("set", ast.List(node.elts, ast.Load()))

    # ---- subscripts
    def slice_expr(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [f(s.lower), f(s.upper), f(s.step)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.slice_expr(e) for e in s.elts], ast.Load())
        return self.visit(s)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return self.call("getitem", self.visit(node.value), self.slice_expr(node.slice))
        node.value = self.visit(node.value)
        node.slice = self.slice_expr(node.slice)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        return node

    def visit_Assign(self, node):
        v = self.visit(node.value)
        if len(node.targets) == 1:
            t = node.targets[0]
            r = self._store(t, v)
            if r is not None:
                return r
            node.targets = [self.visit(t)]
            node.value = v
            return node
        nm = self.tmp("m")
        out = [ast.Assign([ast.Name(nm, ast.Store())], v)]
        for t in node.targets:
            r = self._store(t, ast.Name(nm, ast.Load()))
            out.append(r if r is not None else ast.Assign([self.visit(t)], ast.Name(nm, ast.Load())))
        return out

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.Assign([node.target], node.value))

    def _store(self, t, v):
        if isinstance(t, ast.Subscript):
            return ast.Expr(self.call("setitem", self.visit(t.value), self.slice_expr(t.slice), v))
        if isinstance(t, ast.Attribute):
            return ast.Expr(self.call("setattr", self.visit(t.value), ast.Constant(t.attr), v))
        if isinstance(t, ast.Tuple):
            if all(isinstance(x, ast.Name) for x in t.elts):
                return ast.Assign([t], self.call("unpack", v, ast.Constant(len(t.elts))))
            # evaluate once then distribute
            nms = [self.tmp("u") for _ in t.elts]
            out = [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in nms], ast.Store())], self.call("unpack", v, ast.Constant(len(t.elts))))]
            for x, n in zip(t.elts, nms):
                if isinstance(x, ast.Starred):
                    return None
                r = self._store(x, ast.Name(n, ast.Load()))
                if r is None:
                    r = ast.Assign([self.visit(x)], ast.Name(n, ast.Load()))
                out += r if isinstance(r, list) else [r]
            return out
        return None

    def visit_AugAssign(self, node):
        op = type(node.op).__name__
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.Assign([t], self.call("iadd", ast.Name(t.id, ast.Load()), ast.Constant(op), v))
        o, k = self.tmp("o"), self.tmp("k")
        if isinstance(t, ast.Subscript):
            return [ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)),
                    ast.Assign([ast.Name(k, ast.Store())], self.slice_expr(t.slice)),
                    ast.Expr(self.call("setitem", ast.Name(o, ast.Load()), ast.Name(k, ast.Load()),
                                       self.call("iadd", self.call("getitem", ast.Name(o, ast.Load()), ast.Name(k, ast.Load())), ast.Constant(op), v)))]
        if isinstance(t, ast.Attribute):
            return [ast.Assign([ast.Name(o, ast.Store())], self.visit(t.value)),
                    ast.Expr(self.call("setattr", ast.Name(o, ast.Load()), ast.Constant(t.attr),
                                       self.call("iadd", ast.Attribute(ast.Name(o, ast.Load()), t.attr, ast.Load()), ast.Constant(op), v)))]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("mod", node.left, node.right)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self.call("contains", node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                return self.call("notb", c)
            return c
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.call("notb", node.operand)
        return node

    def visit_JoinedStr(self, node):
        fmt, args = [], []
        for v in node.values:
            if isinstance(v, ast.Constant):
                fmt.append(v.value.replace("{", "{{").replace("}", "}}"))
                continue
            spec = ""
            if v.format_spec is not None:
                if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                    return self.call("unsupported", ast.Constant("computed format"))
                spec = ":" + "".join(x.value for x in v.format_spec.values)
            conv = "!" + chr(v.conversion) if v.conversion > 0 else ""
            fmt.append("{" + conv + spec + "}")
            args.append(self.visit(v.value))
        return ast.Call(ast.Name("_vc_format", ast.Load()), [ast.Constant("".join(fmt))] + args, [])

    def visit_Call(self, node):
        # ' '.join(x) on a literal separator
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return ast.Call(ast.Name("_vc_join", ast.Load()), [self.visit(node.func.value), self.visit(node.args[0])], [])
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "format":
            return ast.Call(ast.Name("_vc_format", ast.Load()), [node.func.value] + node.args, node.keywords)
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return node
        return node

    def visit_ClassDef(self, node):
        d, self.fn_depth = self.fn_depth, 0
        node.body = self.block(node.body)
        self.fn_depth = d
        return node


def walk_scope(node):
    """walk without entering nested function scopes / comprehensions"""
    yield node
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
        return
    for c in ast.iter_child_nodes(node):
        yield from walk_scope(c)


class LoopBody(ast.NodeTransformer):
    """inside an outlined loop body: continue/break/return become returns of a status"""

    def __init__(self, stored):
        self.stored = stored

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def state(self, status):
        return ast.Return(ast.Tuple([status] + [ast.Name(n, ast.Load()) for n in self.stored], ast.Load()))

    def visit_Continue(self, node):
        return self.state(ast.Constant(None))

    def visit_Break(self, node):
        return self.state(ast.Name("_vc_BREAK", ast.Load()))

    def visit_Return(self, node):
        return self.state(ast.Tuple([ast.Name("_vc_RETURN", ast.Load()), node.value or ast.Constant(None)], ast.Load()))

    def visit_For(self, node):
        return LoopInner(self).visit_inner(node)

    def visit_While(self, node):
        return LoopInner(self).visit_inner(node)

    def visit_FunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        return node


class LoopInner(ast.NodeTransformer):
    """concrete inner loop of an outlined body: only `return` must be rewritten"""

    def __init__(self, outer):
        self.outer = outer

    def visit_inner(self, node):
        node.body = [self.visit(s) for s in node.body]
        node.orelse = [self.outer.visit(s) for s in node.orelse]
        return node

    def visit_Return(self, node):
        return self.outer.visit_Return(node)

    def visit_FunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        return node


def defd(getters):
    out = []
    for g in getters:
        try:
            out.append(g())
        except (NameError, UnboundLocalError):
            out.append(UNDEF)
    return tuple(out)


# =============================================================== module loader
class Dummy:
    """stand-in for a library module that the functions under contract never call"""

    def __init__(self, name):
        self.__dict__["_vcname"] = name

    def __getattr__(self, k):
        if k.startswith("__") and k not in ("__vcdummy__",):
            raise AttributeError(k)
        return Dummy(self._vcname + "." + k)

    def __call__(self, *a, **k):
        raise Unsupported("call of unmodelled library function %s" % self._vcname)

    def __mro_entries__(self, bases):
        return (object,)


REAL = {"os", "os.path", "sys", "re", "copy", "logging", "time", "abc", "collections", "enum", "warnings", "argparse", "math", "itertools", "functools", "operator", "struct", "io"}


class _Json:
    """json round trip: symbolic values travel as tokens"""

    def __init__(self):
        self.vals = []

    def dumps(self, o, default=None, **k):
        import json

        def enc(v):
            if isinstance(v, (SV, SArr, Rope)) or (isinstance(v, VList) and v.sym is not None):
                if isinstance(v, SArr) and v.ndim:
                    if default is not None:
                        default(v)
                    raise TypeError("vc: not JSON serializable")
                self.vals.append(mk(v.at()) if isinstance(v, SArr) else v)
                return "@vc%d@" % (len(self.vals) - 1)
            if isinstance(v, VDict):
                if v.sym is not None:
                    raise Unsupported("json of a symbolic dictionary")
                v = dict(v.items_)
            if isinstance(v, (dict,)):
                return {str(a): enc(b) for a, b in v.items()}
            if isinstance(v, (list, tuple)):
                return [enc(x) for x in list.__iter__(v)] if isinstance(v, list) else [enc(x) for x in v]
            if v is None or isinstance(v, (bool, int, float, str)):
                return v
            if default is not None:
                return enc(default(v))
            raise TypeError("vc: not JSON serializable")
        return json.dumps(enc(o))

    def loads(self, s, **k):
        import json
        import re as _re

        def dec(v):
            if isinstance(v, str):
                m = _re.fullmatch("@vc(\\d+)@", v)
                return self.vals[int(m.group(1))] if m else v
            if isinstance(v, list):
                return VList([dec(x) for x in v])
            if isinstance(v, dict):
                return VDict({a: dec(b) for a, b in v.items()})
            return v
        if not isinstance(s, str) or isinstance(s, SV):
            raise Unsupported("json.loads of a symbolic string")
        return dec(json.loads(s))

    def dump(self, o, f, **k):
        f.write(self.dumps(o, **k))


JSON = _Json()


class Loader:
    def __init__(self):
        self.mods = {}
        self.sources = {}
        self.functions = {}

    def imp(self, name, globals, fromlist, level):
        if level > 0:
            pkg = globals["__package__"].split(".")
            if level > 1:
                pkg = pkg[: -(level - 1)]
            full = ".".join(pkg + ([name] if name else []))
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(full + "." + f)
                        except FileNotFoundError:
                            pass
                return m
            return m
        top = name.split(".")[0]
        if top == "hyperion":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except FileNotFoundError:
                            pass
                return m
            return self.load(top)
        if name == "numpy":
            return shim_np.NP
        if name.startswith("numpy."):
            return getattr(shim_np.NP, name.split(".")[1]) if fromlist else shim_np.NP
        if name == "scipy.linalg":
            return shim_np.SLA if fromlist else types.SimpleNamespace(linalg=shim_np.SLA)
        if name == "scipy":
            return types.SimpleNamespace(linalg=shim_np.SLA, special=SPECIAL, stats=Dummy("scipy.stats"), signal=Dummy("scipy.signal"))
        if name == "scipy.special":
            return SPECIAL
        if name == "six":
            return SIX
        if name == "six.moves":
            return types.SimpleNamespace(xrange=vc_range, range=vc_range, zip=vc_zip)
        if name == "h5py":
            import symio
            return symio.H5
        if name == "json":
            return JSON
        if name == "copy":
            return COPY
        if name == "collections":
            return COLLECTIONS
        if name == "os":
            import symio
            return symio.OS
        if name == "os.path":
            import symio
            return symio.OS.path if fromlist else symio.OS
        if name == "struct":
            import symio
            return symio.STRUCT
        if name in ("__future__",):
            return importlib.import_module(name)
        if name in REAL or top in REAL:
            m = importlib.import_module(name)
            return m if fromlist else importlib.import_module(top)
        return Dummy(name)

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        fn, ispkg = self.path(name)
        if not os.path.exists(fn) and not ispkg:
            raise FileNotFoundError(fn)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        self.mods[name] = m
        try:
            return self._load(name, m, fn, ispkg)
        except BaseException:
            del self.mods[name]
            raise

    def _load(self, name, m, fn, ispkg):
        m.__file__ = fn
        m.__package__ = name if ispkg else name.rsplit(".", 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(fn)]
        m.__builtins__ = make_builtins()
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            setattr(parent, name.rsplit(".", 1)[1], m)
        src = open(fn, encoding="utf8").read() if os.path.exists(fn) else ""
        if ispkg:
            # package __init__ files only re-export; skip sub-imports that cannot be loaded
            tree = ast.parse(src)
            body = tree.body
        else:
            tree = ast.parse(src, fn)
            body = tree.body
        for n in ("future",):
            pass
        tree = Instr().visit(tree)
        if isinstance(tree.body, list):
            nb = []
            for s in tree.body:
                nb += s if isinstance(s, list) else [s]
            tree.body = nb
        ast.fix_missing_locations(tree)
        g = m.__dict__
        g["_vcrt"] = RT
        g["_vc_symloop"] = RT.symloop
        g["_vc_defd"] = defd
        g["_vc_UNDEF"] = UNDEF
        g["_vc_BREAK"] = BREAK
        g["_vc_RETURN"] = RETURN
        g["_vc_join"] = vc_join
        g["_vc_format"] = vc_format
        if ispkg:
            for s in tree.body:
                try:
                    exec(compile(ast.Module([s], []), fn, "exec"), g)
                except (Unsupported, ImportError, FileNotFoundError, SyntaxError, AttributeError) as e:
                    pass
        else:
            exec(compile(tree, fn, "exec"), g)
        for c in list(g.values()):
            if isinstance(c, type) and c.__module__ == name and c.__new__ is object.__new__:
                c.__new__ = staticmethod(_vc_new)
        self.sources[name] = (fn, src)
        return m


def _vc_new(cls, *a, **k):
    """object creation: remember when the object came into being"""
    o = object.__new__(cls)
    ENG.attr_uid[id(o)] = (o, next(sym.Store._c))
    return o


def vc_deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, SArr):
        r = x.copy()
    elif isinstance(x, VList):
        if x.sym is None:
            r = type(x)() if type(x) is VList else VList()
            list.extend(r, [vc_deepcopy(y, memo) for y in list.__iter__(x)])
        else:
            n, f = x.sym
            r = VList.symbolic(n, lambda t: vc_deepcopy(f(t)))
    elif isinstance(x, VDict):
        r = VDict(x)
    elif isinstance(x, (SV, str, int, float, bool, type(None), Rope, types.FunctionType, type, tm.T)):
        return x
    elif isinstance(x, tuple):
        r = tuple(vc_deepcopy(y, memo) for y in x)
    elif isinstance(x, list):
        r = [vc_deepcopy(y, memo) for y in x]
    elif isinstance(x, dict):
        r = {k: vc_deepcopy(v, memo) for k, v in x.items()}
    elif hasattr(x, "__deepcopy__"):
        r = x.__deepcopy__(memo)
    elif hasattr(x, "__dict__"):
        r = x.__class__.__new__(x.__class__)
        memo[id(x)] = r
        for k, v in x.__dict__.items():
            r.__dict__[k] = vc_deepcopy(v, memo)
    else:
        raise Unsupported("deepcopy of %s" % type(x).__name__)
    memo[id(x)] = r
    return r


def vc_copy(x):
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, VList):
        return VList(x)
    if isinstance(x, VDict):
        return VDict(x)
    if hasattr(x, "__dict__") and not isinstance(x, SV):
        r = x.__class__.__new__(x.__class__)
        r.__dict__.update(x.__dict__)
        return r
    return x


COPY = types.SimpleNamespace(deepcopy=vc_deepcopy, copy=vc_copy)


def _with_metaclass(meta, *bases):
    import abc

    class metaclass(type):
        def __new__(cls, name, this_bases, d):
            return meta(name, bases or (object,), d)
    return type.__new__(metaclass, "temporary_class", (), {})


def _add_metaclass(meta):
    return lambda cls: cls


SIX = types.SimpleNamespace(string_types=(str, vc_str), integer_types=(int, vc_int), with_metaclass=_with_metaclass, add_metaclass=_add_metaclass, PY3=True, PY2=False,
                            iteritems=lambda d: d.items(), binary_type=bytes, text_type=vc_str)
SPECIAL = shim_np.Fn("scipy.special", dict(erf=shim_np.fun("erf"), gammaln=shim_np.fun("gammaln"), digamma=shim_np.fun("digamma"), psi=shim_np.fun("digamma"),
                                           expit=shim_np.U(lambda t: div(ONE, add(ONE, texp(neg(t))))), logsumexp=None))
for _n in ("erfinv", "erfc", "gamma", "polygamma", "xlogy", "logit", "betaln"):
    SPECIAL.__dict__.setdefault(_n, Dummy("scipy.special." + _n))
LOADER = Loader()


def load(name):
    return LOADER.load(name)


def _collections():
    import collections as c
    d = {k: getattr(c, k) for k in dir(c) if not k.startswith("__")}
    d["OrderedDict"] = vc_dict
    return types.SimpleNamespace(**d)


COLLECTIONS = _collections()
