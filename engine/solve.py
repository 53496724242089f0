"""Discharging obligations: normal form first, then z3 (cvc5 as a second opinion on unknown)."""
import time
from fractions import Fraction
import z3
import terms as tm
from terms import *

STATS = {"nf": 0, "z3": 0, "cvc5": 0, "time": 0.0, "queries": 0, "trivial": 0}
StrSort = z3.DeclareSort("Str")
ObjSort = z3.DeclareSort("Obj")

# axioms for higher-order applications: name -> f(t) -> list of boolean terms
AX = {}
# axioms for first-order function symbols: name -> f(args) -> list of terms
FAX = {}


def zsort(s, isint):
    if s == "N":
        return z3.IntSort() if isint else z3.RealSort()
    if s == "B":
        return z3.BoolSort()
    return StrSort


class Ctx:
    """one translation context (collects axioms needed)"""

    def __init__(self):
        self.memo = {}
        self.templates = {}
        self.axioms = []
        self.pending = []
        self.strconsts = {}
        self.inst = set()
        self.depth = 0

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def real(self, t):
        z = self.tr(t)
        if z.sort() == z3.IntSort():
            return z3.ToReal(z)
        return z

    def _tr(self, t):
        op = t.op
        if op == "num":
            return z3.IntVal(int(t.val)) if t.isint else z3.RealVal(str(t.val))
        if op == "var":
            return z3.Const(t.val[0] + ("" if t.sort != "N" else ("#i" if t.isint else "#r")), zsort(t.sort, t.isint))
        if op == "bv":
            return z3.Const("bv%d_%s%d" % (t.val[0], t.sort, t.isint), zsort(t.sort, t.isint))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "strconst":
            c = z3.Const("str:" + repr(t.val), StrSort)
            if t not in self.strconsts:
                for o, oc in self.strconsts.items():
                    self.axioms.append(c != oc)
                self.strconsts[t] = c
            return c
        if op == "poly":
            return self._poly(t)
        if op == "ind":
            return z3.If(self.tr(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "grp":
            return self.tr(t.args[0])
        if op == "app":
            return self._app(t)
        if op == "exp":
            f = z3.Function("exp", z3.RealSort(), z3.RealSort())
            z = f(self.real(t.args[0]))
            self._once(z, lambda: [z > 0, z3.Implies(self.real(t.args[0]) <= 0, z <= 1), z3.Implies(self.real(t.args[0]) >= 0, z >= 1)])
            return z
        if op == "log":
            f = z3.Function("log", z3.RealSort(), z3.RealSort())
            return f(self.real(t.args[0]))
        if op == "floor":
            z = z3.ToInt(self.real(t.args[0]))
            ms = list(tm._terms(t.args[0]))
            den = set.intersection(*[{a for a, e in m if e == -1} for m in ms]) if ms else set()
            if len(den) == 1 and not any(x.op == "bv" for x in t.fv):
                # floor(p/q) for q > 0: q*floor <= p < q*floor + q
                q = next(iter(den))
                p, qf = mul(t.args[0], q), mul(q, t)

                def ax():
                    return [z3.Implies(self.tr(lt(ZERO, q)), z3.And(self.tr(le(qf, p)), self.tr(lt(p, add(qf, q)))))]
                self._once(("floor", t), ax)
            return z
        if op == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "iff":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op in ("le", "lt", "eq"):
            return self._cmp(op, t.args[0])
        if op == "seq":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "ite":
            return z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        if op in ("forall", "exists"):
            vs, body = open_q(t)
            zb = self.tr(body)
            zv = [self.tr(v) for v in vs]
            pats = self._patterns(body, vs) if op == "forall" else []
            if op == "forall":
                return z3.ForAll(zv, zb, patterns=pats) if pats else z3.ForAll(zv, zb)
            return z3.Exists(zv, zb)
        if op in ("msum", "lam"):
            return self._opaque(t)
        raise AssertionError(op)

    def _once(self, key, f):
        k = key.get_id() if hasattr(key, "get_id") else key
        if k in self.inst:
            return
        self.inst.add(k)
        # only instantiate ground-ish facts (bound variables are plain constants until quantified, harmless: skip)
        for a in f():
            self.axioms.append(a) if not _has_bv(a) else None

    def _cmp(self, op, p):
        """p op 0, split into positive and negative sides for readability"""
        d = dict(p.val) if p.op == "poly" else tm._terms(p)
        isint = p.isint
        z = self.tr(p)
        zero = z3.IntVal(0) if z.sort() == z3.IntSort() else z3.RealVal(0)
        if op == "le":
            return z <= zero
        if op == "lt":
            return z < zero
        return z == zero

    def _poly(self, t):
        parts = []
        toint = t.isint
        for m, c in t.val:
            conds = []
            facs = []
            allint = c.denominator == 1
            for a, e in m:
                if a.op == "ind":
                    conds.append(self.tr(a.args[0]))
                    continue
                if not (a.isint and e.denominator == 1 and e > 0):
                    allint = False
                facs.append((a, e))
            if allint:
                z = z3.IntVal(int(c))
                first = True
                fs = [self.tr(a) for a, e in facs for _ in range(int(e))]
                prod = None
                for f in fs:
                    prod = f if prod is None else prod * f
                if prod is None:
                    z = z3.IntVal(int(c))
                elif c == 1:
                    z = prod
                else:
                    z = z3.IntVal(int(c)) * prod
            else:
                prod = None
                for a, e in facs:
                    f = self._pow(a, e)
                    prod = f if prod is None else prod * f
                cz = z3.RealVal(str(c))
                z = cz if prod is None else (prod if c == 1 else cz * prod)
            if conds:
                zero = z3.IntVal(0) if allint else z3.RealVal(0)
                z = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], z, zero)
            if not toint and z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            elif toint and z.sort() != z3.IntSort():
                z = z3.ToInt(z)
            parts.append(z)
        return z3.Sum(*parts) if len(parts) > 1 else parts[0]

    def _pow(self, a, e):
        x = self.real(a)
        if e.denominator == 1:
            n = abs(int(e))
            if n > 4:
                f = z3.Function("pow%s" % e, z3.RealSort(), z3.RealSort())
                return f(x)
            p = x
            for _ in range(n - 1):
                p = p * x
            if e > 0:
                return p
            # reciprocal as a function symbol with its defining axiom
            f = z3.Function("recip", z3.RealSort(), z3.RealSort())
            r = f(p)
            self._once(r, lambda: [z3.Implies(p != 0, r * p == 1), z3.Implies(p > 0, r > 0), z3.Implies(p < 0, r < 0)])
            return r
        base = e.denominator
        if base == 2:
            f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
            r = f(x)
            self._once(r, lambda: [r >= 0, z3.Implies(x >= 0, r * r == x), z3.Implies(x > 0, r > 0)])
            k = e.numerator
            p = r
            for _ in range(abs(k) - 1):
                p = p * r
            if k > 0:
                return p
            g = z3.Function("recip", z3.RealSort(), z3.RealSort())
            q = g(p)
            self._once(q, lambda: [z3.Implies(p != 0, q * p == 1), z3.Implies(p > 0, q > 0)])
            return q
        f = z3.Function("rpow_%d_%d" % (e.numerator, base), z3.RealSort(), z3.RealSort())
        r = f(x)
        self._once(r, lambda: [z3.Implies(x > 0, r > 0)])
        return r

    def _app(self, t):
        zs = [self.tr(a) for a in t.args]
        name = t.val[0]
        if not zs:
            c = z3.Const(name + "|" + "|".join(map(str, t.val[1:])), zsort(t.sort, t.isint))
            if t.pos:
                self._once(c, lambda: [c > 0])
            return c
        f = z3.Function(name + "/" + "".join(self._sc(z) for z in zs) + ("i" if t.isint else t.sort), *([z.sort() for z in zs] + [zsort(t.sort, t.isint)]))
        r = f(*zs)
        if t.pos:
            self._once(r, lambda: [r > 0])
        h = FAX.get(name)
        if h is not None:
            self._once((name, t), lambda: [self.tr(x) for x in h(t)])
        return r

    @staticmethod
    def _sc(z):
        s = z.sort()
        return "i" if s == z3.IntSort() else "r" if s == z3.RealSort() else "b" if s == z3.BoolSort() else "s"

    def _template(self, t):
        """abstract maximal bv-free argument subterms and the free variables of a binder term"""
        holes = {}

        def hole(x):
            h = holes.get(x)
            if h is None:
                h = _mk_hole(len(holes), x.sort, x.isint)
                holes[x] = h
            return h

        memo = {}

        def closed(x):
            return not any(v.op == "bv" or v in bound for v in x.fv)

        bound = set()

        def go(x, top=False):
            r = memo.get(x)
            if r is not None:
                return r
            if not x.fv:
                r = x
            elif x.op == "var":
                r = x if x in bound else hole(x)
            elif x.op == "bv":
                r = x
            elif x.op == "app":
                na = []
                for a in x.args:
                    if a.fv and not (a.fv & bound) and a.sort == "N":
                        na.append(hole(a))
                    else:
                        na.append(go(a))
                r = tm._mk("app", tuple(na), x.val, x.sort, x.isint, x.pos)
            elif x.op == "poly":
                r = add(*[mul(num(c), *[power(go(a), e) for a, e in m]) for m, c in x.val])
            elif x.op == "msum":
                ns, vs, b = open_sum(x)
                bound.update(vs)
                memo2 = dict(memo)
                r = sum_over([go(n) for n in ns], vs, go(b))
            elif x.op == "lam":
                ps, vs, b = open_lam(x)
                bound.update(vs)
                r = lam_from(x.val[0], [hole(p) if (p.fv and not (p.fv & bound) and p.sort == "N") else go(p) for p in ps], vs, go(b), x.sort, x.isint, x.pos)
            elif x.op in ("forall", "exists"):
                vs, b = open_q(x)
                bound.update(vs)
                r = tm.quant_from(x.op, vs, go(b))
            else:
                r = tm.rebuild(x, go)
            memo[x] = r
            return r

        r = go(t)
        return r, holes

    def _opaque(self, t):
        tpl, holes = self._template(t)
        inv = sorted(holes.items(), key=lambda kv: kv[1].val[0])
        if tpl.op not in ("msum", "lam"):
            # template simplified away; translate by substitution
            self.depth += 1
            if self.depth > 40:
                raise TooBig("template recursion")
            try:
                return self.tr(subst(tpl, {h: x for x, h in holes.items()}))
            finally:
                self.depth -= 1
        args = [self.tr(x) for x, _ in inv]
        hs = [h for _, h in inv]
        f = self.templates.get(tpl)
        if f is None:
            if args:
                f = z3.Function("op%d" % tpl.uid, *([zsort(h.sort, h.isint) for h in hs] + [zsort(t.sort, t.isint)]))
            else:
                f = z3.Const("op%d" % tpl.uid, zsort(t.sort, t.isint))
            self.templates[tpl] = f
            self.pending.append((tpl, hs, f))
        return f(*args) if args else f

    def close(self, rounds=4):
        """generate axioms for the opaque templates"""
        for _ in range(rounds):
            if not self.pending:
                break
            todo, self.pending = self.pending, []
            for tpl, hs, f in todo:
                axs = []
                if tpl.op == "lam":
                    h = AX.get(tpl.val[0])
                    if h:
                        axs = h(tpl)
                    pair = {"min": "argmin", "max": "argmax", "argmin": "min", "argmax": "max"}.get(tpl.val[0])
                    if pair:
                        # the extreme is the value at its position
                        other = _relam(tpl, [tpl.args[0]], pair, True if pair.startswith("arg") else lam_body(tpl, ZERO).isint)
                        if other in self.templates:
                            m, a = (tpl, other) if pair.startswith("arg") else (other, tpl)
                            axs = list(axs) + [implies(ge(tpl.args[0], ONE), eq(lam_body(a, a), m))]
                elif tpl.op == "msum":
                    axs = msum_axioms(tpl)
                for a in axs:
                    # quantify over holes
                    zb = self.tr(a)
                    if hs:
                        zh = [self.tr(h) for h in hs]
                        self.axioms.append(z3.ForAll(zh, zb, patterns=[f(*zh)]))
                    else:
                        self.axioms.append(zb)

    def _patterns(self, body, vs):
        """single application patterns covering all quantified variables, else none"""
        cands = []
        want = set(vs)
        for s in subterms(body):
            if s.op == "app" and s.args and want <= s.fv and all(a.op in ("var",) or not (a.fv & want) for a in s.args):
                cands.append(s)
        if cands:
            cands.sort(key=lambda s: s.uid)
            return [self.tr(c) for c in cands[:4]]
        return []


def _mk_hole(i, sort, isint):
    return var("hole%d_%s%d" % (i, sort, isint), sort, isint)


def _has_bv(z):
    seen = set()
    st = [z]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith("bv") or n.startswith("q!") or n.startswith("hole") or n.startswith("b!"):
                return True
        st.extend(x.children())
    return False


def msum_axioms(t):
    ns, b = t.args[:-1], t.args[-1]
    out = []
    facs = tm._terms(b)
    (m, c), = facs.items()
    if all(a.op == "ind" for a, _ in m):
        out.append(ge(t, ZERO))
        nn = band(*[ge(n, ZERO) for n in ns])
        out.append(implies(nn, le(t, mul(*ns))))
        if len(ns) == 1:
            v = fresh("q")
            bb = subst(b, {bv(t.val[0] + 1): v})
            # positive count iff a witness exists
            cond = band(*[a.args[0] for a, _ in tm._terms(bb).popitem()[0]])
            out.append(implies(band(le(ZERO, v), lt(v, ns[0]), cond), ge(t, ONE)) if False else
                       tm.quant_from("forall", [v], implies(band(le(ZERO, v), lt(v, ns[0]), cond), ge(t, ONE))))
            w = fresh("q")
            bb = subst(b, {bv(t.val[0] + 1): w})
            cond = band(*[a.args[0] for a, _ in tm._terms(bb).popitem()[0]])
            out.append(implies(ge(t, ONE), tm.quant_from("exists", [w], band(le(ZERO, w), lt(w, ns[0]), cond))))
    elif _nonneg_mono(m):
        out.append(ge(t, ZERO))
        if all(a.pos for a, _ in m):
            out.append(implies(band(*[ge(n, ONE) for n in ns]), gt(t, ZERO)))
    return out


def _nonneg_mono(m):
    return all(a.pos or a.op == "ind" or (e.denominator == 1 and e.numerator % 2 == 0) or (a.op == "app" and a.val[0] in tm.NONNEGFUNS) for a, e in m)


# ------------------------------------------------------------------ axioms of the built-in binders
def _ax_sel(t):
    """sel(N,k;mask): k-th index i in [0,N) with mask(i)"""
    N, k = t.args[0], t.args[1]
    cnt = tm.sel_count(t)
    inr = band(le(ZERO, k), lt(k, cnt))
    i = fresh("q")
    k2 = fresh("q")
    L = t.val[2]
    t2 = _relam(t, [N, k2])
    rank = _relam(t, [N, i], "rank", True)
    return [
        implies(inr, band(le(ZERO, t), lt(t, N), lam_body(t, t))),
        implies(inr, eq(_relam(t, [N, t], "rank", True), k)),
        implies(inr, le(k, t)),
        tm.quant_from("forall", [k2], implies(band(le(ZERO, k), lt(k, k2), lt(k2, cnt)), lt(t, t2))),
    ] + _ax_rank_of(t, N)


def _relam(t, params, name=None, isint=None):
    n, k, L, bs = t.val
    _, vs, body = open_lam(t)
    return lam_from(name or n, params, vs, body, t.sort if isint is None else "N", t.isint if isint is None else isint, False)


def _ax_rank_of(t, N):
    i = fresh("q")
    cnt = tm.sel_count(t)
    rank = _relam(t, [N, i], "rank", True)
    seli = _relam(t, [N, rank], "sel", True)
    return [tm.quant_from("forall", [i], implies(band(le(ZERO, i), lt(i, N), lam_body(t, i)), band(le(ZERO, rank), lt(rank, cnt), eq(seli, i))))]


def _ax_rank(t):
    N, i = t.args[0], t.args[1]
    cnt = tm.sel_count(t)
    seli = _relam(t, [N, t], "sel", True)
    return [implies(band(le(ZERO, i), lt(i, N), lam_body(t, i)), band(le(ZERO, t), lt(t, cnt), eq(seli, i)))]


def _ax_sel2(t):
    """sel2r/sel2c(N,M,k;mask): row and column of the k-th cell (i,j) with mask(i,j), in row-major order"""
    N, M, k = t.args[:3]
    cnt = tm.sel2_count(t)
    r, c = _relam(t, [N, M, k], "sel2r", True), _relam(t, [N, M, k], "sel2c", True)
    k2 = fresh("q")
    r2, c2 = _relam(t, [N, M, k2], "sel2r", True), _relam(t, [N, M, k2], "sel2c", True)
    out = [implies(band(le(ZERO, k), lt(k, cnt)), band(le(ZERO, r), lt(r, N), le(ZERO, c), lt(c, M), lam_body(t, r, c), eq(_relam(t, [N, M, r, c], "rank2", True), k)))]
    if t.val[0] == "sel2r":
        out.append(tm.quant_from("forall", [k2], implies(band(le(ZERO, k), lt(k, k2), lt(k2, cnt)), bor(lt(r, r2), band(eq(r, r2), lt(c, c2))))))
    return out


def _ax_rank2(t):
    N, M, i, j = t.args[:4]
    cnt = tm.sel2_count(t)
    r, c = _relam(t, [N, M, t], "sel2r", True), _relam(t, [N, M, t], "sel2c", True)
    return [implies(band(le(ZERO, i), lt(i, N), le(ZERO, j), lt(j, M), lam_body(t, i, j)), band(le(ZERO, t), lt(t, cnt), eq(r, i), eq(c, j)))]


def _ax_max(t):
    n = t.args[0]
    v, w = fresh("q"), fresh("q")
    return [tm.quant_from("forall", [v], implies(band(le(ZERO, v), lt(v, n)), le(lam_body(t, v), t))),
            implies(ge(n, ONE), tm.quant_from("exists", [w], band(le(ZERO, w), lt(w, n), eq(lam_body(t, w), t))))]


def _ax_min(t):
    n = t.args[0]
    v, w = fresh("q"), fresh("q")
    return [tm.quant_from("forall", [v], implies(band(le(ZERO, v), lt(v, n)), ge(lam_body(t, v), t))),
            implies(ge(n, ONE), tm.quant_from("exists", [w], band(le(ZERO, w), lt(w, n), eq(lam_body(t, w), t))))]


def _ax_argext(t):
    n = t.args[0]
    v = fresh("q")
    mx = t.val[0] == "argmax"
    best = lam_body(t, t)
    cur = lam_body(t, v)
    later = le(cur, best) if mx else ge(cur, best)
    strict = lt(cur, best) if mx else gt(cur, best)
    return [implies(ge(n, ONE), band(le(ZERO, t), lt(t, n))),
            tm.quant_from("forall", [v], implies(band(le(ZERO, v), lt(v, n)), later)),
            tm.quant_from("forall", [v], implies(band(le(ZERO, v), lt(v, t), lt(v, n)), strict))]


def _ax_first(t):
    """first(n;p): least i in [0,n) with p(i) (n when there is none)"""
    n = t.args[0]
    v = fresh("q")
    ex = tm.exists_rng(n, lambda i: lam_body(t, i))
    return [implies(ex, band(le(ZERO, t), lt(t, n), lam_body(t, t))),
            implies(bnot(ex), eq(t, n)),
            tm.quant_from("forall", [v], implies(band(le(ZERO, v), lt(v, n), lam_body(t, v)), band(le(t, v), le(ZERO, t), lam_body(t, t))))]


def _ax_last(t):
    n = t.args[0]
    v = fresh("q")
    return [tm.quant_from("forall", [v], implies(band(le(ZERO, v), lt(v, n), lam_body(t, v)), band(le(v, t), lt(t, n), lam_body(t, t))))]


def str_lt(a, b):
    return app("str.lt", a, b, sort="B")


def key_lt(a, b):
    return lt(a, b) if a.sort == "N" else str_lt(a, b)


def key_le(a, b):
    return le(a, b) if a.sort == "N" else bnot(str_lt(b, a))


def _ax_perm(t):
    """perm(n,k; key): k-th index in increasing key order; sperm is the stable one (ties in index order)"""
    n, k = t.args[0], t.args[1]
    nm, stable = t.val[0], t.val[0] == "sperm"
    ivn = "sinvperm" if stable else "invperm"
    i = fresh("q")
    k2 = fresh("q")
    t2 = _relam(t, [n, k2])
    invi = _relam(t, [n, i], ivn, True)
    pinv = _relam(t, [n, invi], nm, True)
    inr = band(le(ZERO, k), lt(k, n))
    ka, kb = lam_body(t, t), lam_body(t, t2)
    od = bor(key_lt(ka, kb), band(eq(ka, kb), lt(t, t2))) if stable else band(key_le(ka, kb), ne(t, t2))
    return [implies(inr, band(le(ZERO, t), lt(t, n))),
            implies(inr, eq(_relam(t, [n, t], ivn, True), k)),
            tm.quant_from("forall", [k2], implies(band(le(ZERO, k), lt(k, k2), lt(k2, n)), od)),
            tm.quant_from("forall", [i], implies(band(le(ZERO, i), lt(i, n)), band(le(ZERO, invi), lt(invi, n), eq(pinv, i))))]


def count_ranks(t):
    """position of an element in a stable sort = number of elements that come before it (only at indices in range)"""
    mp = {}
    for s in subterms(t):
        if s.op == "lam" and s.val[0] == "sinvperm":
            n, k = s.args[0], s.args[1]
            if k.op == "lam" and k.val[0] == "sperm" and k.args[0] is n and _relam(k, [n, k], "sinvperm", True) is s:
                mp[s] = (band(le(ZERO, k.args[1]), lt(k.args[1], n)), k.args[1])
                continue
            v = fresh("c")
            a, b = lam_body(s, v), lam_body(s, k)
            mp[s] = (band(le(ZERO, k), lt(k, n)), add(*[tm.sum_over([n], [v], mul(ind(c), ind(key_lt(x, b)) if o == 0 else ind(band(eq(x, b), lt(v, k)))))
                                                        for c, x in _blocks(a, v) for o in (0, 1)]))
    return mp


def _blocks(a, v, c=TRUE, depth=0):
    """split a term with indicators on the range of v (blocks of a concatenation) into its pieces"""
    for s in subterms(a):
        if s.op == "ind" and v in s.fv and s.args[0].op in ("le", "le0", "lt", "lt0") and depth < 4 and not any(x.op in ("app", "lam", "ind") for x in subterms(s.args[0])):
            return (_blocks(tm.replace(a, {s: ONE}), v, band(c, s.args[0]), depth + 1) +
                    _blocks(tm.replace(a, {s: ZERO}), v, band(c, bnot(s.args[0])), depth + 1))
    return [(c, a)]


AX.update(sel=_ax_sel, rank=_ax_rank, sel2r=_ax_sel2, sel2c=_ax_sel2, rank2=_ax_rank2, max=_ax_max, min=_ax_min, argmax=_ax_argext, argmin=_ax_argext,
          first=_ax_first, last=_ax_last, perm=_ax_perm, sperm=_ax_perm)


def _fax_strlt(t):
    a, b = t.args
    return [bnot(band(t, eq(a, b))), bnot(band(t, str_lt(b, a))) if a is not b else bnot(t)]


FAX["str.lt"] = _fax_strlt


def _fax_round(t):
    """to the closest integer (either one of two)"""
    x, h = t.args[0], num(Fraction(1, 2))
    return [le(sub(x, h), t), le(t, add(x, h))]


FAX["round"] = _fax_round


def _fax_tri(t):
    n, = t.args
    return [implies(ge(n, ZERO), ge(t, n))]


FAX["tri"] = _fax_tri

_a, _b, _c = (var("qs%d" % i, "S") for i in range(3))
_ax_str_total = [
    tm.quant_from("forall", [_a, _b], implies(str_lt(_a, _b), band(bnot(str_lt(_b, _a)), ne(_a, _b)))),
    tm.quant_from("forall", [_a, _b], bor(str_lt(_a, _b), str_lt(_b, _a), eq(_a, _b))),
    tm.quant_from("forall", [_a, _b, _c], implies(band(str_lt(_a, _b), str_lt(_b, _c)), str_lt(_a, _c))),
]


# ------------------------------------------------------------------ proving
class Result:
    def __init__(self, status, backend, model=None, time=0.0, note=""):
        self.status, self.backend, self.model, self.time, self.note = status, backend, model, time, note


def z3_check(facts, goal_neg, timeout=10000, want_model=False, rlimit=0):
    ctx = Ctx()
    zs = [ctx.tr(f) for f in facts] + [ctx.tr(goal_neg)]
    ctx.close()
    s = z3.Solver()
    s.set("timeout", timeout)
    if rlimit:
        s.set("rlimit", rlimit)
    for a in ctx.axioms:
        s.add(a)
    used = any("str.lt" in str(n) for n in ())
    for z in zs:
        s.add(z)
    if any(sub.op == "app" and sub.val[0] == "str.lt" for f in list(facts) + [goal_neg] for sub in subterms(f)) or \
       any(sub.op == "lam" and sub.val[0] in ("perm", "sperm", "uniq", "uniqc") for f in list(facts) + [goal_neg] for sub in subterms(f)):
        for a in _ax_str_total:
            s.add(ctx.tr(a))
    t0 = time.time()
    r = s.check()
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    if r == z3.unknown and want_model:
        r2 = cvc5_check(s, max(timeout // 1000, 5))
        if r2 == "unsat":
            return "unsat", None, "cvc5"
    return str(r), (s.model() if r == z3.sat and want_model else None), "z3"


def cvc5_check(solver, secs):
    import subprocess, tempfile, os
    try:
        txt = "(set-logic ALL)\n" + solver.to_smt2()
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (secs * 1000), "-q"], input=txt, capture_output=True, text=True, timeout=secs + 5)
        STATS["queries"] += 1
        return p.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"


def relevant(facts, goal, limit=400):
    """facts sharing symbols with the goal (fixpoint); keeps queries small"""
    def syms(t):
        r = set()
        for s in subterms(t):
            if s.op == "var":
                r.add(s)
            elif s.op == "app":
                r.add(s.val[0])
        return r
    g = syms(goal)
    fs = [(f, syms(f)) for f in facts]
    out = []
    changed = True
    left = fs
    while changed:
        changed = False
        nl = []
        for f, sy in left:
            if not sy or sy & g:
                out.append(f)
                g |= sy
                changed = True
            else:
                nl.append((f, sy))
        left = nl
    return out


_quick_memo = {}
QUICK = 300000     # z3 resource units of one quick query (about 0.15 s; proved ones use at most 135000)


def quick(facts, goal, timeout=1500):
    """True if facts |= goal (cheaply); False = don't know"""
    if goal is TRUE:
        return True
    if goal is FALSE:
        pass
    fs = frozenset(facts)
    if goal in fs:
        return True
    key = (fs, goal)
    r = _quick_memo.get(key)
    if r is None:
        rel = relevant(facts, goal) if goal is not FALSE else list(facts)
        # a resource limit, not a time limit: the answer must not depend on the load of the machine
        st, _, _ = z3_check(rel, bnot(goal), 8000, rlimit=QUICK)
        r = st == "unsat"
        _quick_memo[key] = r
    return r


def clear_denoms(p):
    """multiply p by the atoms that occur with negative exponents (assumed non zero)"""
    for _ in range(8):
        negs = {}
        for m, c in tm._terms(p).items():
            for a, e in m:
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if not negs:
            return p
        mult = ONE
        for a, e in negs.items():
            k = -e
            import math
            if a.op == "grp" and e.denominator == 1:
                mult = mul(mult, power(a.args[0], k))
                # rewriting needs the group factor explicitly
        m2 = {}
        parts = []
        for m, c in tm._terms(p).items():
            d = dict(m)
            extra = []
            for a, e in negs.items():
                d[a] = d.get(a, 0) - e
            mm, ex = tm._clean_mono(d)
            q = tm._frompoly({mm: c}) if mm else num(c)
            for b, k in ex or ():
                for _ in range(k):
                    q = mul(q, b)
            parts.append(q)
        p = add(*parts)
    return p


def canon_inv(t):
    """rewrite with P*P^-1 = 1 for the denominators P of several terms (assumed non zero, as in clear_denoms):
    a multiple of the leading monomial of P under P^-k is eliminated, also inside roots and comparisons"""
    memo = {}

    def lead(P):
        best = None
        for m, c in tm._terms(P).items():
            if not m or not all(e.denominator == 1 and e > 0 for _, e in m):
                continue
            key = (sum(e for _, e in m), tuple((a.uid, e) for a, e in m))
            if best is None or key > best[0]:
                best = (key, m, c)
        return best

    def red(p):
        for _ in range(40):
            hit = None
            for m, c in tm._terms(p).items():
                d = dict(m)
                for g, e in m:
                    if g.op != "grp" or e >= 0 or e.denominator != 1:
                        continue
                    b = lead(g.args[0])
                    if b is None:
                        continue
                    if all(d.get(a, 0) >= k for a, k in b[1]):
                        hit = (m, c, g, e, b)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, c, g, e, (_, lm, lc) = hit
            P = g.args[0]
            d = dict(m)
            for a, k in lm:
                d[a] = d[a] - k
            mm, ex = tm._clean_mono(d)
            if ex:
                return p
            rest = tm._frompoly({mm: c}) if mm else num(c)
            tail = sub(P, tm._frompoly({lm: lc}))
            up = {a: k for a, k in mm}
            up[g] = up.get(g, 0) + 1  # rest * P
            mu, ex = tm._clean_mono(up)
            if ex:
                return p
            new = scale(sub(tm._frompoly({mu: c}) if mu else num(c), mul(tail, rest)), Fraction(1) / lc)
            p = add(tm._frompoly({k: v for k, v in tm._terms(p).items() if k != m}), new)
        return p

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "poly":
            r = red(add(*[mul(num(c), *[power(go(a), e) for a, e in m]) for m, c in t.val]))
        elif not t.args:
            r = t
        elif t.op in ("forall", "exists", "lam"):
            r = t
        else:
            r = tm.rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def nf_zero(p, tol=Fraction(1, 10 ** 9)):
    if p is ZERO:
        return True
    d = tm._terms(p)
    if all(abs(c) < tol for c in d.values()):
        return True
    return False


def simp(t, facts, budget=None):
    """contextual simplification of indicators (and sums over segments) under facts"""
    if budget is None:
        budget = [120]
    memo = {}

    def go(t, facts):
        if not t.args and t.op != "poly":
            return t
        key = (t, len(facts))
        r = memo.get(key)
        if r is not None:
            return r
        r = go1(t, facts)
        memo[key] = r
        return r

    def go1(t, facts):
        if t.op == "poly":
            return add(*[mul(num(c), *[power(go(a, facts), e) for a, e in m]) for m, c in t.val])
        if t.op == "ind":
            c = go(t.args[0], facts)
            c = decide(c, facts)
            return ind(c)
        if t.op == "msum":
            ns, vs, b = open_sum(t)
            ns = [go(n, facts) for n in ns]
            f2 = facts + [x for n, v in zip(ns, vs) for x in (le(ZERO, v), lt(v, n))]
            b = go(b, f2)
            r = seg_sum(ns, vs, b, facts)
            return r
        if t.op == "lam":
            ps, vs, b = open_lam(t)
            ps = [go(p, facts) for p in ps]
            f2 = facts
            if ps and ps[0].sort == "N" and t.val[0] in ("sel", "rank", "max", "min", "argmax", "argmin", "first", "last", "perm", "invperm", "sperm", "sinvperm", "minv", "logdet", "eigval", "eigvec", "chol"):
                f2 = facts + [x for v in vs for x in (le(ZERO, v), lt(v, ps[0]))]
            return lam_from(t.val[0], ps, vs, go(b, f2), t.sort, t.isint, t.pos)
        if t.op in ("forall", "exists"):
            return t
        if t.op in ("le", "lt", "eq") and t.sort == "B":
            return tm.rebuild(t, lambda x: go(x, facts))
        return tm.rebuild(t, lambda x: go(x, facts))

    def decide(c, facts):
        if c in (TRUE, FALSE):
            return c
        if budget[0] <= 0:
            return c
        budget[0] -= 1
        if quick(facts, c, 800):
            return TRUE
        if quick(facts, bnot(c), 800):
            return FALSE
        return c

    return go(t, list(facts))


def seg_sum(ns, vs, b, facts):
    """sum with threshold indicators -> difference of prefix sums, offsets normalised"""
    out = []
    for m, c in tm._terms(b).items():
        out.append(scale(_seg_mono(list(ns), list(vs), m, facts, 6), c))
    return add(*out) if out else ZERO


def _seg_mono(ns, vs, m, facts, fuel):
    if fuel > 0:
        for v, n in zip(vs, ns):
            lo, hi = ZERO, n
            used = []
            for j, (a, e) in enumerate(m):
                if a.op == "ind" and a.args[0].op == "le" and v in a.fv:
                    p = a.args[0].args[0]
                    if set(vs) & (p.fv - {v}):
                        continue
                    d = tm._terms(p)
                    key = ((v, Fraction(1)),)
                    cv = d.get(key)
                    if cv not in (1, -1):
                        continue
                    rest = tm._frompoly({k: x for k, x in d.items() if k != key})
                    if v in rest.fv or not rest.isint:
                        continue
                    if cv == 1:      # v + rest <= 0  -> v < 1 - rest
                        t = sub(ONE, rest)
                        if quick(facts, band(le(lo, t), le(t, hi))):
                            hi = t
                            used.append(j)
                    else:            # -v + rest <= 0 -> v >= rest
                        t = rest
                        if quick(facts, band(le(lo, t), le(t, hi))):
                            lo = t
                            used.append(j)
            off = _offset(v, m, set(vs))
            if used or (off is not None and off is not ZERO) or lo is not ZERO:
                m2 = [x for j, x in enumerate(m) if j not in used]
                body = mul(*[power(a, e) for a, e in m2]) if m2 else ONE
                off = off or ZERO
                # w = v + off  ; v in [lo,hi) -> w in [lo+off, hi+off)
                body = subst(body, {v: sub(v, off)})
                lo, hi = add(lo, off), add(hi, off)
                k = vs.index(v)
                ns1, vs1 = ns[:k] + ns[k + 1:], vs[:k] + vs[k + 1:]
                # prefix sums P(hi)-P(lo)
                def P(h):
                    if h is ZERO:
                        return ZERO
                    tot = []
                    for mm, cc in tm._terms(body).items():
                        tot.append(scale(_seg_mono(ns1 + [h], vs1 + [v], mm, facts, fuel - 1), cc))
                    return add(*tot)
                return sub(P(hi), P(lo))
    return sum_over(ns, vs, tm._frompoly({tuple(m): Fraction(1)}) if m else ONE)


def _offset(v, m, vset):
    """common additive offset of v in application arguments (v + off), off free of binders"""
    offs = []
    for a, e in m:
        for s in subterms(a):
            if s.op in ("app",):
                for i, x in enumerate(s.args):
                    if v in x.fv and x.sort == "N":
                        d = sub(x, v)
                        if not (d.fv & vset) and not any(y.op == "bv" for y in d.fv):
                            offs.append((str(s.val), i, d))
    if not offs:
        return None
    # the choice must not depend on the offset itself: the function and the argument position decide
    return min(offs, key=lambda t: (t[0], t[1], t[2].uid))[2]


def prove(facts, goal, timeout=10000):
    """-> Result"""
    t0 = time.time()
    facts = [f for f in facts if f is not TRUE]
    if goal is TRUE:
        STATS["trivial"] += 1
        return Result("proved", "normal-form", time=0)
    # skolemise / split
    if goal.op == "and":
        worst = None
        bk = set()
        for g in goal.args:
            r = prove(facts, g, timeout)
            if r.status != "proved":
                return r
            bk.add(r.backend)
        return Result("proved", "+".join(sorted(bk)), time=time.time() - t0)
    if goal.op == "forall":
        vs, body = open_q(goal)
        return prove(facts, body, timeout)
    if goal.op == "iff":
        a, b = goal.args
        if a.op in ("lt", "le") and b.op in ("lt", "le"):
            try:
                if canon_inv(simp(a, facts)) is canon_inv(simp(b, facts)):
                    return Result("proved", "normal-form+z3", time=time.time() - t0)
            except TooBig:
                pass
        r = prove(facts + [a], b, timeout)
        if r.status != "proved":
            return r
        return prove(facts + [b], a, timeout)
    if goal.op == "or":
        hyps = [g for g in goal.args if g.op not in ("forall", "eq")]
        concl = [g for g in goal.args if g.op in ("forall", "eq")]
        if len(concl) == 1:
            return prove(facts + [bnot(h) for h in hyps], concl[0], timeout)
        ands = [g for g in goal.args if g.op == "and"]
        if not concl and len(ands) >= 1:
            a = max(ands, key=lambda x: len(x.args))
            rest = [bnot(g) for g in goal.args if g is not a]
            return prove(facts + rest, a, timeout)
    if goal.op == "eq":
        p = goal.args[0]
        if nf_zero(p):
            return Result("proved", "normal-form", time=time.time() - t0)
        cr = count_ranks(p)
        if cr and all(prove(facts, c, 2000).status == "proved" for c, _ in cr.values()):
            try:
                q = tm.replace(p, {s: e for s, (_, e) in cr.items()})
                for _ in range(2):
                    if nf_zero(q):
                        break
                    q = simp(q, [f for f in facts if f.op not in ("forall", "exists") and not any(x.op in ("forall", "exists", "lam") for x in subterms(f))])
                if nf_zero(q) or nf_zero(clear_denoms(q)):
                    return Result("proved", "normal-form+z3", time=time.time() - t0)
            except TooBig:
                pass
        try:
            q = clear_denoms(p)
            if nf_zero(q):
                STATS["nf"] += 1
                return Result("proved", "normal-form", time=time.time() - t0)
        except TooBig:
            pass
        try:
            eqs = [f for f in facts if f.op == "eq"]
            q = simp(use_eqs(p, eqs), facts)
            if nf_zero(q) or nf_zero(clear_denoms(q)):
                STATS["nf"] += 1
                return Result("proved", "normal-form+z3", time=time.time() - t0)
            q2 = clear_denoms(q)
            q3 = canon_inv(q)
            if q3 is not q and (nf_zero(q3) or nf_zero(clear_denoms(q3))):
                STATS["nf"] += 1
                return Result("proved", "normal-form+z3", time=time.time() - t0)
            q5 = same_bounds(q, facts)
            if q5 is not q:
                r = prove(facts, eq(q5, ZERO), timeout)
                if r.status == "proved":
                    return Result("proved", r.backend, time=time.time() - t0)
            if HINTS:
                q4 = telescope(q, facts, timeout)
                if q4 is not None:
                    r = prove(facts, eq(q4, ZERO), timeout)
                    if r.status == "proved":
                        return Result("proved", "telescoping+" + r.backend, time=time.time() - t0)
            goal2 = eq(q2, ZERO)
        except TooBig:
            goal2 = goal
        goal = goal2
        if goal is TRUE:
            return Result("proved", "normal-form+z3", time=time.time() - t0)
    rel = relevant(facts, goal) if goal is not FALSE else facts
    st, model, bk = z3_check(rel, bnot(goal), timeout, True)
    if st == "unsat":
        return Result("proved", bk, time=time.time() - t0)
    if st == "sat":
        if len(rel) < len(facts):
            st2, model2, bk = z3_check(facts, bnot(goal), timeout, True)
            if st2 == "unsat":
                return Result("proved", bk, time=time.time() - t0)
            model = model2 or model
        return Result("refuted", bk, model, time.time() - t0, note="residual goal: %s" % show(goal)[:1500])
    return Result("unknown", bk, None, time.time() - t0, note="residual goal: %s" % show(goal)[:1500])


HINTS = []      # prefix functions H(t) given by the contract (vc.telescope)


def telescope(q, facts, timeout):
    """sums over t<M whose joint body is H(t+1)-H(t) (proved for every 0<=t<M) are H(M)-H(0)"""
    d = tm._terms(q)
    groups = {}
    for m, c in d.items():
        ss = [a for a, e in m if a.op == "msum" and e == 1]
        if len(ss) == 1:
            ns, vs, b = open_sum(ss[0])
            if ns[0].isint and ns[0].op != "num":
                groups.setdefault(ns[0], []).append((m, c, ss[0], ns, vs, b))
    for M, g in groups.items():
        if not quick(facts, le(ZERO, M), 3000):
            continue
        t = tm.fresh("t")
        B, old = ZERO, ZERO
        for m, c, a, ns, vs, b in g:
            rest = mul(num(c), *[power(x, e) for x, e in m if x is not a])
            B = add(B, mul(rest, subst(sum_over(ns[1:], vs[1:], b), {vs[0]: t})))
            old = add(old, tm._frompoly({m: c}))
        f2 = facts + [le(ZERO, t), lt(t, M)]
        hints = list(HINTS)
        for H in hints:
            h0, h1, D = H(t), H(add(t, ONE)), sub(H(M), H(ZERO))
            for sg in (1, -1):
                HINTS.clear()
                try:
                    R = sub(B, scale(sub(h1, h0), sg))
                    ok = prove(f2, eq(R, ZERO), timeout).status == "proved"
                    if ok:
                        R = ZERO
                    else:
                        # the closed part of the body was already summed: what is left is a polynomial of t
                        R = simp(R, f2)
                        ok = not any(t in x.fv and x.op != "poly" and x is not t for x in subterms(R))
                finally:
                    HINTS.extend(hints)
                if ok:
                    return add(sub(q, old), scale(D, sg), sum_over([M], [t], R))
    return None


def same_bounds(q, facts):
    """sums of the same body up to bounds that are equal (proved) are the same sum"""
    groups = {}
    for m in tm._terms(q):
        for a, e in m:
            if a.op == "msum":
                groups.setdefault((a.val, a.args[1:]), set()).add(a)
    fuel = 6
    for g in groups.values():
        g = sorted(g, key=lambda a: a.uid)
        for i in range(1, len(g)):
            for j in range(i):
                if fuel <= 0:
                    return q
                fuel -= 1
                a, b = g[j].args[0], g[i].args[0]
                if prove(facts, eq(a, b), 2000).status == "proved":
                    return tm.replace(q, {g[i]: g[j]})
    return q


def use_eqs(p, eqs):
    """rewrite with oriented variable equations  x = e  coming from facts"""
    mp = {}
    for f in eqs:
        d = tm._terms(f.args[0])
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and c in (1, -1):
                x = m[0][0]
                rest = tm._frompoly({k: v for k, v in d.items() if k != m})
                if x not in rest.fv and x not in mp and not (rest.fv & set(mp)):
                    e = scale(rest, -1 / c)
                    if e.isint == x.isint:
                        mp = {k: subst(v, {x: e}) for k, v in mp.items()}
                        mp[x] = e
                        break
    return subst(p, mp) if mp else p
