"""Hash-consed first-order terms with a polynomial / finite-sum normal form.

Numbers are mathematical integers and reals.  A numeric term is kept in
polynomial normal form over *atoms* (variables, uninterpreted applications,
indicators, sums, ...), with rational exponents; binders (finite sums,
quantifiers, higher order applications) are alpha-canonical.
"""
import itertools
from fractions import Fraction

_table = {}
_fresh = itertools.count()


class T:
    __slots__ = ("op", "args", "val", "sort", "isint", "uid", "lvl", "fv", "pos", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


POSFUNS = set()
NONNEGFUNS = set()
INTFUNS = set()


def _mk(op, args=(), val=None, sort="N", isint=False, pos=False):
    key = (op, tuple(a.uid for a in args), val, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.val, t.sort, t.isint, t.pos = op, tuple(args), val, sort, isint, pos
    t.uid = len(_table) + 1
    lvl = 0
    fv = frozenset()
    if op in ("var", "bv"):
        fv = frozenset((t,))
    elif op == "poly":
        for m, _ in val:
            for a, _e in m:
                lvl = max(lvl, a.lvl)
                fv = fv | a.fv
    else:
        for a in args:
            lvl = max(lvl, a.lvl)
            if not a.fv <= fv:
                fv = fv | a.fv
    t.lvl, t.fv = lvl, fv
    _table[key] = t
    return t


# ---------------------------------------------------------------- leaves
def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            return _mk("app", (), ("#inf", str(c)), "N")
        c = Fraction(repr(c))
    c = Fraction(c)
    return _mk("num", (), c, "N", isint=(c.denominator == 1), pos=c > 0)


ZERO, ONE, TWO = num(0), num(1), num(2)
PI = _mk("app", (), ("#pi",), "N", pos=True)
TRUE = _mk("true", (), None, "B")
FALSE = _mk("false", (), None, "B")


def var(name, sort="N", isint=False, pos=False):
    t = _mk("var", (), (name, isint), sort, isint=isint)
    if pos:
        t.pos = True
    return t


def fresh(name="v", sort="N", isint=True):
    return var("%s!%d" % (name, next(_fresh)), sort, isint)


def strc(s):
    return _mk("strconst", (), s, "S")


def bv(level, sort="N", isint=True):
    return _mk("bv", (), (level, isint), sort, isint=isint)


APPSIMP = {}


def app(name, *args, sort="N", isint=False, pos=False):
    h = APPSIMP.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return _mk("app", args, (name,), sort, isint=isint or name in INTFUNS, pos=pos or name in POSFUNS)


# ---------------------------------------------------------------- polynomials
def _terms(t):
    """numeric term -> dict mono -> coef"""
    if t.op == "num":
        return {(): t.val} if t.val else {}
    if t.op == "poly":
        return dict(t.val)
    return {((t, Fraction(1)),): Fraction(1)}


def _isposint(e):
    return e.denominator == 1 and e > 0


def _frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0])))
    isint = all(c.denominator == 1 and all(a.isint and _isposint(e) for a, e in m) for m, c in items)
    pos = all(c > 0 and all(a.pos for a, e in m) for m, c in items)
    return _mk("poly", (), items, "N", isint=isint, pos=pos)


def _mul_mono(m1, m2):
    """product of two monomials -> (mono, list of polys that must be multiplied in)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _clean_mono(d)


def _clean_mono(d):
    extra = None
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "ind":
            if e > 0:
                e = Fraction(1)
        elif a.op in ("grp", "num"):
            fl = e.numerator // e.denominator
            if fl >= 1 and (a.op == "num" or fl <= 4):
                extra = (extra or []) + [(a.args[0] if a.op == "grp" else a, fl)]
                e = e - fl
                if e == 0:
                    continue
        out.append((a, e))
    out.sort(key=lambda ae: (ae[0].uid, ae[1]))
    # contradictory indicators
    return tuple(out), extra


def _contra(m):
    inds = [a for a, e in m if a.op == "ind"]
    if len(inds) < 2:
        return False
    s = set(a.args[0] for a in inds)
    for c in s:
        if bnot(c) in s:
            return True
    # x==c1 and x==c2
    eqs = [c for c in s if c.op == "eq"]
    for i in range(len(eqs)):
        for j in range(i):
            d = sub(eqs[i].args[0], eqs[j].args[0])
            if d.op == "num" and d.val != 0:
                return True
            d = add(eqs[i].args[0], eqs[j].args[0])
            if d.op == "num" and d.val != 0:
                return True
    return False


def add(*ts):
    d = {}
    for t in ts:
        for m, c in _terms(t).items():
            d[m] = d.get(m, 0) + c
    return _frompoly(d)


def neg(t):
    return _frompoly({m: -c for m, c in _terms(t).items()})


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def scale(t, c):
    c = Fraction(c)
    return _frompoly({m: c * k for m, k in _terms(t).items()})


class TooBig(Exception):
    pass


MAXPOLY = 4000


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        tt = _terms(t)
        n = {}
        if len(r) * len(tt) > MAXPOLY * 10:
            raise TooBig("polynomial too large")
        for m1, c1 in r.items():
            for m2, c2 in tt.items():
                m, extra = _mul_mono(m1, m2)
                if _contra(m):
                    continue
                if extra:
                    p = _frompoly({m: c1 * c2})
                    for q, k in extra:
                        for _ in range(k):
                            p = mul(p, q)
                    for m3, c3 in _terms(p).items():
                        n[m3] = n.get(m3, 0) + c3
                else:
                    n[m] = n.get(m, 0) + c1 * c2
        r = {m: c for m, c in n.items() if c}
    return _frompoly(r)


def _primitive(t):
    """t = k * p with p primitive (content 1, first coefficient sign positive)"""
    d = _terms(t)
    items = sorted(d.items(), key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    cs = [c for _, c in items]
    from math import gcd
    g = 0
    l = 1
    for c in cs:
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    k = Fraction(g, l)
    # gcd of numerators over lcm of denominators is the content
    if items[-1][1] < 0:
        k = -k
    return k, _frompoly({m: c / k for m, c in d.items()})


def _numpow(c, e):
    """c**e for c>0 rational, e Fraction -> term"""
    if e.denominator == 1:
        return num(c ** int(e)) if c != 0 else ZERO
    r = None
    if e.denominator == 2:
        from math import isqrt
        p, q = isqrt(c.numerator), isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            r = Fraction(p, q) ** e.numerator
            return num(r)
    if c == 1:
        return ONE
    a = num(c)
    m, extra = _clean_mono({a: e})
    p = _frompoly({m: Fraction(1)}) if m else ONE
    for q, k in extra or ():
        p = mul(p, num(q.val ** k))
    return p


def power(t, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "num":
        if t.val > 0:
            return _numpow(t.val, e)
        if e.denominator == 1 and t.val != 0:
            return num(t.val ** int(e))
        if t.val == 0 and e > 0:
            return ZERO
        return app("#pow", t, num(e))
    if e.denominator == 1 and e > 0:
        if int(e) <= 6:
            r = ONE
            for _ in range(int(e)):
                r = mul(r, t)
            return r
        if len(_terms(t)) > 1:
            return app("#pow", t, num(e))
    d = _terms(t)
    if len(d) == 1:
        (m, c), = d.items()
        if e.denominator == 1:
            if any(a.op == "ind" for a, _ in m):
                return _grp(t, e)
            mm, extra = _clean_mono({a: x * e for a, x in m})
            p = scale(_frompoly({mm: Fraction(1)}) if mm else ONE, c ** int(e))
            for q, k in extra or ():
                for _ in range(k):
                    p = mul(p, q)
            return p
        # fractional exponent: distribute over positive atoms only
        if c > 0:
            posd = {a: x * e for a, x in m if a.pos}
            rest = tuple((a, x) for a, x in m if not a.pos)
            if len(rest) == 1 and rest[0][1] == 1:
                posd[rest[0][0]] = e
                rest = ()
            mm, extra = _clean_mono(posd)
            p = mul(_numpow(c, e), _frompoly({mm: Fraction(1)}) if mm else ONE)
            for q, k in extra or ():
                for _ in range(k):
                    p = mul(p, q)
            if rest:
                p = mul(p, _grp(_frompoly({rest: Fraction(1)}), e))
            return p
        return _grp(t, e)
    return _grp(t, e)


def _grp(t, e):
    k, p = _primitive(t)
    pre = ONE
    if e.denominator == 1:
        pre = num(k ** int(e))
        t = p
    elif k > 0:
        pre = _numpow(k, e)
        t = p
    else:
        # negative content: keep sign inside
        pre = _numpow(-k, e)
        t = neg(p)
    g = _mk("grp", (t,), None, "N", pos=t.pos)
    m, extra = _clean_mono({g: e})
    r = _frompoly({m: Fraction(1)}) if m else ONE
    for q, kk in extra or ():
        for _ in range(kk):
            r = mul(r, q)
    return mul(pre, r)


def div(a, b):
    if b.op == "num" and b.val == 0:
        return app("#div0", a)
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- booleans
def band(*ts):
    out = set()
    for t in ts:
        if t.op == "and":
            out.update(t.args)
        elif t is TRUE:
            continue
        elif t is FALSE:
            return FALSE
        else:
            out.add(t)
    for t in out:
        if bnot(t) in out:
            return FALSE
    if len(out) > 1:
        out = {t for t in out if t.op != "or" or not any(a in out for a in t.args)}
    if not out:
        return TRUE
    if len(out) == 1:
        return out.pop()
    return _mk("and", tuple(sorted(out, key=lambda x: x.uid)), None, "B")


def bor(*ts):
    out = set()
    for t in ts:
        if t.op == "or":
            out.update(t.args)
        elif t is FALSE:
            continue
        elif t is TRUE:
            return TRUE
        else:
            out.add(t)
    for t in out:
        if t.op != "or" and bnot(t) in out:
            return TRUE
    if len(out) > 1:
        out = {t for t in out if t.op != "and" or not any(a in out for a in t.args)}
    if not out:
        return FALSE
    if len(out) == 1:
        return out.pop()
    return _mk("or", tuple(sorted(out, key=lambda x: x.uid)), None, "B")


def bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "le":
        p = t.args[0]
        # not (p <= 0)  <=> p > 0 <=> -p < 0
        return lt0(neg(p))
    if t.op == "lt":
        return le0(neg(t.args[0]))
    if t.op == "and":
        return bor(*[bnot(a) for a in t.args])
    if t.op == "or":
        return band(*[bnot(a) for a in t.args])
    if t.op == "bite":
        return bite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    return _mk("not", (t,), None, "B")


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    if a.uid > b.uid:
        a, b = b, a
    return _mk("iff", (a, b), None, "B")


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def _scalepos(p):
    k, q = _primitive(p)
    return q if k > 0 else neg(q)


def _retri(p):
    if p.op == "poly":
        ats = [(a, e) for m, _ in p.val for a, e in m]
        if any(a.op == "app" and a.val[0] == "tri" for a, e in ats) and any(e == 2 for a, e in ats):
            return untri(p)
    return p


NONNEGAPPS = {"triu_pos", "tril_pos"}


def le0(p):
    p = _retri(p)
    if p.op == "num":
        return TRUE if p.val <= 0 else FALSE
    if p.op in ("poly", "app"):
        # (total, non-negative) position functions of packed triangles
        d = _terms(p)
        if all(not m or (len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].val[0] in NONNEGAPPS) for m in d):
            if all(c <= 0 for c in d.values()):
                return TRUE
            if all(c >= 0 for c in d.values()) and d.get((), 0) > 0:
                return FALSE
    p = _scalepos(p)
    if p.isint:
        # constant tightening: sum(g*x) + c <= 0, divide by gcd of non constant coefs
        d = _terms(p)
        from math import gcd
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, abs(int(c)))
        if g > 1:
            c0 = d.get((), Fraction(0))
            import math
            nd = {m: c / g for m, c in d.items() if m}
            nd[()] = Fraction(math.ceil(c0 / g))
            p = _frompoly(nd)
    if p.pos and not p.isint:
        return FALSE
    return _mk("le", (p,), None, "B")


def lt0(p):
    p = _retri(p)
    if p.op == "num":
        return TRUE if p.val < 0 else FALSE
    p = _scalepos(p)
    if p.isint:
        return le0(add(p, ONE))
    return _mk("lt", (p,), None, "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return iff(a, b)
    if a.sort != "N" or b.sort != "N":
        if a.sort != b.sort:
            return FALSE
        if a.op == "strconst" and b.op == "strconst":
            return TRUE if a.val == b.val else FALSE
        if a.op == "strconst" and b.op == "app" and b.val[0].startswith("concat"):
            a, b = b, a
        if b.op == "strconst" and a.op == "app" and a.val[0].startswith("concat"):
            # string atoms and formatted numbers are not empty
            f, l = a.args[0], a.args[-1]
            if sum(len(x.val) if x.op == "strconst" else 1 for x in a.args) > len(b.val) or f.op == "strconst" and not b.val.startswith(f.val) \
                    or l.op == "strconst" and not b.val.endswith(l.val):
                return FALSE
        if a.uid > b.uid:
            a, b = b, a
        return _mk("seq", (a, b), None, "B")
    p = _retri(sub(a, b))
    if p.op == "num":
        return TRUE if p.val == 0 else FALSE
    k, q = _primitive(p)
    d = _terms(q)
    if q.isint:
        from math import gcd
        g = 0
        for m, c in d.items():
            if m:
                g = gcd(g, abs(int(c)))
        if g and int(d.get((), 0)) % g:
            return FALSE
    # a single indicator equation simplifies
    if len(d) <= 2:
        inds = [m for m in d if len(m) == 1 and m[0][0].op == "ind"]
        if len(inds) == 1 and all((not m) or m in inds for m in d):
            v = -d.get((), Fraction(0)) / d[inds[0]]
            c = inds[0][0][0].args[0]
            if v == 1:
                return c
            if v == 0:
                return bnot(c)
            return FALSE
    if q.pos and q.op != "poly":
        return FALSE
    if q.op == "poly":
        # a common indicator factor, a sum of a positive number and non negative terms
        if () in d:
            sg = 1 if d[()] > 0 else -1
            if all(c * sg > 0 and all(_nn(a, e) for a, e in m) for m, c in d.items()):
                return FALSE
        else:
            com = [a for a, e in next(iter(d)) if a.op == "ind"]
            for a in com:
                if all(any(b is a for b, _ in m) for m in d):
                    rest = _frompoly({tuple((b, e) for b, e in m if b is not a): c for m, c in d.items()})
                    return bor(bnot(a.args[0]), eq(rest, ZERO))
        # (1 - ind) * rest
        for a in set(a for m in d for a, e in m if a.op == "ind"):
            if 2 * sum(1 for m in d if any(b is a for b, _ in m)) == len(d):
                one = {}
                for m, c in d.items():
                    mm = tuple((b, e) for b, e in m if b is not a)
                    one[mm] = one.get(mm, 0) + c
                if not any(one.values()):
                    return bor(a.args[0], eq(_frompoly({m: c for m, c in d.items() if not any(b is a for b, _ in m)}), ZERO))
    return _mk("eq", (q,), None, "B")


def _nn(a, e):
    """atom ** e is certainly not negative"""
    return a.pos or a.op in ("ind", "exp") or e.denominator == 1 and e % 2 == 0 or a.op == "lam" and a.val[0] == "first" and e > 0


def ne(a, b):
    return bnot(eq(a, b))


def ind(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "and":
        return mul(*[ind(a) for a in c.args])
    if c.op == "or":
        r = ONE
        for a in c.args:
            r = mul(r, sub(ONE, ind(a)))
        return sub(ONE, r)
    if c.op == "not":
        return sub(ONE, ind(c.args[0]))
    if c.op in ("le", "lt"):
        # one orientation of complementary comparisons, independent of variable names
        n = bnot(c)
        if n.op in ("le", "lt") and (c.op == "lt" if n.op != c.op else (c.op == "le" and _terms(c.args[0]).get((), 0) > 0)):
            return sub(ONE, _mk("ind", (n,), None, "N", isint=True))
    return _mk("ind", (c,), None, "N", isint=True)


def _under(t, p, holds):
    """simplify the top-level comparisons of t over the same linear form, knowing p<=0 (holds) or p>0"""
    if t.op == "ind":
        mono = [t]
    elif t.op == "poly":
        mono = [a for m, _ in t.val for a, e in m if a.op == "ind"]
    else:
        return t
    mp = {}
    np_ = neg(p)
    for a in mono:
        if a in mp or a.args[0].op not in ("le", "eq"):
            continue
        q = a.args[0].args[0]
        k = sub(q, p)
        s = 1
        if k.op != "num":
            k = sub(q, np_)
            s = -1
            if k.op != "num":
                continue
        k = k.val
        lo = ONE.val if p.isint else None     # not holds: p >= 1 (integers) or p > 0
        v = None
        if a.args[0].op == "le":
            if s == 1:        # p+k<=0
                if holds and k <= 0:
                    v = ONE
                elif not holds and (-k < 1 if p.isint else k >= 0):
                    v = ZERO
            else:             # k-p<=0
                if holds and k > 0:
                    v = ZERO
                elif not holds and (k <= 1 if p.isint else k <= 0):
                    v = ONE
        else:                 # p = -k or p = k
            x = -k if s == 1 else k
            if holds and x > 0:
                v = ZERO
            elif not holds and (x < 1 if p.isint else x <= 0):
                v = ZERO
        if v is not None:
            mp[a] = v
    if not mp:
        return t
    if t.op == "ind":
        return mp[t]
    return add(*[mul(num(c), *[mp.get(x, None) if x in mp else power(x, e) for x, e in m]) for m, c in t.val])


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return bite(c, a, b)
    if a.sort == "N" and b.sort == "N":
        if c.op == "le":
            a, b = _under(a, c.args[0], True), _under(b, c.args[0], False)
            if a is b:
                return a
        return add(mul(ind(c), sub(a, b)), b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    return _mk("ite", (c, a, b), None, a.sort)


def tmax(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "num":
        return a if d.val >= 0 else b
    if a.uid < b.uid:
        a, b = b, a
    return ite(ge(a, b), a, b)


def tmin(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if d.op == "num":
        return a if d.val <= 0 else b
    if a.uid < b.uid:
        a, b = b, a
    return ite(le(a, b), a, b)


def tabs(a):
    if a.pos:
        return a
    if a.op == "num":
        return num(abs(a.val))
    return ite(ge(a, ZERO), a, neg(a))


def sign(a):
    return sub(ind(gt(a, ZERO)), ind(lt(a, ZERO)))


# ---------------------------------------------------------------- functions
def texp(t):
    d = _terms(t)
    r = {}
    pre = []
    for m, c in d.items():
        if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
            pre.append(power(m[0][0].args[0], c))
            continue
        # indicator factor: exp([c]*x) = [c]*(exp(x)-1)+1
        p = _frompoly({m: Fraction(1)}) if m else ONE
        a = _mk("exp", (p,), None, "N", pos=True)
        r[a] = r.get(a, 0) + c
    mm, extra = _clean_mono(r)
    p = _frompoly({mm: Fraction(1)}) if mm else ONE
    return mul(p, *pre) if pre else p


def tlog(t):
    if t is ONE:
        return ZERO
    d = _terms(t)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0:
            out = []
            rest = []
            for a, e in m:
                if a.pos or (len(m) == 1 and e == 1):
                    if a.op == "exp":
                        out.append(scale(a.args[0], e))
                    elif a.op == "num":
                        out.append(scale(_mk("log", (a,), None, "N"), e))
                    else:
                        out.append(scale(tlog(a.args[0]) if a.op == "grp" else _mk("log", (a,), None, "N"), e))
                else:
                    rest.append((a, e))
            if c != 1:
                out.append(_lognum(c))
            if rest:
                if len(rest) == 1 and rest[0][1] != 1 and rest[0][1].denominator != 1 or (len(rest) == 1 and rest[0][1] < 0 and rest[0][1].denominator == 1 and rest[0][1].numerator % 2):
                    # fractional / odd power of one factor: defined only when positive
                    out.append(scale(_mk("log", (rest[0][0],), None, "N"), rest[0][1]))
                else:
                    out.append(_mk("log", (_frompoly({tuple(rest): Fraction(1)}),), None, "N"))
            return add(*out)
    k, p = _primitive(t)
    if k < 0:
        k, p = -k, neg(p)
    if k != 1:
        return add(_lognum(k), _mk("log", (p,), None, "N"))
    return _mk("log", (t,), None, "N")


def _lognum(c):
    """log of positive rational as combination of log primes"""
    c = Fraction(c)
    out = []
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        cnt = {}
        while p * p <= n and p < 2000:
            while n % p == 0:
                cnt[p] = cnt.get(p, 0) + 1
                n //= p
            p += 1
        if n > 1:
            cnt[n] = cnt.get(n, 0) + 1
        for q, k in cnt.items():
            out.append(scale(_mk("log", (num(q),), None, "N"), s * k))
    return add(*out) if out else ZERO


def tri(n):
    """n(n+1)/2"""
    if n.op == "num":
        return num(n.val * (n.val + 1) / 2)
    return app("tri", n, isint=True, pos=False)


def untri(t):
    """expand tri(n) into its polynomial"""
    mp = {a: div(add(power(a.args[0], 2), a.args[0]), num(2)) for m, _ in _terms(t).items() for a, _e in m if a.op == "app" and a.val[0] == "tri"}
    return replace(t, mp) if mp else t


def _linsquare(t):
    """t == (a*v+b)^2 for a single variable v: a*v+b, or None"""
    d = _terms(t)
    ats = {a for m in d for a, _ in m}
    if len(ats) != 1 or len(d) != 3:
        return None
    v, = ats
    import math
    c2, c1, c0 = d.get(((v, Fraction(2)),)), d.get(((v, Fraction(1)),)), d.get(())
    if None in (c2, c1, c0) or c2 <= 0 or c0 <= 0:
        return None
    r = lambda q: Fraction(math.isqrt(q.numerator), math.isqrt(q.denominator)) if math.isqrt(q.numerator) ** 2 == q.numerator and math.isqrt(q.denominator) ** 2 == q.denominator else None
    a, b = r(Fraction(c2)), r(Fraction(c0))
    if a is None or b is None or abs(c1) != 2 * a * b:
        return None
    return add(scale(v, a), num(b if c1 > 0 else -b))


def tsqrt(t):
    if t.op == "poly":
        x = _linsquare(untri(t))
        if x is not None:
            # n of tri(n) is an array size
            sizes = {a.args[0] for m in _terms(t) for a, _e in m if a.op == "app" and a.val[0] == "tri"}
            if all(c > 0 and all(a in sizes or a.pos for a, e in m) for m, c in _terms(x).items()):
                return x
            return ite(le(ZERO, x), x, neg(x))
    return power(t, Fraction(1, 2))


def tfloor(t):
    if t.isint:
        return t
    if t.op == "num":
        import math
        return num(math.floor(t.val))
    # floor(int + rest) = int + floor(rest)
    d = _terms(t)
    import math
    ip, rp = {}, {}
    for m, c in d.items():
        if all(a.isint and _isposint(e) for a, e in m):
            f = math.floor(c)
            if f:
                ip[m] = num(f).val
            if c != f:
                rp[m] = c - f
        else:
            rp[m] = c
    c0 = rp.get((), None)
    if c0 is not None:
        rp[()] = c0
    if len(rp) == 2 and set(rp.values()) == {Fraction(1, 2)}:
        # (n^2+n)/2
        for m in rp:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].isint and ((m[0][0], Fraction(2)),) in rp:
                return add(_frompoly(ip), tri(m[0][0]))
    r = _frompoly(rp)
    if r.op == "num":
        import math
        return add(_frompoly(ip), num(math.floor(r.val)))
    return add(_frompoly(ip), _mk("floor", (r,), None, "N", isint=True))


def tceil(t):
    return neg(tfloor(neg(t)))


def tfdiv(a, b):
    """python floor division"""
    if a.op == "num" and b.op == "num" and b.val != 0:
        return num(a.val // b.val)
    if b is ONE:
        return tfloor(a)
    return tfloor(div(a, b))


def tmod(a, b):
    if a.op == "num" and b.op == "num" and b.val != 0:
        return num(a.val % b.val)
    return sub(a, mul(b, tfdiv(a, b)))


def ttrunc(a):
    if a.isint:
        return a
    if a.op == "num":
        return num(int(a.val))
    f = tfloor(a)
    if untri(f) is a:
        return f
    return ite(ge(a, ZERO), f, tceil(a))


# ---------------------------------------------------------------- substitution / binders
_subst_memo = {}


def subst(t, mp):
    """mp: dict T(var) -> T"""
    if not mp:
        return t
    mp = {k: v for k, v in mp.items() if k is not v}
    if not mp:
        return t
    keys = frozenset(mp)
    memo = {}

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("var", "bv"):
            r = mp[t]
        elif op == "poly":
            r = ZERO
            parts = []
            for m, c in t.val:
                if any(a.fv & keys for a, _ in m):
                    parts.append(mul(num(c), *[power(go(a), e) for a, e in m]))
                else:
                    parts.append(_frompoly({m: c}))
            r = add(*parts)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


def rebuild(t, go):
    op, args = t.op, t.args
    if op == "app":
        na = tuple(go(a) for a in args)
        h = APPSIMP.get(t.val[0])
        if h is not None:
            r = h(*na)
            if r is not None:
                return r
        return _mk("app", na, t.val, t.sort, t.isint, t.pos)
    if op == "ind":
        return ind(go(args[0]))
    if op == "grp":
        return go(args[0])  # a grp atom always appears under power(...)
    if op == "exp":
        return texp(go(args[0]))
    if op == "log":
        return tlog(go(args[0]))
    if op == "floor":
        return tfloor(go(args[0]))
    if op == "and":
        return band(*[go(a) for a in args])
    if op == "or":
        return bor(*[go(a) for a in args])
    if op == "not":
        return bnot(go(args[0]))
    if op == "iff":
        return iff(go(args[0]), go(args[1]))
    if op == "le":
        return le0(go(args[0]))
    if op == "lt":
        return lt0(go(args[0]))
    if op == "eq":
        return eq(go(args[0]), ZERO)
    if op == "seq":
        return eq(go(args[0]), go(args[1]))
    if op == "ite":
        return ite(go(args[0]), go(args[1]), go(args[2]))
    if op == "msum":
        ns, vs, body = open_sum(t)
        return nested_sum([go(n) for n in ns], vs, go(body))
    if op == "lam":
        params, vs, body = open_lam(t)
        return lam_from(t.val[0], [go(p) for p in params], vs, go(body), t.sort, t.isint, t.pos)
    if op in ("forall", "exists"):
        vs, body = open_q(t)
        return quant_from(op, vs, go(body))
    raise AssertionError("rebuild " + op)





def map_term(t, f, memo=None):
    """bottom-up rebuild applying f(atom_after_rebuild) on every non-poly node"""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "poly":
            parts = []
            for m, c in t.val:
                parts.append(mul(num(c), *[power(go(a), e) for a, e in m]))
            r = add(*parts)
        elif t.op in ("num", "var", "bv", "strconst", "true", "false"):
            r = f(t)
        else:
            r = rebuild(t, go)
            if r.op not in ("poly", "num"):
                r = f(r)
        memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    """all subterms not crossing into binder bodies is NOT assumed: yields everything"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "poly":
            for m, _ in x.val:
                for a, _e in m:
                    stack.append(a)
        else:
            stack.extend(x.args)


# --- generic higher order application: lam(name, params; body under k binders)
def lam(name, params, k, f, sort="N", isint=False, pos=False, bsort=None):
    vs = [fresh("b") for _ in range(k)]
    return lam_from(name, params, vs, f(*vs), sort, isint, pos)


LAMSIMP = {}


def lam_from(name, params, vs, body, sort="N", isint=False, pos=False):
    if name in ("sel", "rank", "first", "last") and vs[0] in body.fv:
        body = reflex(params[0], vs[0], body)
    h = LAMSIMP.get(name)
    if h is not None:
        r = h(params, vs, body, sort, isint, pos)
        if r is not None:
            return r
    return mk_lam(name, params, vs, body, sort, isint, pos)


def mk_lam(name, params, vs, body, sort="N", isint=False, pos=False):
    k = len(vs)
    L = body.lvl
    b = subst(body, {v: bv(L + 1 + i, v.sort, v.isint) for i, v in enumerate(vs)})
    key = (name, k, L, tuple((v.sort, v.isint) for v in vs))
    t = _mk("lam", tuple(params) + (b,), key, sort, isint, pos)
    _fixbinder(t, b, [bv(L + 1 + i, v.sort, v.isint) for i, v in enumerate(vs)], L + k, params)
    return t


def _fixbinder(t, b, bvs, lvl, params):
    fv = b.fv - frozenset(bvs)
    for p in params:
        fv = fv | p.fv
        lvl = max(lvl, p.lvl)
    t.fv = fv
    t.lvl = lvl


def open_lam(t):
    name, k, L, bs = t.val
    params, b = t.args[:-1], t.args[-1]
    vs = [fresh("b", s, i) for s, i in bs]
    body = subst(b, {bv(L + 1 + i, s, ii): v for i, (v, (s, ii)) in enumerate(zip(vs, bs))})
    return list(params), vs, body


def lam_body(t, *idx):
    """instantiate the lambda body of a lam term"""
    name, k, L, bs = t.val
    return subst(t.args[-1], {bv(L + 1 + i, s, ii): v for i, (v, (s, ii)) in enumerate(zip(idx, bs))})


def quant_from(op, vs, body):
    vs = [v for v in vs if v in body.fv]
    if not vs or body in (TRUE, FALSE):
        return body
    # one-point rule: exists v. v == t & P(v)  ->  P(t)   (and its dual for forall)
    if op == "exists" and body.op == "and" or op == "forall" and body.op == "or":
        for v in vs:
            if v.sort != "N":
                continue
            for c in body.args:
                e = c if op == "exists" else c.args[0] if c.op == "not" else None
                if e is None or e.op != "eq" or v not in e.fv:
                    continue
                s = _solve_eq(e.args[0], v) if len(e.args) == 1 or e.args[1] is ZERO else None
                if s is None or v.isint and not s.isint:
                    continue
                rest = [x for x in body.args if x is not c]
                b = subst(band(*rest) if op == "exists" else bor(*rest), {v: s})
                return quant_from(op, [w for w in vs if w is not v], b)
    L = body.lvl
    bvs = [bv(L + 1 + i, v.sort, v.isint) for i, v in enumerate(vs)]
    b = subst(body, dict(zip(vs, bvs)))
    t = _mk(op, (b,), (L, tuple((v.sort, v.isint) for v in vs)), "B")
    _fixbinder(t, b, bvs, L + len(vs), ())
    return t


def forall(f, sorts=((("N", True)),), n=None):
    sorts = [("N", True)] * n if n is not None else list(sorts) if isinstance(sorts[0], tuple) else [sorts]
    vs = [fresh("q", s, i) for s, i in sorts]
    return quant_from("forall", vs, f(*vs))


def exists(f, n=1):
    vs = [fresh("q") for _ in range(n)]
    return quant_from("exists", vs, f(*vs))


# enumerations k -> e(k), k < count: name -> (count of the term, condition an enumerated index satisfies, exact)
# exact: the enumeration is a bijection onto {w < N: cond(w)}; otherwise it is onto the values lam_body(w) with cond(w)
ENUM = {}


def _by_element(n, v, body):
    """v < n and v occurs only as the v-th element of an enumeration of {w < N: cond(w)}: quantify over w instead"""
    if v not in body.fv:
        return None
    cand = set(s for s in subterms(body) if s.op == "lam" and s.val[0] in ENUM and s.args[1] is v)
    if len(cand) != 1:
        return None
    s, = cand
    if v in s.args[0].fv or v in s.args[-1].fv:
        return None
    count, cond, value = ENUM[s.val[0]]
    if count(s) is not n:
        return None
    w = fresh("q")
    b = replace(body, {s: w}) if value is None else replace(body, {value(s, s): value(s, w)})
    if v in b.fv:
        return None
    return s.args[0], w, cond(s, w), b


def _by_pair(n, v, body):
    """the same for the pairs enumerated by sel2r/sel2c"""
    if v not in body.fv:
        return None
    cand = set(s for s in subterms(body) if s.op == "lam" and s.val[0] in ("sel2r", "sel2c") and s.args[2] is v)
    if not cand or len(cand) > 2:
        return None
    s = min(cand, key=lambda x: x.val[0])
    for x in cand:
        if x.args is not s.args and tuple(x.args) != tuple(s.args):
            return None
    if any(v in x.fv for x in (s.args[0], s.args[1], s.args[-1])) or sel2_count(s) is not n:
        return None
    a, b = fresh("q"), fresh("q")
    body = replace(body, {x: a if x.val[0] == "sel2r" else b for x in cand})
    if v in body.fv:
        return None
    return s.args[0], s.args[1], a, b, lam_body(s, a, b), body


def _split_at(op, n, w, body):
    """a body that cases on w < B (a concatenation): one quantifier per block"""
    for s in subterms(body):
        if s.op == "ite" and s.args[0].op == "lt" and w in s.args[0].fv and s.args[0].fv <= body.fv:
            c = s.args[0]
            B = add(w, neg(c.args[0])) if len(c.args) == 1 else None
            if B is None or w in B.fv or B.op not in ("var", "poly") or not B.isint:
                continue
            lo = replace(body, {c: TRUE})
            hi = subst(replace(body, {c: FALSE}), {w: add(w, B)})
            return [(band(le(ZERO, w), lt(w, B), lt(w, n)), lo), (band(le(ZERO, w), le(ZERO, add(w, B)), lt(add(w, B), n)), hi)]
    return None


def _quant_rng(op, n, v, body, depth=0):
    if depth < 6:
        r = _by_pair(n, v, body)
        if r is not None:
            N, M, a, b, c, q = r
            return _quant_rng(op, N, a, _quant_rng(op, M, b, band(c, q) if op == "exists" else implies(c, q), depth + 1), depth + 1)
        r = _by_element(n, v, body)
        if r is None and v in body.fv and any(x.op == "lam" and x.val[0] in ENUM and v in x.args[1].fv for x in subterms(body)):
            r = _by_element(n, v, subst(body, {v: add(n, num(-1), neg(v))}))     # enumerated backwards
        if r is not None:
            N, w, c, b = r
            return _quant_rng(op, N, w, band(c, b) if op == "exists" else implies(c, b), depth + 1)
    if op == "exists" and body.op == "and":
        # an equation A(v) == B of names: B replaces A(v) in the other conditions
        for e in body.args:
            if e.op == "seq" and e.args[0].sort == "S":
                for a, b in (e.args, e.args[::-1]):
                    if v in a.fv and v not in b.fv:
                        rest = band(*[replace(x, {a: b}) for x in body.args if x is not e])
                        if v not in rest.fv:
                            return band(rest, _quant_rng(op, n, v, e, depth + 1))
    g = band(le(ZERO, v), lt(v, n))
    return quant_from(op, [v], band(g, body) if op == "exists" else implies(g, body))


def exists_rng(n, f):
    """exists i in [0,n): f(i)"""
    v = fresh("q")
    return _quant_rng("exists", n, v, f(v))


def forall_rng(n, f):
    v = fresh("q")
    return _quant_rng("forall", n, v, f(v))


def open_q(t):
    L, bs = t.val
    vs = [fresh("q", s, i) for s, i in bs]
    body = subst(t.args[0], {bv(L + 1 + i, s, ii): v for i, (v, (s, ii)) in enumerate(zip(vs, bs))})
    return vs, body


# ---------------------------------------------------------------- finite sums
def mk_sum(n, f):
    v = fresh("s")
    return sum_over([n], [v], f(v))


def sum_over(ns, vs, body):
    for n, v in reversed(list(zip(ns, vs))):
        body = _sum1(n, v, body)
    return body


nested_sum = lambda ns, vs, body: sum_over(ns, vs, body)


def open_sum(t):
    L, k = t.val
    ns, b = t.args[:-1], t.args[-1]
    vs = [fresh("s") for _ in range(k)]
    return list(ns), vs, subst(b, {bv(L + 1 + i): v for i, v in enumerate(vs)})


def reflex(n, v, t):
    """t for v in [0,n): an existential that v itself satisfies is true"""
    if v not in t.fv:
        return t
    mp = {}
    for s in subterms(t):
        if s.op == "exists" and v in s.fv and len(s.val[1]) == 1:
            (w,), b = open_q(s)
            if w.sort != "N":
                continue
            b = subst(b, {w: v})
            g = (le(ZERO, v), lt(v, n))
            if b is TRUE or b in g or b.op == "and" and all(x in g for x in b.args):
                mp[s] = TRUE
    return replace(t, mp) if mp else t


def _sum1(n, v, body):
    """sum_{v in [0,n)} body, n>=0 assumed"""
    body = reflex(n, v, body)
    if n.op == "num":
        c = int(n.val)
        if c <= 0:
            return ZERO
        if c <= 3 or v not in body.fv:
            return add(*[subst(body, {v: num(i)}) for i in range(c)]) if v in body.fv else scale(body, c)
    out = []
    for m, c in _terms(body).items():
        out.append(scale(_sum_mono(n, v, m), c))
    return add(*out) if out else ZERO


def _solve_eq(p, v):
    """eq(p==0) linear in v with coef +-1 and v not elsewhere -> solution or None"""
    d = _terms(p)
    key = ((v, Fraction(1)),)
    c = d.get(key)
    if c not in (1, -1):
        return None
    rest = _frompoly({m: k for m, k in d.items() if m != key})
    if v in rest.fv:
        return None
    return scale(rest, -1 / c)


def _sum_mono(n, v, m):
    indep = [(a, e) for a, e in m if v not in a.fv]
    dep = [(a, e) for a, e in m if v in a.fv]
    pre = _frompoly({tuple(indep): Fraction(1)}) if indep else ONE
    # the range of v decides comparisons of v with its own bounds
    for a, e in list(dep):
        if a.op == "ind" and a.args[0].op == "le":
            p = a.args[0].args[0]
            if p.op == "poly" and len(p.val) <= 1 + len(_terms(n)) + 1:
                if p is neg(v) or p is add(sub(v, n), ONE) or p is sub(v, n):
                    dep = [x for x in dep if x[0] is not a]
                elif p is sub(n, v):
                    return ZERO
    if not dep:
        return mul(n, pre)
    if n.op == "msum" or n.op == "ind" or n.op == "poly" or True:
        # enumeration of a mask: sum over k<count(mask) of f(sel(k)) -> sum over i of [mask_i] f(i)
        r = _sum_sel(n, v, dep)
        if r is not None:
            return mul(pre, r)
    # Kronecker delta
    for j, (a, e) in enumerate(dep):
        if a.op == "ind" and a.args[0].op == "eq":
            s = _solve_eq(a.args[0].args[0], v)
            if s is not None and s.isint:
                rest = dep[:j] + dep[j + 1:]
                b = mul(*[power(x, y) for x, y in rest]) if rest else ONE
                b = subst(b, {v: s})
                return mul(pre, ind(band(le(ZERO, s), lt(s, n))), b)
    return mul(pre, _mk_msum([n], [v], dep))


TRI = {"triu_r": 0, "triu_c": 1, "tril_r": 0, "tril_c": 1}


def _tri_pos(kind):
    def rc(which):
        def h(n, k):
            if k.op == "app" and k.val[0] == kind + "_pos" and k.args[0] is n:
                return k.args[1 + which]
            return None
        return h

    def pos(n, i, j):
        if i.op == "app" and j.op == "app" and i.val[0] == kind + "_r" and j.val[0] == kind + "_c" and i.args[0] is n and j.args[0] is n and i.args[1] is j.args[1]:
            return i.args[1]
        return None
    APPSIMP[kind + "_r"] = rc(0)
    APPSIMP[kind + "_c"] = rc(1)
    APPSIMP[kind + "_pos"] = pos


_tri_pos("triu")
_tri_pos("tril")


def _sum_tri(n, v, dep):
    """sum over the packed triangle: k<tri(N), k only as row/column of the packing -> i,j<N with i<=j"""
    if n.op != "app" or n.val[0] != "tri":
        return None
    N = n.args[0]
    subs = {s for a, e in dep for s in subterms(a) if s.op == "app" and s.val[0] in TRI and s.args[1] is v}
    kinds = {s.val[0][:4] for s in subs}
    if len(kinds) != 1 or any(s.args[0] is not N for s in subs):
        return None
    kind, = kinds
    i, j = fresh("s"), fresh("s")
    mp = {s: (i, j)[TRI[s.val[0]]] for s in subs}
    nd = []
    for a, e in dep:
        x = replace(a, mp)
        if v in x.fv:
            return None
        nd.append(power(x, e))
    g = ind(le(i, j)) if kind == "triu" else ind(le(j, i))
    return sum_over([N, N], [i, j], mul(g, *nd))


def _sum_reshape(n, v, dep):
    """sum over k < P*Q of f(k // Q, k mod Q) -> sum over i<P, j<Q of f(i, j)"""
    fl = {s for a, e in dep for s in subterms(a) if s.op == "floor" and v in s.fv}
    if len(fl) != 1:
        return None
    s, = fl
    d = _terms(s.args[0])
    if len(d) != 1:
        return None
    (m, c), = d.items()
    Q = div(v, s.args[0])
    if v in Q.fv or not Q.isint or tfdiv(v, Q) is not s:
        return None
    P = div(n, Q)
    if not P.isint:
        return None
    i, j = fresh("s"), fresh("s")
    nd = []
    for a, e in dep:
        x = replace(a, {s: i})
        x = subst(x, {v: add(mul(i, Q), j)})
        nd.append(power(x, e))
    return sum_over([P, Q], [i, j], mul(*nd))


def _rule_half(ns, vs, factors):
    """sum_{i<=j} s(i,j), s symmetric -> (sum_ij s + sum_i s(i,i))/2; the same for i<j"""
    if len(vs) < 2:
        return None
    for k, (a, e) in enumerate(factors):
        if a.op != "ind" or a.args[0].op not in ("le", "lt"):
            continue
        d = _terms(a.args[0].args[0])
        if len(d) not in (2, 3):
            continue
        ats = [m for m in d if m]
        if len(ats) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in ats):
            continue
        x, y = ats[0][0][0], ats[1][0][0]
        if x not in vs or y not in vs or ns[vs.index(x)] is not ns[vs.index(y)]:
            continue
        if d[ats[0]] + d[ats[1]] != 0 or abs(d[ats[0]]) != 1:
            continue
        c0 = d.get((), 0)
        strict = a.args[0].op == "lt"
        # x - y + c0 <= 0 (or <0)
        lim = (0 if not strict else None)
        if c0 == 0:
            inc = not strict
        elif c0 == 1 and not strict:
            inc = False
        elif c0 == -1 and strict:
            inc = True
        else:
            continue
        rest = factors[:k] + factors[k + 1:]
        b = mul(*[power(p, q) for p, q in rest]) if rest else ONE
        z = fresh("s")
        sw = subst(subst(subst(b, {x: z}), {y: x}), {z: y})
        if sw is not b:
            continue
        full = sum_over(ns, vs, b)
        iy = vs.index(y)
        dg = sum_over(ns[:iy] + ns[iy + 1:], vs[:iy] + vs[iy + 1:], subst(b, {y: x}))
        return scale(add(full, dg) if inc else sub(full, dg), Fraction(1, 2))
    return None


def _sum_sel(n, v, dep):
    """n == count(mask) and v occurs only as sel(mask; v)"""
    r = _sum_tri(n, v, dep)
    if r is None:
        r = _sum_reshape(n, v, dep)
    if r is not None:
        return r
    sels = set()
    for a, e in dep:
        for s in subterms(a):
            if s.op == "lam" and s.val[0] in ("sel", "perm", "sperm") and s.args[1] is v:
                sels.add(s)
    if len(sels) != 1:
        return None
    s, = sels
    if s.val[0] == "sel":
        if sel_count(s) is not n:
            return None
    else:
        if s.args[0] is not n:
            return None
    w = fresh("s")
    nd = []
    for a, e in dep:
        x = replace(a, {s: w})
        if v in x.fv:
            return None
        nd.append(power(x, e))
    N = s.args[0]
    b = mul(*nd)
    if s.val[0] == "sel":
        b = mul(ind(lam_body(s, w)), b)
    return _sum1(N, w, b)


def sel_count(s):
    """the count term matching a sel lam: sum_i [mask(i)]"""
    w = fresh("s")
    return _sum1(s.args[0], w, ind(lam_body(s, w)))


def sel2_count(s):
    v, w = fresh("s"), fresh("s")
    return sum_over([s.args[0], s.args[1]], [v, w], ind(lam_body(s, v, w)))


def replace(t, mp):
    """replace arbitrary closed-enough subterms (not only vars)"""
    memo = {}

    def go(t):
        if t in mp:
            return mp[t]
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "poly":
            r = add(*[mul(num(c), *[power(go(a), e) for a, e in m]) for m, c in t.val])
        elif t.op in ("num", "var", "bv", "strconst", "true", "false"):
            r = t
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


ENUM["sel"] = (sel_count, lambda s, w: lam_body(s, w), None)
ENUM["perm"] = ENUM["sperm"] = (lambda s: s.args[0], lambda s, w: TRUE, None)
MATCH_RULES = [_rule_half]  # functions (ns, vs, factors) -> term or None


def _mk_msum(ns, vs, factors):
    """factors: list of (atom, exp), all depending on vs. merges nested msums, splits components, canonicalises"""
    ns, vs, factors = list(ns), list(vs), list(factors)
    changed = True
    while changed:
        changed = False
        for j, (a, e) in enumerate(factors):
            if a.op == "msum" and e.denominator == 1 and 1 <= e <= 3:
                ns2, vs2, b = open_sum(a)
                if any(x.fv & set(vs) for x in ns2):
                    continue
                tb = _terms(b)
                if len(tb) != 1:
                    continue
                (mb, cb), = tb.items()
                rest = factors[:j] + factors[j + 1:] + ([(a, e - 1)] if e > 1 else [])
                d = {}
                for x, y in rest + list(mb):
                    d[x] = d.get(x, 0) + y
                mm, extra = _clean_mono(d)
                if extra:
                    continue
                if cb != 1:
                    continue
                ns, vs, factors = ns + ns2, vs + vs2, list(mm)
                changed = True
                break
    if _contra(tuple(factors)):
        return ZERO
    # deltas that appear only after merging
    if len(vs) > 1:
        for j, (a, e) in enumerate(factors):
            if a.op == "ind" and a.args[0].op == "eq":
                for v, n in zip(vs, ns):
                    if v in a.fv:
                        s = _solve_eq(a.args[0].args[0], v)
                        if s is not None and s.isint:
                            rest = factors[:j] + factors[j + 1:]
                            b = subst(mul(*[power(x, y) for x, y in rest]) if rest else ONE, {v: s})
                            b = mul(ind(band(le(ZERO, s), lt(s, n))), b)
                            k = vs.index(v)
                            return sum_over(ns[:k] + ns[k + 1:], vs[:k] + vs[k + 1:], b)
    for rule in MATCH_RULES:
        r = rule(ns, vs, factors)
        if r is not None:
            return r
    # connected components
    comps = []
    vset = set(vs)
    left = list(factors)
    todo = list(vs)
    result = []
    while todo:
        v = todo[0]
        cv = {v}
        cf = []
        grow = True
        while grow:
            grow = False
            for fa in list(left):
                if fa[0].fv & cv:
                    left.remove(fa)
                    cf.append(fa)
                    new = (fa[0].fv & vset) - cv
                    cv |= new
                    grow = True
        order = [x for x in vs if x in cv]
        todo = [x for x in todo if x not in cv]
        comps.append(([ns[vs.index(x)] for x in order], order, cf))
    out = []
    for cns, cvs, cf in comps:
        if not cf:
            out.append(mul(*cns))
        else:
            out.append(_canon_msum(cns, cvs, cf))
    if left:
        out.append(_frompoly({_clean_mono(dict(left))[0]: Fraction(1)}))
    return mul(*out) if len(out) > 1 else out[0]


_MARKS = [None]


def _marks():
    if _MARKS[0] is None:
        _MARKS[0] = [_mk("var", (), ("#m%d" % i, 0), "N", isint=True) for i in range(64)]
    return _MARKS[0]


def _canon_orders(ns, vs, factors):
    """orders of the bound variables to compare for the canonical form: all when there are few, otherwise those
    compatible with an invariant colouring (iterated refinement on the occurrences of each variable)"""
    k = len(vs)
    if k <= 3:
        return itertools.permutations(range(k))
    if k > 12:
        raise TooBig("too many nested sums")
    mk_ = _marks()
    col = [0] * k
    keys = sorted({n.uid for n in ns})
    col = [keys.index(n.uid) for n in ns]
    occ = [[(a, e, [w for w in range(k) if vs[w] in a.fv]) for a, e in factors if vs[v] in a.fv] for v in range(k)]

    def refine(col):
        while True:
            sig = []
            for v in range(k):
                own = []
                for a, e, ws in occ[v]:
                    t = subst(a, {vs[w]: (mk_[0] if w == v else mk_[1 + col[w]]) for w in ws})
                    own.append((t.uid, e))
                sig.append((col[v], tuple(sorted(own))))
            ks = sorted(set(sig))
            new = [ks.index(x) for x in sig]
            if len(ks) == len(set(col)):
                return new
            col = new
    out = []

    def go(col):
        ks = sorted(set(col))
        col = refine([ks.index(x) for x in col])
        cells = {}
        for v in range(k):
            cells.setdefault(col[v], []).append(v)
        big = [c for c in sorted(cells) if len(cells[c]) > 1]
        if not big:
            out.append(sorted(range(k), key=lambda v: col[v]))
            if len(out) > 5000:
                raise TooBig("too many nested sums")
            return
        c = big[0]
        for v in cells[c]:
            # individualise v
            go([2 * x + (1 if (x == c and w != v) else 0) for w, x in enumerate(col)])
    go(col)
    return out


def _canon_msum(ns, vs, factors):
    body = _frompoly({tuple(sorted(factors, key=lambda ae: (ae[0].uid, ae[1]))): Fraction(1)})
    k = len(vs)
    L = body.lvl
    isint = body.isint
    pos = body.pos
    best = None
    for perm in _canon_orders(ns, vs, factors):
        b = subst(body, {vs[p]: bv(L + 1 + i) for i, p in enumerate(perm)})
        pn = tuple(ns[p] for p in perm)
        key = (tuple(x.uid for x in pn), b.uid)
        if best is None or key < best[0]:
            best = (key, pn, b)
    _, pn, b = best
    t = _mk("msum", pn + (b,), (L, k), "N", isint=isint, pos=pos)
    _fixbinder(t, b, [bv(L + 1 + i) for i in range(k)], L + k, pn)
    return t


# ---------------------------------------------------------------- printing
def show(t, d=0):
    op = t.op
    if op == "num":
        return str(t.val)
    if op == "var":
        return t.val[0]
    if op == "bv":
        return "b%d" % t.val[0]
    if op == "strconst":
        return repr(t.val)
    if op == "poly":
        s = []
        for m, c in t.val:
            fs = []
            for a, e in m:
                fs.append(show(a) if e == 1 else "%s^%s" % (show(a), e))
            body = "*".join(fs)
            if c == 1 and body:
                s.append(body)
            elif c == -1 and body:
                s.append("-" + body)
            else:
                s.append("%s%s" % (c, "*" + body if body else ""))
        return "(" + " + ".join(s) + ")"
    if op == "app":
        if not t.args:
            return "%s" % (t.val[0],)
        return "%s(%s)" % (t.val[0], ", ".join(show(a) for a in t.args))
    if op == "ind":
        return "[%s]" % show(t.args[0])
    if op == "grp":
        return "{%s}" % show(t.args[0])
    if op == "msum":
        L, k = t.val
        return "SUM(%s. %s)" % (", ".join("b%d<%s" % (L + 1 + i, show(t.args[i])) for i in range(k)), show(t.args[-1]))
    if op == "lam":
        name, k, L, bs = t.val
        return "%s(%s; \\%s. %s)" % (name, ", ".join(show(a) for a in t.args[:-1]), " ".join("b%d" % (L + 1 + i) for i in range(k)), show(t.args[-1]))
    if op in ("forall", "exists"):
        L, bs = t.val
        return "%s %s. %s" % (op, " ".join("b%d" % (L + 1 + i) for i in range(len(bs))), show(t.args[0]))
    if op == "le":
        return "(%s <= 0)" % show(t.args[0])
    if op == "lt":
        return "(%s < 0)" % show(t.args[0])
    if op == "eq":
        return "(%s == 0)" % show(t.args[0])
    if op == "seq":
        return "(%s == %s)" % (show(t.args[0]), show(t.args[1]))
    return "%s(%s)" % (op, ", ".join(show(a) for a in t.args))
