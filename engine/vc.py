"""Contract harness: a contract function receives a VC object, builds symbolic arguments under a
precondition, runs the real function of /repo (through loader) and states postconditions.
Every path of the run generates obligations; each is discharged for all values."""
import os
import sys
import time
import traceback
from sym import *
import sym
from terms import *
import terms as tm
import solve
import loader
import shim_np
import symio

CONTRACTS = {}      # property -> list of (key, fn, meta)


def contract(prop, key, targets=(), note="", timeout=120, replay=None):
    def d(fn):
        CONTRACTS.setdefault(prop, []).append(dict(key=key, fn=fn, targets=list(targets), note=note, timeout=timeout, replay=replay or key))
        return fn
    return d


class Obl:
    """obligation (aggregated over paths by name)"""

    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.paths = 0
        self.backends = set()
        self.notes = []
        self.exact = True
        self.time = 0.0

    def add(self, r, exact=True):
        self.paths += 1
        self.time += r.time
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if r.status == "proved":
            self.backends.add(r.backend)
        else:
            self.notes.append(r.note[:2000])
            if not exact:
                self.exact = False
        if rank[r.status] > rank[self.status]:
            self.status = r.status


class VC:
    def __init__(self, key, timeout, prove_timeout):
        self.key = key
        self.obls = {}
        self.timeout = timeout
        self.pt = prove_timeout
        self.reach = 0
        self.pre_sat = None

    # ------------------------------------------------------ symbolic inputs
    def mod(self, name):
        return loader.load(name)

    def int(self, name, lo=None, hi=None):
        v = var(name, "N", True)
        if lo is not None:
            ENG.assume(ge(v, lift(lo)))
        if hi is not None:
            ENG.assume(le(v, lift(hi)))
        return SV(v)

    def real(self, name, pos=False, lo=None):
        v = var(name, "N", False, pos)
        if pos:
            ENG.assume(gt(v, ZERO))
        if lo is not None:
            ENG.assume(ge(v, lift(lo)))
        return SV(v)

    def bool(self, name):
        return SV(var(name, "B"))

    def str(self, name):
        return SV(var(name, "S"))

    def case(self, name):
        """nondeterministic boolean, decided concretely (both explored)"""
        return ENG.branch(var("case_" + name, "B"))

    def choose(self, name, options):
        for k, o in enumerate(options[:-1]):
            if ENG.branch(var("choose_%s_%d" % (name, k), "B")):
                return o
        return options[-1]

    def array(self, name, shape, kind="f", pos=False):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        sort = {"b": "B", "S": "S"}.get(kind, "N")
        ts = [lift(d) for d in shape]
        return SArr(ts, kind, lambda *i: app(name, *i, sort=sort, isint=kind in "ib" and sort == "N", pos=pos), name=name)

    def spd(self, name, n):
        """symmetric (positive definite) matrix"""
        def h(i, j):
            if i.uid > j.uid:
                return tm._mk("app", (j, i), (name,), "N")
            return None
        tm.APPSIMP[name] = h
        return SArr((lift(n), lift(n)), "f", lambda i, j: app(name, i, j), name=name)

    def strs(self, name, n, distinct=True):
        a = self.array(name, (n,), "S")
        if distinct:
            f = name
            self.axiom_distinct(a)
        return a

    def axiom_distinct(self, a):
        i, j = fresh("di"), fresh("dj")
        n = a._shape[0]
        ENG.assume(tm.quant_from("forall", [i, j], implies(band(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), eq(a.at(i), a.at(j))), eq(i, j))))

    def sorted_strict(self, a):
        i, j = fresh("di"), fresh("dj")
        n = a._shape[0]
        ENG.assume(tm.quant_from("forall", [i, j], implies(band(le(ZERO, i), lt(i, j), lt(j, n)), solve.key_lt(a.at(i), a.at(j)))))

    def list(self, name, n, kind="S"):
        a = self.array(name, (n,), kind)
        return VList.symbolic(lift(n), lambda i: mk(a.at(i)))

    def forall(self, n, f):
        return tm.forall_rng(lift(n), lambda i: lift(f(SV(i))))

    def exists(self, n, f):
        return tm.exists_rng(lift(n), lambda i: lift(f(SV(i))))

    def sum(self, n, f):
        v = fresh("s")
        return mk(sum_over([lift(n)], [v], numt(f(SV(v)))))

    def idx(self, name, n):
        """arbitrary index 0 <= i < n"""
        v = fresh(name)
        ENG.assume(le(ZERO, v))
        ENG.assume(lt(v, lift(n)))
        return SV(v)

    def assume(self, t):
        if isinstance(t, (SArr,)):
            t = t.all()
        ENG.assume(lift(t))

    def fn(self, name, *args, sort="N", isint=False, pos=False):
        return mk(app(name, *[lift(a) for a in args], sort=sort, isint=isint, pos=pos))

    # ------------------------------------------------------ postconditions
    def ensure(self, name, goal):
        ENG.check_time()
        if isinstance(goal, SArr):
            goal = goal.all()
        goal = lift(goal)
        o = self.obls.setdefault(name, Obl(name))
        solve.LAST_EXACT = True
        r = solve.prove(list(ENG.facts), goal, self.pt)
        o.add(r, getattr(solve, "LAST_EXACT", True))
        if r.status == "proved":
            ENG.assume(goal) if goal.op not in ("forall", "eq") else None
        if DEBUG and r.status != "proved":
            print("   !! %s/%s %s" % (self.key, name, r.status))
            for f in ENG.facts[-25:]:
                print("        fact:", show(f)[:300])
            print("       ", r.note[:1500])
            if r.model is not None:
                print("        model:", str(r.model)[:1500])
        return r.status == "proved"

    def ensure_eq(self, name, a, b):
        """equality of values: arrays (shape and all elements), lists, tuples, strings, scalars"""
        a, b = self._norm(a), self._norm(b)
        if isinstance(a, SArr) or isinstance(b, SArr):
            if isinstance(a, VList) and not isinstance(a, SArr):
                a = a.as_array()
            if isinstance(b, VList):
                b = b.as_array()
            a, b = asarr(a), asarr(b)
            if a.ndim != b.ndim:
                return self.ensure(name + ".ndim", FALSE)
            ok = True
            for k, (x, y) in enumerate(zip(a._shape, b._shape)):
                if x is not y:
                    ok &= self.ensure(name + ".shape", eq(x, y))
            if not ok:
                return False
            base = list(ENG.facts)
            idx = []
            for d in a._shape:
                i = fresh("i")
                ENG.assume(le(ZERO, i))
                ENG.assume(lt(i, d))
                idx.append(i)
            x, y = a.at(*idx), b.at(*idx)
            if x.sort != y.sort:
                if {x.sort, y.sort} <= {"N", "B"}:
                    x, y = (ind(x) if x.sort == "B" else x), (ind(y) if y.sort == "B" else y)
                else:
                    return self.ensure(name + ".type", FALSE)
            r = self.ensure(name, eq(x, y))
            ENG.facts = base
            return r
        if isinstance(a, VList) and isinstance(b, VList):
            if a.sym is None and b.sym is None:
                a, b = list(list.__iter__(a)), list(list.__iter__(b))
            else:
                na, fa = a.to_sym()
                nb, fb = b.to_sym()
                if na is not nb:
                    if not self.ensure(name + ".len", eq(na, nb)):
                        return False
                base = list(ENG.facts)
                i = fresh("i")
                ENG.assume(le(ZERO, i))
                ENG.assume(lt(i, na))
                r = self.ensure_eq(name, fa(i), fb(i))
                ENG.facts = base
                return r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self.ensure(name + ".len", FALSE)
            ok = True
            for x, y in zip(a, b):
                ok &= self.ensure_eq(name, x, y)
            if not a:
                self.ensure(name, TRUE)
            return ok
        if isinstance(a, Rope) or isinstance(b, Rope):
            ra = a if isinstance(a, Rope) else Rope([a])
            rb = b if isinstance(b, Rope) else Rope([b])
            e = ra.same(rb)
            if e is True:
                return self.ensure(name, TRUE)
        if a is None or b is None:
            return self.ensure(name, TRUE if a is b else FALSE)
        x, y = lift(a), lift(b)
        if x.sort != y.sort:
            if {x.sort, y.sort} <= {"N", "B"}:
                x, y = (ind(x) if x.sort == "B" else x), (ind(y) if y.sort == "B" else y)
            else:
                return self.ensure(name + ".type", FALSE)
        return self.ensure(name, iff(x, y) if x.sort == "B" else eq(x, y))

    def _norm(self, v):
        if isinstance(v, SArr) and v.ndim == 0:
            return mk(v.at())
        return v

    def ensure_shape(self, name, a, shape):
        if len(a._shape) != len(shape):
            return self.ensure(name, FALSE)
        return self.ensure(name, band(*[eq(x, lift(y)) for x, y in zip(a._shape, shape)]))

    def same(self, name, a, b):
        """the two values are equal: arrays element by element, else scalars or identical objects"""
        if a is b:
            return self.ensure(name, TRUE)
        if isinstance(a, VList) and a.sym is None and isinstance(b, SArr) and b.ndim == 1:
            a = shim_np.asarr(a)
        if isinstance(a, SArr) and isinstance(b, SArr):
            self.ensure_shape(name, a, [mk(x) for x in b._shape])
            if len(a._shape) == len(b._shape):
                i = [fresh("q") for _ in b._shape]
                for k, n in zip(i, b._shape):
                    ENG.assume(band(le(ZERO, k), lt(k, n)))
                self.ensure_eq(name, mk(a.at(*i)), mk(b.at(*i)))
            return
        if isinstance(a, (SV, int, float, bool)) and isinstance(b, (SV, int, float, bool)):
            return self.ensure_eq(name, a if isinstance(a, SV) else mk(lift(a)), b if isinstance(b, SV) else mk(lift(b)))
        return self.ensure(name, TRUE if type(a) is type(b) and not isinstance(a, (SArr, SV)) and a == b else FALSE)

    def telescope(self, f):
        """a prefix function: sums over the passes of a loop whose joint body is f(t+1)-f(t) are f(M)-f(0);
        the difference is proved for every pass, the hint itself is not trusted"""
        solve.HINTS.append(f)

    def unchanged(self, name, arrays):
        """frame: the given (array, snapshot) pairs are unchanged"""
        for a, s in arrays:
            self.ensure_eq(name, a, s)

    def snap(self, *arrs):
        return [(a, a.copy()) for a in arrs]

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except (Unsupported, tm.TooBig):
            raise
        except exc:
            self.obls.setdefault(name, Obl(name)).add(solve.Result("proved", "path"))
            return True
        return self.ensure(name, FALSE)

    # -------------------------------------------------- modular use of callee contracts
    def patch(self, obj, name, val):
        old = obj.__dict__.get(name, loader.UNDEF)
        self._undo.append((obj, name, old))
        setattr(obj, name, val)


DEBUG = bool(os.environ.get("VC_DEBUG"))


def run_contract(c, prove_timeout=10000, budget=None):
    """explore all paths; returns dict"""
    t0 = time.time()
    vc = VC(c["key"], c["timeout"], prove_timeout)
    ENG.reset()
    ENG.deadline = time.process_time() + (budget or c["timeout"])
    work = [[]]
    npaths = 0
    err = None
    from sym import Budget
    sat = 0
    while work:
        ENG.decisions = work.pop()
        ENG.pos = 0
        ENG.pending = []
        ENG.conds = []
        ENG.facts = []
        ENG.journal = []
        ENG.marks = []
        symio.FILES.clear()
        vc._undo = []
        state = None
        reset_fresh()
        solve.HINTS.clear()
        try:
            try:
                c["fn"](vc)
                npaths += 1
            except PathEnd:
                pass
            except (Unsupported, tm.TooBig, RecursionError, sym.z3exc, AssertionFailed) as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:300])
                if DEBUG:
                    traceback.print_exc(limit=-int(os.environ.get('VC_TB','8')))
                break
            except Exception as e:
                npaths += 1
                # an exception of the code under contract escapes: the path must be infeasible
                tb = traceback.extract_tb(e.__traceback__)
                site = [f for f in tb if loader.REPO in f.filename]
                where = "%s:%s" % (os.path.basename(site[-1].filename), site[-1].name) if site else "harness"
                inner = tb[-1]
                if not site or is_internal(e, tb):
                    err = "internal %s: %s at %s:%d" % (type(e).__name__, str(e)[:200], inner.filename, inner.lineno)
                    if DEBUG:
                        traceback.print_exc(limit=-8)
                    break
                o = vc.obls.setdefault("no-exception", Obl("no-exception"))
                r = solve.prove(list(ENG.facts), FALSE, prove_timeout)
                r.note = "%s: %s raised in %s; %s" % (type(e).__name__, str(e)[:200], where, r.note)
                o.add(r, True)
                if DEBUG and r.status != "proved":
                    print("   !! exception", r.note[:500])
                    for f in ENG.facts[-25:]:
                        print("        fact:", show(f)[:300])
                    traceback.print_exc(limit=-6)
        finally:
            for obj, name, old in reversed(vc._undo):
                if old is loader.UNDEF:
                    try:
                        delattr(obj, name)
                    except AttributeError:
                        pass
                else:
                    setattr(obj, name, old)
        # vacuity: the facts of this path must be satisfiable
        if npaths and sat == 0:
            st, _, _ = solve.z3_check(list(ENG.facts), FALSE, 3000)if False else sat_check(ENG.facts)
            if st != "unsat":
                sat += 1
        work.extend(ENG.pending)
        if time.process_time() > ENG.deadline:
            err = "time budget exhausted"
            break
    if npaths and sat == 0 and err is None:
        err = "vacuous: no satisfiable path"
    if not vc.obls and err is None:
        err = "no obligation generated"
    return dict(key=c["key"], obls=vc.obls, paths=npaths, error=err, time=time.time() - t0, notes=sorted(ENG.notes))


class AssertionFailed(Exception):
    pass


def is_internal(e, tb):
    """exception caused by the engine (missing feature) rather than by the code under contract"""
    last = tb[-1].filename
    here = os.path.dirname(os.path.abspath(__file__))
    if last.startswith(os.path.join(os.path.dirname(here), "contracts")):
        return True     # a stub of the contract was used in a way it does not describe
    if isinstance(e, (AttributeError, TypeError, KeyError, IndexError, NameError, AssertionError, NotImplementedError)) and last.startswith(here):
        if isinstance(e, (IndexError, KeyError, AssertionError)) and getattr(e, "vc_user", False):
            return False
        if isinstance(e, AssertionError):
            return True
        if isinstance(e, (IndexError, KeyError)) and e.args and isinstance(e.args[0], str):
            return False
        if isinstance(e, TypeError) and "vc:" in str(e):
            return False
        return True
    if isinstance(e, AttributeError) and last.startswith(loader.REPO):
        # attribute missing on one of our stand-ins
        o = getattr(e, "obj", None)
        if isinstance(o, (SV, SArr, VList, Rope, loader.VDict, loader.VSet, SymRange, shim_np.Fn)) or (o is not None and (type(o).__module__ in ("sym", "loader", "shim_np", "symio", "types") or "contracts" in type(o).__module__ or getattr(sys.modules.get(type(o).__module__), "__file__", "").startswith(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")))):
            return True
    if isinstance(e, TypeError) and last.startswith(loader.REPO):
        return True
    return False


def sat_check(facts):
    r = solve.z3_check(list(facts), TRUE, 3000)
    return r[0], None, None


def reset_fresh():
    """restart the fresh-name counter so that replayed paths create identical terms"""
    import itertools
    tm._fresh = itertools.count()
    for m in (loader, sym, shim_np, symio):
        if hasattr(m, "_fresh"):
            m._fresh = tm._fresh


def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("props", nargs="*")
    p.add_argument("-k", default=None)
    p.add_argument("-t", type=int, default=10000)
    a = p.parse_args()
    load_contracts(a.props)
    tot = 0
    for prop in sorted(CONTRACTS):
        if a.props and prop not in a.props:
            continue
        for c in CONTRACTS[prop]:
            if a.k and a.k not in c["key"]:
                continue
            r = run_contract(c, a.t)
            n = len(r["obls"])
            np_ = sum(o.status == "proved" for o in r["obls"].values())
            print("%s %-45s paths=%d obl=%d proved=%d %.1fs %s" % (prop, c["key"], r["paths"], n, np_, r["time"], r["error"] or ""), flush=True)
            for o in r["obls"].values():
                if o.status != "proved":
                    print("     %s: %s %s" % (o.name, o.status, o.notes[0][:300] if o.notes else ""), flush=True)


def load_contracts(props=()):
    import importlib.util
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f[0] == "C" and (not props or f.split("_")[0].split(".")[0] in props):
            __import__(f[:-3])


sys.modules["vc"] = sys.modules[__name__]
if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    main()
