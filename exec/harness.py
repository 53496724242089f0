"""Executable contracts: the same pre/postconditions as /verif/contracts, evaluated on the real code.
Used (1) to replay a failed obligation on a concrete input, (2) as the bounded stand-in for obligations
the prover leaves open, (3) to cross-check the assumed library contracts. Never counted as proof."""
import os
import sys
import ast
import time
import json
import zlib
import signal
import random
import tempfile
import shutil
import traceback
import warnings

REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)
import numpy as np

np.seterr(all="ignore")
CASES = {}     # key -> (prop, fn, targets, weight)


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def case(prop, key, targets=(), weight=1.0):
    def d(fn):
        CASES[key] = dict(prop=prop, fn=fn, targets=list(targets), weight=weight, key=key)
        return fn
    return d


def check(cond, msg):
    if isinstance(cond, np.ndarray):
        cond = bool(cond.all())
    if not cond:
        raise Violation(msg)


def same(a, b, msg):
    """exact equality of arrays / lists / scalars (shape included)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        ok = np.array_equal(a, b, equal_nan=True)
    else:
        ok = bool(np.all(a == b))
    if not ok:
        raise Violation("%s: got %s expected %s" % (msg, str(a.tolist())[:300], str(b.tolist())[:300]))


def close(a, b, msg, tol=1e-6, atol=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    scale = np.maximum(1.0, np.abs(b)) if atol is None else 1.0
    with np.errstate(all="ignore"):
        d = np.abs(a - b) / scale
        d = np.where(a == b, 0, d)
    d = np.where(np.isnan(a) & np.isnan(b), 0, d)
    if not np.all(d <= (tol if atol is None else atol)):
        k = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        raise Violation("%s: differs at %s: got %r expected %r" % (msg, tuple(int(x) for x in k), float(a[k]), float(b[k])))


def raises(fn, msg, exc=Exception):
    try:
        fn()
    except exc:
        return
    raise Violation(msg)


class R:
    """seeded generator of inputs; constants found in the code under contract are used as sizes and values"""

    def __init__(self, seed, key, it, consts, level):
        self.np = np.random.RandomState(zlib.crc32(("%d/%s/%d" % (seed, key, it)).encode()) & 0x7FFFFFFF)
        self.py = random.Random("%d/%s/%d" % (seed, key, it))
        self.ints, self.floats, self.strs = consts
        self.it = it
        self.level = level
        self._tmp = None

    def size(self, lo=0, hi=8):
        p = self.py.random()
        if p < 0.12:
            return lo
        if p < 0.22 and self.ints:
            v = self.py.choice(self.ints) + self.py.choice([-1, 0, 0, 1])
            if lo <= v <= 300:
                return v if v <= max(hi * 12, 64) else self.py.randint(lo, hi)
        if p < 0.32:
            return self.py.randint(lo, max(lo, hi * 4))
        return self.py.randint(lo, max(lo, hi))

    def int(self, lo, hi):
        p = self.py.random()
        if p < 0.1:
            return lo
        if p < 0.2:
            return hi
        if p < 0.35 and self.ints:
            v = self.py.choice(self.ints) + self.py.choice([-1, 0, 0, 1])
            if lo <= v <= hi:
                return v
        return self.py.randint(lo, hi)

    def bool(self, p=0.5):
        return self.py.random() < p

    def pick(self, *opts):
        return self.py.choice(list(opts))

    def real(self, scale=3.0):
        p = self.py.random()
        if p < 0.1 and self.floats:
            return float(self.py.choice(self.floats))
        if p < 0.2:
            return float(self.py.randint(-3, 3))
        return float(self.np.randn() * scale)

    def pos(self, lo=0.1, hi=5.0):
        return float(self.np.uniform(lo, hi))

    def arr(self, *shape, scale=3.0, ties=None):
        a = self.np.randn(*shape) * scale
        t = self.bool(0.25) if ties is None else ties
        if t:
            a = np.round(a)
        return a

    def posarr(self, *shape, lo=0.2, hi=4.0):
        return self.np.uniform(lo, hi, size=shape)

    def mask(self, *shape, p=None):
        p = self.pick(0.1, 0.5, 0.9) if p is None else p
        return self.np.rand(*shape) < p

    def ints_arr(self, lo, hi, *shape):
        return self.np.randint(lo, hi + 1, size=shape)

    def perm(self, n):
        return self.np.permutation(n)

    def spd(self, d, cond=1.0):
        a = self.np.randn(d, d + 2)
        s = a @ a.T / (d + 2) + cond * 0.3 * np.eye(d)
        return s * self.pos(0.3, 3.0)

    def names(self, n, prefix=None, dup=False):
        p = self.pick("s", "utt-", "a", "spk_1-", "m") if prefix is None else prefix
        pool = self.np.permutation(max(4 * n, 10))[:n]
        out = [p + str(x) for x in pool]
        if self.bool(0.3):
            out = [o + self.pick("", "b", "-x") for o in out]
            if len(set(out)) != len(out):
                out = [p + str(x) for x in pool]
        if dup and n:
            out = [self.py.choice(out) if self.bool(0.5) else o for o in out]
        return out

    def labels(self, n, k):
        return self.np.randint(0, max(k, 1), size=n)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vcx")
        return self._tmp

    def done(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)


def mine(targets):
    """integer, float and string literals of the functions/modules under contract"""
    ints, floats, strs = set(), set(), set()
    for t in targets:
        mod = t.split(":")[0]
        fn = os.path.join(REPO, *mod.split(".")) + ".py"
        try:
            tree = ast.parse(open(fn, encoding="utf8").read())
        except Exception:
            continue
        want = t.split(":")[1].split(".")[-1] if ":" in t else None
        nodes = [tree]
        if want:
            found = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == want]
            nodes = found or [tree]
        for nd in nodes:
            for n in ast.walk(nd):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, bool) or v is None:
                        continue
                    if isinstance(v, int) and abs(v) < 10 ** 6:
                        ints.add(v)
                    elif isinstance(v, float) and abs(v) < 1e6:
                        floats.add(v)
                        if v == int(v):
                            ints.add(int(v))
                    elif isinstance(v, str) and 0 < len(v) < 12:
                        strs.add(v)
    return sorted(ints), sorted(floats), sorted(strs)


def run_case(key, seed, it, level, consts, tlimit=60):
    """-> None if the postconditions held, else a message"""
    c = CASES[key]
    r = R(seed, key, it, consts, level)

    def onalarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(tlimit)
    np.random.seed(it % 1000)
    random.seed(it)
    try:
        c["fn"](r)
        return None
    except Skip:
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return "no result within %d s" % tlimit
    except SystemExit:
        return "the code called sys.exit"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        site = [f for f in tb if f.filename.startswith(REPO)]
        where = ("%s:%d %s" % (os.path.relpath(site[-1].filename, REPO), site[-1].lineno, site[-1].name)) if site else "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return "%s: %s (at %s)" % (type(e).__name__, str(e)[:300], where)
    finally:
        signal.alarm(0)
        r.done()


def load(prop):
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    fs = [f for f in sorted(os.listdir(here)) if f.startswith(prop) and f.endswith(".py")]
    for f in fs:
        __import__(f[:-3])


def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--budget", type=float, default=20)
    p.add_argument("--keys", default="")
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--stride", type=int, default=1)
    p.add_argument("--maxit", type=int, default=1000000)
    p.add_argument("--one", type=int, default=None)
    p.add_argument("--all", action="store_true")
    p.add_argument("--replay", default=None)
    a = p.parse_args()
    if a.replay:
        rp = json.load(open(a.replay))
        load(rp["property"])
        if "key" not in rp or rp.get("iteration") is None:
            print("replay file names a failed obligation without a failing input")
            sys.exit(2)
        c = CASES[rp["key"]]
        m = run_case(rp["key"], rp["seed"], rp["iteration"], 0, mine_all(c))
        print("replay of %s: %s" % (rp["key"], m or "no violation"))
        sys.exit(1 if m else 0)
    load(a.prop)
    keys = [k for k in CASES if CASES[k]["prop"] == a.prop]
    if a.keys:
        want = a.keys.split(",")
        keys = [k for k in keys if k in want] or keys
    t0 = time.time()
    stats = {k: 0 for k in keys}
    fails = []
    consts = {k: mine_all(CASES[k]) for k in keys}
    its = {k: a.start for k in keys}
    live = list(keys)
    spent = {k: 0.0 for k in keys}
    while live and (time.time() - t0 < a.budget or min(stats[k] for k in live) < 1):
        if a.one is not None:
            k = live[0]
            its[k] = a.one
        else:
            k = min(live, key=lambda k: (spent[k] + 1e-3 * stats[k]) / CASES[k]["weight"])
        t1 = time.time()
        m = run_case(k, a.seed, its[k], 0, consts[k])
        spent[k] += time.time() - t1
        stats[k] += 1
        if m:
            fails.append(dict(key=k, seed=a.seed, iteration=its[k], message=m))
            if not a.all or sum(f["key"] == k for f in fails) >= 25:
                live.remove(k)
        its[k] += a.stride
        if its[k] >= a.maxit and k in live:
            live.remove(k)
        if a.one is not None:
            break
        if time.time() - t0 > a.budget * 3 + 120:
            break
    print("RESULT " + json.dumps(dict(stats=stats, fails=fails, wall=time.time() - t0, spent=spent)))


def mine_all(c):
    return mine(c["targets"])


if __name__ == "__main__":
    sys.modules["harness"] = sys.modules["__main__"]
    main()
