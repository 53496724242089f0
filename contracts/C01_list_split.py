from vc import *

LU = "hyperion.utils.list_utils"


@contract("C01", "list_utils.split_list", targets=["hyperion.utils.list_utils:split_list"])
def c_split_list(vc):
    L = vc.mod(LU)
    n = vc.int("n", lo=0)
    P = vc.int("P", lo=1)
    i = vc.int("i", lo=1)
    vc.assume(i <= P)
    a = vc.array("a", (n,), "S")
    s = vc.snap(a)
    part, loc = L.split_list(a, i, P)
    lo = mk(tfdiv(lift((i - 1) * n), lift(P)))
    hi = mk(tfdiv(lift(i * n), lift(P)))
    # part i is exactly the contiguous block [floor((i-1)n/P), floor(i n/P))
    vc.ensure_eq("length", part.vlen(), hi - lo)
    vc.ensure_eq("indices", loc, SArr((lift(hi - lo),), "i", lambda k: add(lift(lo), k)))
    vc.ensure_eq("elements", part, SArr((lift(hi - lo),), "S", lambda k: a.at(add(lift(lo), k))))
    vc.unchanged("frame", s)
    # consecutive parts tile: first part starts at 0, last ends at n, part i+1 starts where i ends
    if i == 1:
        vc.ensure_eq("first-starts-at-0", lo, 0)
    if i == P:
        vc.ensure_eq("last-ends-at-n", hi, n)
    if i < P:
        part2, loc2 = L.split_list(a, i + 1, P)
        lo2 = mk(tfdiv(lift(i * n), lift(P)))
        vc.ensure_eq("adjacent", lo2, hi)
        vc.ensure_eq("next-indices", loc2, SArr((lift(part2.vlen()),), "i", lambda k: add(lift(hi), k)))
    vc.ensure("ordered", lo <= hi)


@contract("C01", "list_utils.split_list_group_by_key", targets=["hyperion.utils.list_utils:split_list_group_by_key"], timeout=20)
def c_split_group(vc):
    L = vc.mod(LU)
    n = vc.int("n", lo=1)
    P = vc.int("P", lo=1)
    i = vc.int("i", lo=1)
    vc.assume(i <= P)
    a = vc.array("a", (n,), "S")
    key = vc.array("key", (n,), "S")
    part, loc = L.split_list_group_by_key(a, i, P, key)
    j = vc.idx("j", loc.vlen())
    k = vc.idx("k", loc.vlen())
    vc.ensure_eq("elements", part[j], a[loc[j]])
    e = vc.idx("e", n)
    f = vc.idx("f", n)
    inpart = lambda x: vc.exists(loc.vlen(), lambda z: eq(lift(loc[z]), lift(x)))
    vc.ensure("groups together", implies(band(lift(key[e] == key[f]), inpart(e)), inpart(f)))
