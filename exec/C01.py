from harness import *
from hyperion.utils import list_utils as L

LU = "hyperion.utils.list_utils"


@case("C01", "list_utils.split_list", targets=[LU + ":split_list"])
def k_split_list(r):
    n, P = r.size(0, 12), r.size(1, 6)
    if r.bool(0.02):
        n, P = int(10 ** r.np.uniform(2, 6.5)), r.int(1, 40)
        a = np.arange(n)
    elif r.bool(0.2):
        a = r.arr(n)
    else:
        a = np.array(r.names(n)) if r.bool() else r.names(n)
    a0 = np.array(a)
    got, gl = [], []
    for i in range(1, P + 1):
        part, loc = L.split_list(a, i, P)
        lo, hi = ((i - 1) * n) // P, (i * n) // P
        same(loc, np.arange(lo, hi), "indices of part %d/%d of %d" % (i, P, n))
        same(part, a0[lo:hi], "elements of part %d/%d" % (i, P))
        gl.append(loc)
    same(np.concatenate(gl), np.arange(n), "parts tile the list")
    check(np.array_equal(np.asarray(a), a0), "input list modified")


@case("C01", "list_utils.split_list_group_by_key", targets=[LU + ":split_list_group_by_key"])
def k_split_group(r):
    n, P = r.size(1, 12), r.size(1, 6)
    a = np.array(r.names(n, dup=r.bool(0.3)))
    mode = r.pick("none", "str", "int")
    key = None if mode == "none" else (np.array(["k%d" % x for x in r.labels(n, r.size(1, 6))]) if mode == "str" else r.labels(n, r.size(1, 6)))
    if key is not None and r.bool(0.3):
        key = list(key)
    kk = a if key is None else np.asarray(key)
    where = {}
    seen = []
    for i in range(1, P + 1):
        part, loc = L.split_list_group_by_key(a, i, P, key)
        same(part, a[loc], "elements of part %d" % i)
        for e in loc:
            check(where.setdefault(kk[e], i) == i, "group %s split over parts" % kk[e])
        seen += list(loc)
    check(sorted(seen) == list(range(n)), "parts do not cover the list exactly once: %s of %d" % (seen, n))
    groups = np.unique(kk)
    order = [where[g] for g in groups]
    check(all(x <= y for x, y in zip(order, order[1:])), "groups are not distributed in key order")
    # balanced number of groups per part
    G = len(groups)
    for i in range(1, P + 1):
        check(sum(o == i for o in order) == (i * G) // P - ((i - 1) * G) // P, "part %d holds the wrong groups" % i)
