from vc import *
import shim_np
from shim_np import inv_el
import types

M = "hyperion.utils.math"
T = M + ":"


def L(v):
    return lift(v)


def S(n, f):
    v = fresh("v")
    return sum_over([L(n)], [v], f(v))


def S2(n, m, f):
    v, w = fresh("v"), fresh("w")
    return sum_over([L(n), L(m)], [v, w], f(v, w))


@contract("C09", "math.invert_pdmat", targets=[T + "invert_pdmat", T + "logdet_pdmat"])
def c_ipd(vc):
    m = vc.mod(M)
    d, n = vc.int("d", lo=1), vc.int("n", lo=1)
    A = vc.spd("A", d)
    right, ld, inv = vc.case("right"), vc.case("logdet"), vc.case("inv")
    sn = vc.snap(A)
    R = m.invert_pdmat(A, right_inv=right, return_logdet=ld, return_inv=inv)
    vc.ensure("number of results", tm.TRUE if len(R) == 2 + ld + inv else tm.FALSE)
    B = vc.array("B", (n, d) if right else (d, n))
    X = R[0](B)
    vc.ensure_shape("shape", X, (n, d) if right else (d, n))
    i, j = L(vc.idx("i", d)), L(vc.idx("j", n))
    e = L(vc.idx("e", d))
    iA = lambda a, b: inv_el(L(d), A.at, a, b)
    if right:
        vc.ensure("product with the inverse from the right", eq(X.at(j, i), S(d, lambda k: mul(B.at(j, k), iA(k, i)))))
        vc.ensure("solves X A = B", eq(S(d, lambda k: mul(X.at(j, k), A.at(k, i))), B.at(j, i)))
    else:
        vc.ensure("product with the inverse", eq(X.at(i, j), S(d, lambda k: mul(iA(i, k), B.at(k, j)))))
        vc.ensure("solves A X = B", eq(S(d, lambda k: mul(A.at(i, k), X.at(k, j))), B.at(i, j)))
    vc.ensure("factor: R'R = A", eq(S(d, lambda k: mul(R[1].at(k, i), R[1].at(k, e))), A.at(i, e)))
    ref = mul(lift(2), S(d, lambda k: tlog(R[1].at(k, k))))
    if ld:
        vc.ensure("log determinant", eq(L(R[2]), ref))
    vc.ensure("logdet_pdmat", eq(L(m.logdet_pdmat(A)), ref))
    if inv:
        vc.ensure("inverse", eq(R[-1].at(i, e), iA(i, e)))
        vc.ensure("A A^-1 = I", eq(S(d, lambda k: mul(A.at(i, k), R[-1].at(k, e))), ind(eq(i, e))))
    vc.unchanged("frame", sn)


@contract("C09", "math.invert_trimat", targets=[T + "invert_trimat"])
def c_itr(vc):
    m = vc.mod(M)
    d, n = vc.int("d", lo=1), vc.int("n", lo=1)
    A0 = vc.array("A", (d, d))
    low, right, ld, inv = vc.case("lower"), vc.case("right"), vc.case("logdet"), vc.case("inv")
    A = SArr((L(d), L(d)), "f", lambda i, j: mul(ind(le(j, i) if low else le(i, j)), A0.at(i, j)))
    sn = vc.snap(A)
    R = m.invert_trimat(A, lower=low, right_inv=right, return_logdet=ld, return_inv=inv)
    f = R[0] if ld or inv else R
    B = vc.array("B", (n, d) if right else (d, n))
    X = f(B)
    i, j, e = L(vc.idx("i", d)), L(vc.idx("j", n)), L(vc.idx("e", d))
    iA = lambda a, b: inv_el(L(d), A.at, a, b)
    iAt = lambda a, b: inv_el(L(d), lambda p, q: A.at(q, p), a, b)
    if right:
        vc.ensure("product with the inverse from the right", eq(X.at(j, i), S(d, lambda k: mul(B.at(j, k), iAt(i, k)))))
    else:
        vc.ensure("product with the inverse", eq(X.at(i, j), S(d, lambda k: mul(iA(i, k), B.at(k, j)))))
    if ld:
        vc.ensure("log determinant", eq(L(R[1]), S(d, lambda k: tlog(A0.at(k, k)))))
    if inv:
        vc.ensure("inverse", eq(R[-1].at(i, e), iAt(e, i) if right else iA(i, e)))
    vc.ensure("number of results", tm.TRUE if (not isinstance(R, list) if not (ld or inv) else len(R) == 1 + ld + inv) else tm.FALSE)
    vc.unchanged("frame", sn)


def red(x, ax, idx, f):
    """sum over the axis ax of f(element) at the other indices idx"""
    v = fresh("v")
    full = list(idx)
    full.insert(ax, v)
    return sum_over([L(x.shape[ax])], [v], f(x.at(*full)))


@contract("C09", "math.softmax", targets=[T + "softmax", T + "logsumexp"])
def c_sm(vc):
    m = vc.mod(M)
    nd = vc.choose("ndim", [1, 2])
    sh = tuple(vc.int("n%d" % k, lo=1) for k in range(nd))
    x = vc.array("x", sh)
    ax = vc.choose("axis", [-1, 0])
    sn = vc.snap(x)
    y, z = m.softmax(x, axis=ax), shim_np.asarr(m.logsumexp(x, axis=ax))
    a = ax % nd
    vc.ensure_shape("shape of the softmax", y, sh)
    vc.ensure_shape("shape of logsumexp", z, sh[:a] + sh[a + 1:])
    ix = [L(vc.idx("i%d" % k, s)) for k, s in enumerate(sh)]
    oth = ix[:a] + ix[a + 1:]
    mx = L(mk(shim_np.asarr(x.max(axis=a)).at(*oth)))
    den = red(x, a, oth, lambda t: texp(sub(t, mx)))
    vc.ensure("softmax", eq(y.at(*ix), div(texp(sub(x.at(*ix), mx)), den)))
    vc.ensure("sums to one", eq(red(y, a, oth, lambda t: t), ONE))
    vc.ensure("logsumexp", eq(z.at(*oth), add(mx, tlog(add(den, num_eps())))))
    vc.unchanged("frame", sn)


def num_eps():
    return lift(1e-20)


@contract("C09", "math.sigmoid", targets=[T + "logsigmoid", T + "neglogsigmoid", T + "sigmoid"])
def c_sg(vc):
    m = vc.mod(M)
    n = vc.int("n", lo=0)
    x = vc.array("x", (n,))
    sn = vc.snap(x)
    l, q, s = m.logsigmoid(x), m.neglogsigmoid(x), m.sigmoid(x)
    i = L(vc.idx("i", n))
    low = lt(x.at(i), lift(-100))
    ref = neg(tlog(add(ONE, texp(neg(x.at(i))))))
    for nm, r in (("log", l), ("neglog", q), ("sigmoid", s)):
        vc.ensure_shape("shape " + nm, r, (n,))
    vc.ensure("log sigmoid", eq(l.at(i), ite(low, x.at(i), ref)))
    vc.ensure("negative log sigmoid", eq(q.at(i), neg(ite(low, x.at(i), ref))))
    vc.ensure("sigmoid", eq(s.at(i), ite(low, ZERO, div(ONE, add(ONE, texp(neg(x.at(i))))))))
    vc.unchanged("frame", sn)


@contract("C09", "math.fisher", targets=[T + "fisher_ratio", T + "fisher_ratio_with_precs"])
def c_fi(vc):
    m = vc.mod(M)
    d = vc.int("d", lo=1)
    A, B, a, b = vc.spd("A", d), vc.spd("B", d), vc.array("a", (d,)), vc.array("b", (d,))
    sn = vc.snap(A, B, a, b)
    dl = lambda k: sub(a.at(k), b.at(k))
    q = lambda C: S2(d, d, lambda v, w: mul(dl(v), inv_el(L(d), C, v, w), dl(w)))
    vc.ensure("fisher ratio", eq(L(m.fisher_ratio(a, A, b, B)), q(lambda i, j: add(A.at(i, j), B.at(i, j)))))
    vc.ensure("fisher ratio with precisions", eq(L(m.fisher_ratio_with_precs(a, A, b, B)), q(lambda i, j: add(inv_el(L(d), A.at, i, j), inv_el(L(d), B.at, i, j)))))
    vc.unchanged("frame", sn)


@contract("C09", "math.symmat", targets=[T + "symmat2vec", T + "vec2symmat", T + "trimat2vec", T + "vec2trimat"])
def c_sym(vc):
    m = vc.mod(M)
    d = vc.int("d", lo=0)
    A = vc.spd("A", d)
    low = vc.case("lower")
    f = vc.real("f", pos=True) if vc.case("factor") else None
    sn = vc.snap(A)
    v = m.symmat2vec(A, lower=low, diag_factor=f)
    vc.ensure_shape("packed size", v, (tm.tri(L(d)),))
    k = L(vc.idx("k", v.shape[0]))
    r, c = (shim_np.tril_indices if low else shim_np.triu_indices)(d)
    i, j = r.at(k), c.at(k)
    vc.ensure("packed elements", eq(v.at(k), mul(A.at(i, j), ONE if f is None else ite(eq(i, j), L(f), ONE))))
    B = m.vec2symmat(v, lower=low, diag_factor=None if f is None else 1 / f)
    vc.ensure_shape("unpacked shape", B, (d, d))
    a, b = L(vc.idx("a", d)), L(vc.idx("b", d))
    vc.ensure("round trip", eq(B.at(a, b), A.at(a, b)))
    U0 = vc.array("U", (d, d))
    U = SArr((L(d), L(d)), "f", lambda i, j: mul(ind(le(j, i) if low else le(i, j)), U0.at(i, j)))
    w = m.trimat2vec(U, lower=low)
    vc.ensure("packed triangle", eq(w.at(k), U.at(i, j)))
    V = m.vec2trimat(w, lower=low)
    vc.ensure("triangle round trip", eq(V.at(a, b), U.at(a, b)))
    vc.unchanged("frame", sn)


@contract("C09", "math.onehot", targets=[T + "int2onehot"])
def c_oh(vc):
    m = vc.mod(M)
    n = vc.int("n", lo=1)
    x = vc.array("x", (n,), kind="i")
    vc.assume(tm.forall_rng(L(n), lambda i: ge(x.at(i), ZERO)))
    k = vc.int("k", lo=1) if vc.case("given") else None
    if k is not None:
        vc.assume(tm.forall_rng(L(n), lambda i: lt(x.at(i), L(k))))
    p = m.int2onehot(x, k)
    i, c = L(vc.idx("i", n)), L(vc.idx("c", p.shape[1]))
    vc.ensure("rows", eq(L(p.shape[0]), L(n)))
    if k is not None:
        vc.ensure("columns", eq(L(p.shape[1]), L(k)))
    else:
        vc.ensure("every id has a column", tm.forall_rng(L(n), lambda i: lt(x.at(i), L(p.shape[1]))))
        vc.ensure("no empty last column", tm.exists_rng(L(n), lambda i: eq(x.at(i), sub(L(p.shape[1]), ONE))))
    vc.ensure("one-hot", eq(p.at(i, c), ind(eq(x.at(i), c))))
