from harness import *
import hyperion.utils.math as hm
from hyperion.utils.math import *

T = "hyperion.utils.math:"


@case("C09", "math.invert_pdmat", [T + "invert_pdmat", T + "logdet_pdmat"])
def ipd(r):
    d = r.size(1, 5)
    A = r.spd(d)
    A0, iA = A.copy(), np.linalg.inv(A)
    right, ld, inv = r.bool(), r.bool(), r.bool()
    R = invert_pdmat(A, right_inv=right, return_logdet=ld, return_inv=inv)
    check(len(R) == 2 + ld + inv, "number of results")
    n = r.size(1, 4)
    v = r.arr(n, d) if right else r.arr(d, n)
    close(R[0](v), v @ iA if right else iA @ v, "product with the inverse", 1e-6)
    v = r.arr(d)
    close(R[0](v), iA @ v, "product of a vector with the inverse", 1e-6)
    close(R[1].T @ R[1], A0, "factor", 1e-7)
    close(R[1], np.triu(R[1]), "the factor is upper triangular")
    if ld:
        close(R[2], np.linalg.slogdet(A0)[1], "log determinant", 1e-7)
    if inv:
        close(R[-1], iA, "inverse", 1e-6)
    close(logdet_pdmat(A), np.linalg.slogdet(A0)[1], "log determinant", 1e-7)
    same(A, A0, "input")


@case("C09", "math.invert_trimat", [T + "invert_trimat"])
def itri(r):
    d = r.size(1, 5)
    low = r.bool()
    A = r.arr(d, d)
    A[np.diag_indices(d)] = r.posarr(d, lo=1.0)
    A = np.tril(A) if low else np.triu(A)
    A0, iA = A.copy(), np.linalg.inv(A)
    right, ld, inv = r.bool(), r.bool(), r.bool()
    R = invert_trimat(A, lower=low, right_inv=right, return_logdet=ld, return_inv=inv)
    f = R[0] if ld or inv else R
    n = r.size(1, 4)
    v = r.arr(n, d) if right else r.arr(d, n)
    close(f(v), v @ iA if right else iA @ v, "product with the inverse", 1e-5)
    if ld:
        close(R[1], np.log(np.diag(A0)).sum(), "log determinant")
    if inv:
        close(R[-1], iA, "inverse", 1e-5)
    same(A, A0, "input")


@case("C09", "math.softmax", [T + "softmax", T + "logsumexp"], weight=2)
def sm(r):
    sh = r.pick((r.size(1, 6),), (r.size(1, 5), r.size(1, 5)), (r.size(1, 3), r.size(1, 3), r.size(1, 3)))
    x = r.arr(*sh)
    if r.bool(0.3):
        x = x * 100
    ax = r.int(-len(sh), len(sh) - 1)
    if r.bool(0.3):
        ax = -1
    x0 = x.copy()
    m = x0.max(axis=ax, keepdims=True)
    e = np.exp(x0 - m)
    y = softmax(x) if ax == -1 else softmax(x, axis=ax)
    close(y, e / e.sum(axis=ax, keepdims=True), "softmax", 1e-7)
    close(y.sum(axis=ax), np.ones(y.sum(axis=ax).shape), "the softmax sums to one", 1e-7)
    y = logsumexp(x) if ax == -1 else logsumexp(x, axis=ax)
    close(y, np.log(e.sum(axis=ax)) + m.squeeze(ax), "logsumexp", 1e-7)
    same(x, x0, "input")


@case("C09", "math.sigmoid", [T + "logsigmoid", T + "neglogsigmoid", T + "sigmoid"])
def sg(r):
    sh = r.pick((r.size(0, 6),), (r.size(1, 4), r.size(1, 4)))
    x = r.arr(*sh)
    if r.bool(0.6):
        x = x * r.pick(10, 60, 300, 2000)
    x0 = x.copy()
    l = -np.logaddexp(0, -x0)
    close(logsigmoid(x), l, "log sigmoid", 1e-7)
    close(neglogsigmoid(x), -l, "negative log sigmoid", 1e-7)
    close(sigmoid(x), np.exp(l), "sigmoid", 1e-7)
    same(x, x0, "input")


@case("C09", "math.fisher", [T + "fisher_ratio", T + "fisher_ratio_with_precs"], weight=0.6)
def fi(r):
    d = r.size(1, 4)
    A, B, a, b = r.spd(d), r.spd(d), r.arr(d), r.arr(d)
    close(fisher_ratio(a, A, b, B), (a - b) @ np.linalg.inv(A + B) @ (a - b), "fisher ratio", 1e-6)
    close(fisher_ratio_with_precs(a, A, b, B), (a - b) @ np.linalg.inv(np.linalg.inv(A) + np.linalg.inv(B)) @ (a - b), "fisher ratio with precisions", 1e-5)


@case("C09", "math.symmat", [T + "symmat2vec", T + "vec2symmat", T + "trimat2vec", T + "vec2trimat"], weight=1.5)
def sym(r):
    d = r.size(0, 7)
    A = r.arr(d, d)
    A = A + A.T
    A0 = A.copy()
    low = r.bool()
    f = r.pick(None, 0.5, 2.0, 1.0)
    v = symmat2vec(A, lower=low, diag_factor=f)
    E = [(A0[i, j] * (f if f is not None and i == j else 1)) for i in range(d) for j in range(d) if (j <= i if low else i <= j)]
    close(v, np.array(E), "packed matrix")
    same(A, A0, "input")
    v0 = v.copy()
    close(vec2symmat(v, lower=low, diag_factor=None if f is None else 1 / f), A0, "unpacked matrix")
    same(v, v0, "input")
    L = np.tril(r.arr(d, d)) if low else np.triu(r.arr(d, d))
    v = trimat2vec(L, lower=low)
    close(v, np.array([L[i, j] for i in range(d) for j in range(d) if (j <= i if low else i <= j)]), "packed triangle")
    close(vec2trimat(v, lower=low), L, "unpacked triangle")


@case("C09", "math.varfloor", [T + "fullcov_varfloor", T + "fullcov_varfloor_from_cholS"])
def vf(r):
    d = r.size(1, 4)
    S, F = r.spd(d), r.spd(d)
    if r.bool(0.3):
        S = S * 0.01
    S0, F0 = S.copy(), F.copy()
    C = np.linalg.cholesky(F).T
    k = r.int(0, 3)
    scal = r.bool(0.3)
    f = r.pos()
    Ff = np.eye(d) * f if scal else F0
    if scal:
        X = fullcov_varfloor(S, f)
    elif k == 0:
        X = fullcov_varfloor(S, F)
    elif k == 1:
        X = fullcov_varfloor(S, C, F_is_chol=True)
    else:
        X = fullcov_varfloor(S, C.T, F_is_chol=True, lower=True)
    iC = np.linalg.inv(np.linalg.cholesky(Ff))
    w, u = np.linalg.eigh(iC @ S0 @ iC.T)
    ref = np.linalg.inv(iC) @ (u * np.maximum(w, 1)) @ u.T @ np.linalg.inv(iC).T
    close(X, ref, "floored covariance", 1e-5)
    low = r.bool()
    cS = np.linalg.cholesky(S0) if low else np.linalg.cholesky(S0).T
    cF = np.sqrt(f) if scal else (C.T if low else C)
    c0 = cS.copy()
    Y = fullcov_varfloor_from_cholS(cS, cF, lower=low)
    close(Y @ Y.T if low else Y.T @ Y, ref, "floored covariance from the factor", 1e-5)
    close(Y, np.tril(Y) if low else np.triu(Y), "triangular factor")
    same(cS, c0, "input")
    same(S, S0, "input")
    same(F, F0, "input")


@case("C09", "math.onehot", [T + "int2onehot"], weight=0.6)
def oh(r):
    n = r.size(1, 7)
    x = r.ints_arr(0, 4, n)
    k = r.pick(None, int(x.max()) + 1, int(x.max()) + 3)
    p = int2onehot(x, k)
    m = int(x.max()) + 1 if k is None else k
    same(p, np.array([[float(v == c) for c in range(m)] for v in x]), "one-hot vectors")
