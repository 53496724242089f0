from vc import *
import types
from shim_np import NP

M = "hyperion.metrics."


def L(v):
    return lift(v)


def S(n, f):
    v = fresh("v")
    return sum_over([L(n)], [v], f(v))


def two(vc):
    nt, nn = vc.int("nt", lo=1), vc.int("nn", lo=1)
    return nt, nn, vc.array("tar", (nt,)), vc.array("non", (nn,))


@contract("C08", "metrics.dcf", targets=[M + "dcf:compute_dcf", M + "dcf:compute_min_dcf", M + "utils:effective_prior"])
def c_dcf(vc):
    m = vc.mod(M + "dcf")
    n = vc.int("n", lo=1)
    pm, pf = vc.array("pm", (n,)), vc.array("pf", (n,))
    nz = vc.case("normalize")
    vec = vc.case("vector of priors")
    P = vc.int("P", lo=1)
    pr = vc.array("prior", (P,), pos=True) if vec else vc.real("prior", pos=True)
    if vec:
        vc.assume(vc.forall(P, lambda k: lt(pr.at(k), ONE)))
    else:
        vc.assume(pr < 1)
    sn = vc.snap(pm, pf)
    d = m.compute_dcf(pm, pf, pr, normalize=nz)
    vc.ensure_shape("shape", d, (P, n) if vec else (n,))
    k, j = L(vc.idx("k", P)), L(vc.idx("j", n))

    def ref(p, a, b):
        c = add(mul(p, a), mul(sub(ONE, p), b))
        return div(c, tm.tmin(p, sub(ONE, p))) if nz else c
    p = pr.at(k) if vec else L(pr)
    at = lambda j: d.at(k, j) if vec else d.at(j)
    vc.ensure("detection cost", eq(at(j), ref(p, pm.at(j), pf.at(j))))
    vc.unchanged("frame", sn)
    # minimum over the vertices of the hull
    _, _, tar, non = two(vc)
    seen = []

    def rocch(a, b):
        seen.append((a, b))
        return pm, pf
    vc.patch(m, "compute_rocch", rocch)
    md, mm, mf = m.compute_min_dcf(tar, non, pr, normalize=nz)
    vc.ensure("hull of these scores", tm.TRUE if len(seen) == 1 and seen[0][0] is tar and seen[0][1] is non else tm.FALSE)
    g = lambda x: x.at(k) if vec else L(x)
    vc.ensure("cost of the returned point", eq(g(md), ref(p, g(mm), g(mf))))
    vc.ensure("no vertex is cheaper", le(g(md), ref(p, pm.at(j), pf.at(j))))
    vc.ensure("the point is a vertex", tm.exists_rng(L(n), lambda t: band(eq(g(mm), pm.at(t)), eq(g(mf), pf.at(t)))))
    if not vec:
        u = vc.mod(M + "utils")
        cm, cf = vc.real("cm", pos=True), vc.real("cf", pos=True)
        e = u.effective_prior(pr, cm, cf)
        vc.ensure("effective prior", eq(mul(L(e), add(mul(L(pr), L(cm)), mul(sub(ONE, L(pr)), L(cf)))), mul(L(pr), L(cm))))


@contract("C08", "metrics.act_dcf", targets=[M + "dcf:compute_act_dcf"])
def c_act(vc):
    m = vc.mod(M + "dcf")
    nt, nn, tar, non = two(vc)
    nz = vc.case("normalize")
    vec = vc.case("vector of priors")
    P = vc.int("P", lo=2) if vec else 1
    pr = vc.array("prior", (P,), pos=True) if vec else vc.real("prior", pos=True)
    if vec:
        vc.assume(vc.forall(P, lambda k: lt(pr.at(k), ONE)))
        sp = NP.sort(pr)
        vc.assume(vc.forall(P, lambda k: eq(pr.at(k), sp.at(k))))
    else:
        vc.assume(pr < 1)
    sn = vc.snap(tar, non)
    d, pm, pf = m.compute_act_dcf(tar, non, pr, normalize=nz)
    k = L(vc.idx("k", P)) if vec else ZERO
    p = pr.at(k) if vec else L(pr)
    t = sub(tlog(sub(ONE, p)), tlog(p))
    rm = div(S(nt, lambda v: ind(lt(tar.at(v), t))), L(nt))
    rf = div(S(nn, lambda v: ind(le(t, non.at(v)))), L(nn))
    vc.ensure("misses below the threshold", eq(pm.at(k), rm))
    vc.ensure("false alarms at or above the threshold", eq(pf.at(k), rf))
    c = add(mul(p, rm), mul(sub(ONE, p), rf))
    c = div(c, tm.tmin(p, sub(ONE, p))) if nz else c
    vc.ensure("actual cost", eq(d.at(k) if vec else L(d), c))
    vc.unchanged("frame", sn)


@contract("C08", "metrics.roc", targets=[M + "roc:compute_roc"])
def c_roc(vc):
    m = vc.mod(M + "roc")
    nt, nn, tar, non = two(vc)
    sn = vc.snap(tar, non)
    pm, pf = m.compute_roc(tar, non)
    n = nt + nn
    vc.ensure_shape("shape", pm, (n + 1,))
    vc.ensure_shape("shape fa", pf, (n + 1,))
    o = NP.argsort(NP.concatenate((tar, non)), kind="mergesort")
    k = L(vc.idx("k", n + 1))
    miss = S(mk(k), lambda v: ind(lt(o.at(v), L(nt))))
    vc.ensure("misses among the k lowest scores", eq(mul(pm.at(k), L(nt)), miss))
    vc.ensure("non-targets above them", eq(mul(pf.at(k), L(nn)), sub(L(nn), sub(k, miss))))
    vc.unchanged("frame", sn)


@contract("C08", "metrics.rocch", targets=[M + "roc:compute_rocch"])
def c_rocch(vc):
    m = vc.mod(M + "roc")
    nt, nn, tar, non = two(vc)
    n = nt + nn
    B = vc.int("B", lo=1)
    w = vc.array("w", (B,), kind="i", pos=True)
    rec = []

    def pavx(y):
        rec.append(y.copy())
        return None, w, None
    vc.patch(m, "pavx", pavx)
    vc.assume(eq(S(B, lambda v: w.at(v)), L(n)))
    sn = vc.snap(tar, non)
    pm, pf = m.compute_rocch(tar, non)
    o = NP.argsort(NP.concatenate((tar, non)), kind="mergesort")
    e = L(vc.idx("e", n))
    vc.ensure("the labels in score order are pooled", eq(rec[0].at(e), ind(lt(o.at(e), L(nt)))))
    vc.ensure_shape("shape", pm, (B + 1,))
    vc.ensure_shape("shape fa", pf, (B + 1,))
    k = L(vc.idx("k", B + 1))
    left = ZERO
    bb = sub(L(B), ONE)
    vc.assume(eq(add(S(mk(bb), lambda v: w.at(v)), w.at(bb)), L(n)))     # the widths add up to n
    if not ENG.branch(eq(k, ZERO)):
        ENG.branch(eq(k, L(B)))
        kk = sub(k, ONE)
        left = add(S(mk(kk), lambda v: w.at(v)), w.at(kk))
        vc.assume(le(left, L(n)))     # a prefix sum of positive widths that add up to n
        vc.assume(le(ONE, left))
    miss = S(mk(left), lambda v: ind(lt(o.at(v), L(nt))))
    vc.ensure("misses left of the vertex", eq(mul(pm.at(k), L(nt)), miss))
    vc.unchanged("frame", sn)


@contract("C08", "metrics.eer", targets=[M + "eer:compute_eer", M + "eer:compute_prbep", M + "dcf:fast_eval_dcf_eer"])
def c_eer(vc):
    m, md = vc.mod(M + "eer"), vc.mod(M + "dcf")
    nt, nn, tar, non = two(vc)
    n = vc.int("n", lo=1)
    pm, pf = vc.array("pm", (n,)), vc.array("pf", (n,))
    log = []

    def rocch(a, b):
        log.append((a, b))
        return pm, pf

    def r2e(a, b):
        log.append((a, b))
        return 100 + len(log)
    for x in (m, md):
        vc.patch(x, "compute_rocch", rocch)
        vc.patch(x, "rocch2eer", r2e)
    k = L(vc.idx("k", n))
    ok = lambda c: tm.TRUE if c else tm.FALSE
    a = m.compute_eer(tar, non)
    vc.ensure("eer: hull of these scores", ok(len(log) == 2 and log[0][0] is tar and log[0][1] is non and a == 102))
    vc.ensure("eer: rates of the hull", band(eq(log[1][0].at(k), pm.at(k)), eq(log[1][1].at(k), pf.at(k))))
    b = m.compute_prbep(tar, non)
    vc.ensure("prbep: hull of these scores", ok(len(log) == 4 and log[2][0] is tar and log[2][1] is non and b == 104))
    vc.ensure("prbep: counts of the hull", band(eq(log[3][0].at(k), mul(pm.at(k), L(nt))), eq(log[3][1].at(k), mul(pf.at(k), L(nn)))))
    # all together
    pr = vc.real("prior", pos=True)
    vc.assume(pr < 1)
    nz = vc.case("normalize")
    act = []

    def sact(*a):
        act.append(a)
        return 7, None, None
    vc.patch(md, "compute_act_dcf", sact)
    r = md.fast_eval_dcf_eer(tar, non, pr, normalize_dcf=nz)
    vc.ensure("all: hull of these scores", ok(len(log) == 7 and log[4][0] is tar and log[4][1] is non and r[2] == 106 and r[3] == 107 and r[1] == 7))
    vc.ensure("all: eer", band(eq(log[5][0].at(k), pm.at(k)), eq(log[5][1].at(k), pf.at(k))))
    vc.ensure("all: prbep", band(eq(log[6][0].at(k), mul(pm.at(k), L(nt))), eq(log[6][1].at(k), mul(pf.at(k), L(nn)))))
    vc.ensure("all: actual cost", ok(len(act) == 1 and act[0][0] is tar and act[0][1] is non and act[0][2] is pr and act[0][3] is nz))
    p = L(pr)

    def ref(a, b):
        c = add(mul(p, a), mul(sub(ONE, p), b))
        return div(c, tm.tmin(p, sub(ONE, p))) if nz else c
    vc.ensure("all: minimum cost", le(L(r[0]), ref(pm.at(k), pf.at(k))))
    vc.ensure("all: minimum reached", tm.exists_rng(L(n), lambda t: eq(L(r[0]), ref(pm.at(t), pf.at(t)))))


@contract("C08", "metrics.cllr", targets=[M + "cllr:compute_cllr", M + "cllr:compute_min_cllr"])
def c_cllr(vc):
    m = vc.mod(M + "cllr")
    nt, nn, tar, non = two(vc)
    nls = lambda x: tm.app("nls", x)
    vc.patch(m, "neglogsigmoid", lambda x: SArr(x._shape, "f", lambda i, f=x.fn(): nls(f(i))))
    z = NP.zeros((nn,))
    c = m.compute_cllr(tar, z)
    ln2 = tlog(lift(2))
    vc.ensure("target half of Cllr", eq(mul(lift(2), L(c), ln2), add(div(S(nt, lambda v: nls(tar.at(v))), L(nt)), nls(ZERO))))
    a, b = vc.array("a", (nt,)), vc.array("b", (nn,))
    log = []

    def opt(*x):
        log.append(x)
        return a, b

    def cl(*x):
        log.append(x)
        return 5
    vc.patch(m, "opt_loglr", opt)
    vc.patch(m, "compute_cllr", cl)
    r = m.compute_min_cllr(tar, non)
    vc.ensure("minimum: Cllr of the optimal raw ratios", tm.TRUE if r == 5 and len(log) == 2 and log[0][0] is tar and log[0][1] is non and log[0][2] == "raw" and log[1][0] is a and log[1][1] is b else tm.FALSE)


@contract("C08", "metrics.opt_loglr", targets=[M + "utils:opt_loglr"])
def c_opt(vc):
    m = vc.mod(M + "utils")
    nt, nn, tar, non = two(vc)
    n = nt + nn
    lap = vc.case("laplace")
    q = vc.array("q", (n + 4 if lap else n,), pos=True)
    rec = []

    def pavx(y):
        rec.append(y.copy())
        return q, None, None
    vc.patch(m, "pavx", pavx)
    sn = vc.snap(tar, non)
    a, b = m.opt_loglr(tar, non, method="laplace" if lap else "raw")
    o = NP.argsort(NP.concatenate((tar, non)), kind="mergesort")
    vc.ensure_shape("target ratios", a, (nt,))
    vc.ensure_shape("non-target ratios", b, (nn,))
    k = L(vc.idx("k", n))
    vc.ensure("the labels in score order are pooled", eq(rec[0].at(add(k, lift(2)) if lap else k), ind(lt(o.at(k), L(nt)))))
    if lap:
        vc.ensure("extra low trials", band(eq(rec[0].at(ZERO), ONE), eq(rec[0].at(ONE), ZERO), eq(L(rec[0].shape[0]), add(L(n), lift(4)))))
        vc.ensure("extra high trials", band(eq(rec[0].at(add(L(n), lift(2))), ONE), eq(rec[0].at(add(L(n), lift(3))), ZERO)))
    p = q.at(add(k, lift(2)) if lap else k)
    ref = add(sub(sub(tlog(p), tlog(sub(ONE, p))), tlog(div(L(nt), L(nn)))), div(mul(lift(1e-6), k), L(n)))
    if ENG.branch(lt(o.at(k), L(nt))):
        vc.ensure("ratio of a target", eq(a.at(o.at(k)), ref))
    else:
        vc.ensure("ratio of a non-target", eq(b.at(sub(o.at(k), L(nt))), ref))
    vc.unchanged("frame", sn)


@contract("C08", "metrics.area", targets=[M + "roc:compute_area_under_rocch"], replay="metrics.filter_roc")
def c_area(vc):
    m = vc.mod(M + "roc")
    n = vc.int("n", lo=1)
    pm, pf = vc.array("pm", (n,)), vc.array("pf", (n,))
    s, t = NP.sort(pm), NP.sort(pf)
    vc.assume(vc.forall(n, lambda k: eq(pm.at(k), s.at(k))))
    vc.assume(vc.forall(n, lambda k: eq(pf.at(sub(L(n), add(ONE, L(k)))), t.at(k))))
    a = m.compute_area_under_rocch(pm, pf)
    vc.ensure("trapezoids under the hull", eq(L(a), S(mk(L(n - 1)), lambda i: div(mul(sub(pm.at(add(i, ONE)), pm.at(i)), add(pf.at(add(i, ONE)), pf.at(i))), lift(2)))))


@contract("C08", "metrics.confusion", targets=[M + "confusion_matrix:compute_confusion_matrix", M + "confusion_matrix:compute_xlabel_confusion_matrix"])
def c_conf(vc):
    m = vc.mod(M + "confusion_matrix")
    n = vc.int("n", lo=1)
    yt, yp = vc.array("yt", (n,), kind="i"), vc.array("yp", (n,), kind="i")
    a, b = vc.int("a", lo=1), vc.int("b", lo=1)
    lt_, lr = vc.array("ltest", (a,), kind="i"), vc.array("ltrain", (b,), kind="i")
    log = []
    x = vc.case("train and test labels differ")
    D = a + b if x else a
    C = vc.array("C", (D, D))
    C0 = C.copy()

    def cm(*r):
        log.append(r)
        return C
    vc.patch(m, "confusion_matrix", cm)
    w = vc.array("w", (n,), pos=True)
    nz = vc.case("normalize")
    sn = vc.snap(yt, yp, lt_, lr)
    i, j = L(vc.idx("i", a)), L(vc.idx("j", b if x else a))
    if not x:
        r = m.compute_confusion_matrix(yt, yp, lt_, normalize=nz, sample_weight=w)
        vc.ensure("arguments", tm.TRUE if log[0][0] is yt and log[0][1] is yp and log[0][2] is lt_ and log[0][3] is w else tm.FALSE)
        ref = C0.at(i, j)
        tot = S(a, lambda v: C0.at(i, v))
    else:
        r = m.compute_xlabel_confusion_matrix(yt, yp, lr, lt_, normalize=nz, sample_weight=w)
        gt, gp, gl = log[0][:3]
        e, f = L(vc.idx("e", n)), L(vc.idx("f", n))
        vc.ensure("weights", tm.TRUE if log[0][3] is w else tm.FALSE)
        vc.ensure("true labels", eq(gt.at(e), yt.at(e)))
        vc.ensure("rows are the test labels", eq(gl.at(i), lt_.at(i)))
        vc.ensure("columns are the train labels, moved together with the predictions", eq(sub(gl.at(add(L(a), j)), lr.at(j)), sub(gp.at(e), yp.at(e))))
        vc.ensure("train and test labels stay apart", lt(lt_.at(i), gl.at(add(L(a), j))))
        vc.ensure("predictions and test labels stay apart", band(lt(lt_.at(i), gp.at(e)), lt(yt.at(f), gp.at(e)), lt(yt.at(f), gl.at(add(L(a), j)))))
        vc.ensure_shape("shape", r, (a, b))
        ref = C0.at(i, add(L(a), j))
        tot = S(b, lambda v: C0.at(i, add(L(a), v)))
    vc.ensure("counts", eq(r.at(i, j), div(ref, tot) if nz else ref))
    vc.unchanged("frame", sn)
