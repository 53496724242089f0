from harness import *
import argparse
from hyperion.feats.feature_normalization import MeanVarianceNorm
from hyperion.feats.frame_selector import FrameSelector
from hyperion.feats.energy_vad import EnergyVAD

MV, FS, EV = "hyperion.feats.feature_normalization:MeanVarianceNorm.", "hyperion.feats.frame_selector:FrameSelector.", "hyperion.feats.energy_vad:EnergyVAD."


def feats(r, n=None):
    n = r.size(1, 30) if n is None else n
    x = r.arr(n, r.size(1, 4)) * r.pos() + r.real()
    # no constant columns
    return x + np.linspace(0, 1, n)[:, None] ** 2 if n > 1 else x


def glob(x, mean, var):
    if mean:
        x = x - x.mean(axis=0)
    if var:
        x = x / x.std(axis=0)
    return x


def reference(x, mean, var, left, right):
    n = len(x)
    x = glob(x, mean, var)
    if left is None and right is None:
        return x
    l, q = n if left is None else left, n if right is None else right
    if n <= min(l, q) + 1:
        return x
    y = np.zeros(x.shape)
    for t in range(n):
        w = x[max(t - l, 0):min(t + q, n - 1) + 1]
        y[t] = x[t]
        if mean:
            y[t] -= w.mean(axis=0)
        if var:
            y[t] /= np.sqrt(np.maximum(w.var(axis=0), 1e-5))
    return y


@case("C16", "mvn.window", targets=[MV + "normalize", MV + "normalize_cumsum", MV + "normalize_conv", MV + "normalize_slow", MV + "normalize_global"])
def k1(r):
    x = feats(r)
    mean, var = r.bool(), r.bool() and len(x) > 1
    left, right = (None if r.bool(.25) else r.int(0, len(x) + 3) for _ in range(2))
    m = MeanVarianceNorm(mean, var, left, right)
    x0 = x.copy()
    g = glob(x, mean, var)
    close(m.normalize_global(x), g, "global", 1e-6)
    ref = reference(x, mean, var, left, right)
    # the variance of a window of few frames cancels
    tol = 1e-3 if var else 1e-6
    names = ["normalize", "normalize_cumsum", "normalize_conv"]
    n = len(x)
    if n > min(n if left is None else left, n if right is None else right) + 1 or not var:
        names.append("normalize_slow")
    for nm in names:
        y = getattr(m, nm)(x)
        same(x, x0, "input of " + nm)
        check(y.shape == x.shape, nm + " shape")
        close(y, ref, "%s mean=%s var=%s %s %s" % (nm, mean, var, left, right), tol)


@case("C16", "mvn.args", targets=[MV + "filter_args", MV + "add_argparse_args", FS + "filter_args", FS + "add_argparse_args", EV + "filter_args", EV + "add_argparse_args"])
def k2(r):
    pre = None if r.bool() else "aa"
    p = "--" if pre is None else "--aa-"
    pa = argparse.ArgumentParser()
    MeanVarianceNorm.add_argparse_args(pa, pre)
    FrameSelector.add_argparse_args(pa, pre)
    l, q, tol = r.int(0, 99), r.int(0, 99), r.int(0, 9)
    nm, nv = r.bool(), r.bool()
    a = [p + "left-context", str(l), p + "right-context", str(q), p + "tol-num-frames", str(tol)]
    kw = vars(pa.parse_args(a + ([p + "no-norm-mean"] if nm else []) + ([p + "norm-var"] if nv else [])))
    m = MeanVarianceNorm(**MeanVarianceNorm.filter_args(pre, **kw))
    check((m.norm_mean, m.norm_var, m.left_context, m.right_context) == (not nm, nv, l, q), "options of the normalization")
    check(FrameSelector(**FrameSelector.filter_args(pre, **kw)).tol_num_frames == tol, "tolerance of the frame selector")
    pa = argparse.ArgumentParser()
    EnergyVAD.add_argparse_args(pa, pre)
    c, s = r.int(0, 9), r.bool()
    kw = vars(pa.parse_args([p + "vad-frames-context", str(c), p + "snip-edges", str(s), p + "vad-energy-threshold", "3.5", p + "vad-energy-mean-scale", "0.25",
                             p + "vad-proportion-threshold", "0.3", p + "sample-frequency", "8000", p + "frame-length", "20", p + "frame-shift", "5", p + "dither", "0"]))
    v = EnergyVAD(**EnergyVAD.filter_args(pre, **kw))
    check((v.fs, v.frame_length, v.frame_shift, v.dither, v.snip_edges, v.vad_energy_mean_scale, v.vad_energy_threshold, v.vad_frames_context, v.vad_proportion_threshold)
          == (8000, 20, 5, 0, s, .25, 3.5, c, .3), "options of the vad")


@case("C16", "select", targets=[FS + "select"])
def k3(r):
    x = feats(r, r.int(1, 20))
    d, tol = r.int(-6, 6), r.int(0, 4)
    m = max(0, len(x) + d)
    sel = r.np.uniform(size=m) < .6
    f = FrameSelector(tol)
    if abs(m - len(x)) > tol:
        return raises(lambda: f.select(x, sel), "lengths differ by %d, tolerance %d" % (m - len(x), tol), Exception)
    y = f.select(x, sel)
    same(y, np.array([x[i] for i in range(min(m, len(x))) if sel[i]]).reshape(-1, x.shape[1]), "selected frames")


@case("C16", "vad.context", targets=[EV + "compute"])
def k4(r):
    n = r.size(1, 40)
    x = r.arr(n, r.size(1, 3)) * 5
    sc, th, c, p = abs(r.real()), r.real(), r.int(0, 6), r.pick(.1, .25, .35, .6, .8, .95)
    v = EnergyVAD(vad_energy_mean_scale=sc, vad_energy_threshold=th, vad_frames_context=c, vad_proportion_threshold=p)
    e = x[:, 0]
    t = th + sc * e.mean()
    if np.any(np.abs(e - t) < 1e-9):
        raise Skip
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        y = v.compute(x)
        y2, e2 = v.compute(x, return_loge=True)
    check(y.dtype == bool and y.shape == (n,), "one decision per frame")
    c = min(c, (n - 1) // 2)
    for i in range(n):
        w = (e > t)[max(0, i - c):i + c + 1]
        f = w.mean()
        if abs(f - p) > 1e-6:
            check(y[i] == (f > p), "frame %d: proportion %g, threshold %g, got %s" % (i, f, p, y[i]))
    same(y, y2, "vad with log-energy")
    same(e2, e, "log-energy")


@case("C16", "vad.wave", targets=[EV + "compute", EV + "__init__", EV + "reset"])
def k5(r):
    fs, fl, fsh = r.pick(1000, 8000), r.int(2, 25), r.int(1, 10)
    L, S = int(fl * fs / 1000), int(fsh * fs / 1000)
    snip = r.bool()
    n = L + r.int(0, 12 * S)
    x = r.arr(n) * 100
    v = EnergyVAD(fs, fl, fsh, dither=0, snip_edges=snip, vad_energy_threshold=r.real(), vad_energy_mean_scale=.5)
    import contextlib, io
    if not snip and (round(n / S) < 1 or (round(n / S) - 1) * S + L - n - (L - S) // 2 < 0 or L < S):
        raise Skip
    with contextlib.redirect_stdout(io.StringIO()):
        y, e = v.compute(x, return_loge=True)
        v.reset()
        z = v.compute(x)
    same(y, z, "the same signal, the same decisions after reset")
    nf = (n - L) // S + 1 if snip else int(np.round(n / S))
    check(len(y) == nf and len(e) == nf, "%d decisions for %d frames" % (len(y), nf))
    same(y, e > v.vad_energy_threshold + .5 * e.mean(), "frames over the threshold")
    if snip:
        d = np.zeros(n)
        for i in range(n):
            d[i] = x[i] - (x[i - 1] if i else 0) + .999 * (d[i - 1] if i else 0)
        close(e, np.log(np.array([np.sum(d[j * S:j * S + L] ** 2) for j in range(nf)]) + 1e-15), "log-energy of each frame", 1e-6)
