from harness import *
import argparse
from hyperion.feats.stft import stft, istft, strft, istrft, st_logE
from hyperion.feats.feature_windows import FeatureWindowFactory as W
from hyperion.feats.filter_banks import FilterBankFactory as B
from hyperion.feats.mfcc import MFCC

ST, WF, FB, MF = "hyperion.feats.stft:", "hyperion.feats.feature_windows:FeatureWindowFactory.", "hyperion.feats.filter_banks:FilterBankFactory.", "hyperion.feats.mfcc:MFCC."


def dft(f, nfft, bins):
    k = np.arange(len(f))
    return np.array([np.sum(f * np.exp(-2j * np.pi * b * k / nfft)) for b in range(bins)])


def frames(x, L, S):
    return [x[i * S:i * S + L] for i in range((len(x) - L) // S + 1)]


def sig(r):
    L, S = r.int(1, 12), r.int(1, 9)
    x = r.arr(L + r.int(0, 5 * S)) * 10
    return x, L, S


@case("C17", "stft", targets=[ST + "stft", ST + "strft", ST + "st_logE"])
def k1(r):
    x, L, S = sig(r)
    nfft = r.int(L, 2 * L + 2)
    w = r.arr(L, ties=False) if r.bool(.7) else None
    fr = [f * (1 if w is None else w) for f in frames(x, L, S)]
    x0 = x.copy()
    for nm, fn, bins in (("stft", stft, nfft), ("strft", strft, nfft // 2 + 1)):
        X = fn(x, L, S, nfft, w)
        check(X.shape == (len(fr), bins), "%s shape %s" % (nm, X.shape))
        for i, f in enumerate(fr):
            d = dft(f, nfft, bins)
            check(np.max(np.abs(X[i] - d)) <= 1e-4 * (1 + np.max(np.abs(f)) * L), "%s of frame %d" % (nm, i))
    e = st_logE(x, L, S)
    close(e, np.log(np.array([np.sum(f ** 2) for f in frames(x, L, S)]) + 1e-15), "log-energy")
    same(x, x0, "signal")


@case("C17", "istft", targets=[ST + "istft", ST + "istrft"])
def k2(r):
    x, L, S = sig(r)
    nfft = 2 * r.int((L + 1) // 2, L + 1)
    w = r.posarr(L) * r.pick(1.0, 1e-7, 1e3) if r.bool(.7) else None
    nf = (len(x) - L) // S + 1
    m = (nf - 1) * S + L
    cov = np.zeros(m, bool)
    for i in range(nf):
        cov[i * S:i * S + L] = True
    for nm, fn, inv in (("istft", stft, istft), ("istrft", strft, istrft)):
        y = inv(fn(x, L, S, nfft, w), L, S, w)
        check(y.shape == (m,), "%s shape" % nm)
        y = np.real(y)
        check(np.max(np.abs(y[cov] - x[:m][cov])) < 1e-3 * (1 + np.abs(x).max()), "%s does not give the signal back" % nm)
        check(np.all(np.abs(y[~cov]) < 1e-6), "%s outside of the frames" % nm)


@case("C17", "windows", targets=[WF + "create"])
def k3(r):
    N = r.int(2, 30)
    k = np.arange(N)
    c = np.cos(2 * np.pi * k / N)
    ref = dict(povey=np.maximum(.5 - .5 * c, 0) ** .85, hamming=.54 - .46 * c, hanning=.5 - .5 * c, blackman=.42 - .5 * c + .08 * np.cos(4 * np.pi * k / N), rectangular=np.ones(N))
    for nm, w in ref.items():
        close(W.create(nm, N), w, nm, 1e-7)
    raises(lambda: W.create("none", N), "unknown window", Exception)


@case("C17", "banks", targets=[FB + "create", FB + "make_mel_kaldi", FB + "make_mel_etsi", FB + "make_linear", FB + "lin2mel", FB + "mel2lin"])
def k4(r):
    fs, nfft = r.pick(8000, 16000), r.pick(64, 128, 256)
    nf = r.int(1, 20)
    lo = r.pick(0, 20, 100, 300)
    hi = r.pick(0, fs / 2, fs / 2 - 300)
    top = hi or fs / 2
    h = nfft // 2
    f = np.abs(r.arr(5)) * 1000
    close(B.mel2lin(B.lin2mel(f)), f, "mel scale", 1e-6, 1e-6)
    check(np.all(np.diff(B.lin2mel(np.sort(np.unique(f)))) > 0), "mel scale increases")
    for t in ("mel_kaldi", "mel_etsi", "linear"):
        b = B.create(t, nf, nfft, fs, lo, hi, False)
        check(b.shape == (h + 1, nf) and np.all(b >= 0) and np.all(b <= 1 + 1e-9), "%s bank: %s %s" % (t, b.shape, (b.min(), b.max())))
        if t == "mel_kaldi":
            fr = np.linspace(0, fs, nfft)[:h + 1]
            m = 1127 * np.log(1 + fr / 700)
            c = np.linspace(1127 * np.log(1 + lo / 700), 1127 * np.log(1 + top / 700), nf + 2)
            ref = np.maximum(0, np.minimum((m[:, None] - c[:-2]) / (c[1:-1] - c[:-2]), (c[2:] - m[:, None]) / (c[2:] - c[1:-1])))
            ref[h] = 0
            close(b, ref, "triangles", 1e-6, 1e-7)
        else:
            c = np.linspace(lo, top, nf + 2) if t == "linear" else 700 * (np.exp(np.linspace(np.log(1 + lo / 700), np.log(1 + top / 700), nf + 2)) - 1)
            n = np.round(c / fs * nfft).astype(int)
            for k in range(nf):
                for j in range(h + 1):
                    a, z, e = n[k:k + 3]
                    v = (j - a + 1) / (z - a + 1) if a <= j <= z else (e - j + 1) / (e - z + 1) if z < j <= e else 0
                    check(abs(b[j, k] - v) < 1e-9, "%s filter %d bin %d" % (t, k, j))
        if np.all(b.sum(axis=0) > 0):
            close(B.create(t, nf, nfft, fs, lo, hi, True), b / b.sum(axis=0), "filters that sum to one", 1e-9)
    raises(lambda: B.create("none", nf, nfft, fs, lo, hi, False), "unknown bank", Exception)


def make(r, **kw):
    o = dict(fs=8000, frame_length=r.int(4, 10), frame_shift=r.int(2, 5), fft_length=r.pick(64, 128), remove_dc_offset=r.bool(), preemph_coeff=r.pick(0, .97), window_type=r.pick("povey", "hamming", "rectangular"),
             use_fft2=r.bool(), dither=r.pick(0, 1), fb_type=r.pick("mel_kaldi", "mel_kaldi", "mel_etsi", "linear"), low_freq=200, num_filters=r.int(4, 8), norm_filters=r.bool(), num_ceps=r.int(2, 4),
             raw_energy=r.bool(), use_energy=r.bool(), cepstral_lifter=r.pick(0, 22), energy_floor=r.pick(0, 1.0))
    o.update(kw)
    return o


@case("C17", "mfcc.steps", targets=[MF + "compute", MF + "__init__", MF + "reset"])
def k5(r):
    """the pipeline cut at any step gives the same cepstra"""
    o = make(r)
    x = r.arr(400) * r.pick(1e-3, 1, 100)
    x0 = x.copy()
    p = MFCC(**o).compute(x)
    same(x, x0, "signal")
    step = r.pick("fft", "fft_mag", "log_spec", "logfb")
    if step in ("fft", "fft_mag", "log_spec") and o["use_energy"] and o["fb_type"] != "mel_kaldi":
        # the first bin of the spectrum carries the energy; the bank must not use it
        b = MFCC(**o)._fb
        if np.any(b[0] != 0):
            raise Skip
    a, b = MFCC(**dict(o, output_step=step)), MFCC(**dict(o, input_step=step))
    m = a.compute(x)
    m0 = m.copy()
    q = b.compute(m)
    check(p.shape == q.shape, "shape")
    tol = 2e-3 if step == "log_spec" else 1e-4
    check(np.max(np.abs(p - q)) <= tol * (1 + np.abs(p).max()), "cut at %s: %g" % (step, np.max(np.abs(p - q))))


@case("C17", "mfcc.wave", targets=[MF + "compute", MF + "compute_raw_logE", MF + "make_lifter", MF + "__init__", MF + "reset"])
def k6(r):
    o = make(r, dither=0)
    n = 80 + r.int(0, 300)
    x = r.arr(n, ties=False) * 100
    mf = MFCC(**o)
    p, X, F, Bk = mf.compute(x, return_fft=True, return_fft_mag=True, return_logfb=True)
    mf.reset()
    same(mf.compute(x), p, "the same signal after reset")
    L, S = int(o["frame_length"] * 8), int(o["frame_shift"] * 8)
    y = x
    if o["remove_dc_offset"]:
        y = np.zeros(n)
        for i in range(n):
            y[i] = x[i] - (x[i - 1] if i else 0) + .999 * (y[i - 1] if i else 0)
    fr = frames(y, L, S)
    e = np.log(np.array([np.sum(f ** 2) for f in fr]) + 1e-15)
    z = y - o["preemph_coeff"] * np.concatenate(([0], y[:-1])) if o["preemph_coeff"] else y
    nfft = mf.fft_length
    check(nfft >= L, "fft over the frame")
    w = W.create(o["window_type"], L)
    sp = np.array([dft(f * w, nfft, nfft // 2 + 1) for f in frames(z, L, S)])
    check(np.max(np.abs(X - sp)) <= 1e-4 * np.abs(sp).max(), "spectrum")
    f = np.abs(sp)
    if not o["raw_energy"]:
        e = np.log(np.mean(f ** 2, axis=-1) + 1e-10)
    if o["use_fft2"]:
        f = f ** 2
    close(F, f, "magnitude", 1e-3)
    b = np.log(f.dot(B.create(o["fb_type"], o["num_filters"], nfft, 8000, 200, 0, o["norm_filters"])) + 1e-10)
    check(np.max(np.abs(Bk - b)) < 1e-3 * (1 + np.abs(b).max()), "filter bank")
    nf, nc = o["num_filters"], o["num_ceps"]
    k = np.arange(nf)
    c = np.array([[np.sqrt((1 if q == 0 else 2) / nf) * np.sum(row * np.cos(np.pi * q * (2 * k + 1) / (2 * nf))) for q in range(nc)] for row in b])
    Q = o["cepstral_lifter"]
    if Q:
        c = c * (1 + Q / 2 * np.sin(np.pi * np.arange(nc) / Q))
    if o["use_energy"]:
        c[:, 0] = np.maximum(e, np.log(o["energy_floor"] + 1e-15))
    check(p.shape == c.shape and np.max(np.abs(p - c)) < 2e-3 * (1 + np.abs(c).max()), "cepstra %s %g" % (p.shape, np.max(np.abs(p - c))))


@case("C17", "mfcc.args", targets=[MF + "filter_args", MF + "add_argparse_args", WF + "add_argparse_args", FB + "add_argparse_args"])
def k7(r):
    pre = None if r.bool() else "aa"
    p = "--" if pre is None else "--aa-"
    pa = argparse.ArgumentParser()
    MFCC.add_argparse_args(pa, pre)
    kw = vars(pa.parse_args([p + "num-ceps", "7", p + "num-filters", "11", p + "window-type", "hamming", p + "use-energy", str(r.bool(1.0)), p + "snip-edges", "false", p + "dither", "0"]))
    m = MFCC(**MFCC.filter_args(pre, **kw))
    check((m.num_ceps, m.num_filters, m.window_type, m.use_energy, m.snip_edges, m.dither) == (7, 11, "hamming", True, False, 0), "options")
    d = vars(argparse.Namespace(**MFCC.filter_args(pre, **vars(pa.parse_args([])))))
    ref = MFCC()
    for k in d:
        if k != "blackman_coeff":
            check(d[k] == getattr(ref, k), "default of %s: %s, %s" % (k, d[k], getattr(ref, k)))
