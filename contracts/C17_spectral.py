from vc import *
from shim_np import NP

SM, WM, BM, MM = "hyperion.feats.stft", "hyperion.feats.feature_windows", "hyperion.feats.filter_banks", "hyperion.feats.mfcc"
ST, WF, FB, MF = SM + ":", WM + ":FeatureWindowFactory.", BM + ":FilterBankFactory.", MM + ":MFCC."


def L(x):
    return lift(x)


def signal(vc):
    n, fl, sh = vc.int("n", lo=1), vc.int("length", lo=1), vc.int("shift", lo=1)
    vc.assume(le(L(fl), L(n)))
    nf = vc.int("frames", lo=1)
    # frames = floor((n - length)/shift) + 1
    vc.assume(le(mul(sub(L(nf), num(1)), L(sh)), sub(L(n), L(fl))))
    vc.assume(lt(sub(L(n), L(fl)), mul(L(nf), L(sh))))
    return n, fl, sh, nf


def same_frames(vc, got, nf):
    vc.ensure_eq("number of frames", mk(lift(got)), mk(L(nf)))


@contract("C17", "logE", targets=[ST + "st_logE"], replay="stft")
def c_loge(vc):
    mod = vc.mod(SM)
    n, fl, sh, nf = signal(vc)
    x = vc.array("x", (n,))
    s = vc.snap(x)
    e = mod.st_logE(x, fl, sh)
    vc.unchanged("x", s)
    same_frames(vc, e.shape[0], nf)
    i = L(vc.idx("i", nf))
    k = fresh("k")
    z = x.at(add(mul(i, L(sh)), k))
    vc.ensure_eq("energy", mk(e.at(i)), mk(tlog(add(sum_over([L(fl)], [k], mul(z, z)), num(Fraction(1, 10 ** 15))))))


def dft(vc, name):
    """the transform is a linear function of the frame: kernel E(k, b)"""
    E = vc.fn("kernel", 3) if False else vc.array("kernel", (vc.int("big", lo=1), vc.int("big2", lo=1)))
    calls = []

    def f(a, n=None, axis=-1):
        a = NP.asarray(a)
        af, T = a.fn(), a._shape[0]
        calls.append(n)
        bins = L(n) if name == "fft" else add(tfdiv(L(n), num(2)), num(1))

        def g(b):
            k = fresh("k")
            return sum_over([T], [k], mul(lift(af(k)), E.at(k, b)))
        return SArr((bins,), "f", g)
    return E, f, calls


@contract("C17", "stft", targets=[ST + "stft", ST + "strft"], replay="stft")
def c_stft(vc):
    """spectrum of the windowed frame at i*shift"""
    mod = vc.mod(SM)
    nm = vc.choose("transform", ["fft", "rfft"])
    n, fl, sh, nf = signal(vc)
    N = vc.int("fft_length", lo=1)
    vc.assume(le(L(fl), L(N)))
    x = vc.array("x", (n,))
    w = vc.array("w", (fl,)) if vc.choose("window", ["no", "yes"]) == "yes" else None
    E, f, calls = dft(vc, nm)
    vc.patch(NP.fft, nm, f)
    s = vc.snap(x)
    X = (mod.stft if nm == "fft" else mod.strft)(x, fl, sh, N, w)
    vc.unchanged("x", s)
    same_frames(vc, X.shape[0], nf)
    bins = L(N) if nm == "fft" else add(tfdiv(L(N), num(2)), num(1))
    vc.ensure_eq("number of bins", mk(lift(X.shape[1])), mk(bins))
    i, b = L(vc.idx("i", nf)), L(vc.idx("b", mk(bins)))
    k = fresh("k")
    v = x.at(add(mul(i, L(sh)), k))
    if w is not None:
        v = mul(v, w.at(k))
    vc.ensure_eq("spectrum", mk(X.at(i, b)), mk(sum_over([L(fl)], [k], mul(v, E.at(k, b)))))


@contract("C17", "istft", targets=[ST + "istft", ST + "istrft"], replay="istft")
def c_istft(vc):
    """overlapped frames over overlapped windows, zero where no window"""
    mod = vc.mod(SM)
    nm = vc.choose("transform", ["ifft", "irfft"])
    nf, bins, N, fl, sh = vc.int("frames", lo=1), vc.int("bins", lo=1), vc.int("N", lo=1), vc.int("length", lo=1), vc.int("shift", lo=1)
    vc.assume(le(L(fl), L(N)))
    X = vc.array("X", (nf, bins))
    w = vc.array("w", (fl,)) if vc.choose("window", ["no", "yes"]) == "yes" else None
    xx = vc.array("inverse", (nf, N))
    got = []

    def f(a, n=None, axis=-1):
        got.append((a, axis))
        return xx
    vc.patch(NP.fft, nm, f)
    y = (mod.istft if nm == "ifft" else mod.istrft)(X, fl, sh, w)
    vc.ensure("inverse of the spectra", len(got) == 1 and got[0][0] is X and got[0][1] in (-1, 1))
    m = add(mul(sub(L(nf), num(1)), L(sh)), L(fl))
    vc.ensure_eq("samples", mk(lift(y.shape[0])), mk(m))
    s = L(vc.idx("s", mk(m)))
    i, i2 = fresh("i"), fresh("i")

    def cover(i):
        z = sub(s, mul(i, L(sh)))
        return z, mul(ind(le(num(0), z)), ind(lt(z, L(fl))))
    z, c = cover(i)
    num_ = sum_over([L(nf)], [i], mul(c, xx.at(i, z)))
    z, c = cover(i2)
    den = sum_over([L(nf)], [i2], mul(c, w.at(z)) if w is not None else c)
    if ENG.branch(eq(den, num(0))):
        vc.ensure_eq("no window", mk(y.at(s)), mk(num_))
    else:
        vc.ensure_eq("sample", mk(y.at(s)), mk(div(num_, den)))


def lin(a, b, n, i):
    """i-th of n points from a to b"""
    return add(a, mul(div(sub(b, a), sub(n, num(1))), i))


@contract("C17", "bank.kaldi", targets=[FB + "make_mel_kaldi", FB + "lin2mel"], replay="banks")
def c_kaldi(vc):
    mod = vc.mod(BM)
    F = mod.FilterBankFactory
    nf, N = vc.int("filters", lo=1), vc.int("fft_length", lo=2)
    fs, lo = vc.real("fs", lo=1), vc.real("low", lo=0)
    hk = vc.choose("high", ["nyquist", "value"])
    hi = 0 if hk == "nyquist" else vc.real("high", lo=1)
    B = F.make_mel_kaldi(nf, N, fs, lo, hi)
    top = div(L(fs), num(2)) if hk == "nyquist" else L(hi)
    half = tfdiv(L(N), num(2))
    vc.ensure_shape("shape", B, (mk(add(half, num(1))), nf))
    j, k = L(vc.idx("j", mk(add(half, num(1))))), L(vc.idx("k", nf))
    mel = lambda x: mul(num(1127), tlog(add(num(1), div(x, num(700)))))
    c = lambda q: lin(mel(L(lo)), mel(top), add(L(nf), num(2)), q)
    m = mel(lin(num(0), L(fs), L(N), j))
    a, z, e = c(k), c(add(k, num(1))), c(add(k, num(2)))
    v = ite(band(lt(a, m), lt(m, e), lt(j, half)), ite(le(m, z), div(sub(m, a), sub(z, a)), div(sub(e, m), sub(e, z))), num(0))
    vc.ensure_eq("triangle", mk(B.at(j, k)), mk(v))


@contract("C17", "bank.etsi", targets=[FB + "make_mel_etsi", FB + "make_linear", FB + "mel2lin"], replay="banks")
def c_etsi(vc):
    mod = vc.mod(BM)
    F = mod.FilterBankFactory
    t = vc.choose("bank", ["mel_etsi", "linear"])
    nf, N = vc.int("filters", lo=1), vc.int("fft_length", lo=2)
    fs, lo, hi = vc.real("fs", lo=1), vc.real("low", lo=0), vc.real("high", lo=1)
    half = tfdiv(L(N), num(2))
    cb = vc.array("cbin", (mk(add(L(nf), num(2))),), "i")
    # nearest bins of increasing frequencies up to the Nyquist frequency
    vc.assume(vc.forall(mk(add(L(nf), num(1))), lambda q: le(cb.at(L(q)), cb.at(add(L(q), num(1))))))
    vc.assume(vc.forall(mk(add(L(nf), num(2))), lambda q: band(le(num(0), cb.at(L(q))), le(cb.at(L(q)), half))))
    seen = []

    def rnd(a, *k):
        seen.append(a)
        return cb
    vc.patch(NP, "round", rnd)
    B = (F.make_mel_etsi if t == "mel_etsi" else F.make_linear)(nf, N, fs, lo, hi)
    vc.ensure("one rounding", len(seen) == 1)
    q = L(vc.idx("q", mk(add(L(nf), num(2)))))
    mel = lambda x: mul(num(1127), tlog(add(num(1), div(x, num(700)))))
    f = lin(L(lo), L(hi), add(L(nf), num(2)), q) if t == "linear" else \
        mul(num(700), sub(texp(div(lin(mel(L(lo)), mel(L(hi)), add(L(nf), num(2)), q), num(1127))), num(1)))
    vc.ensure_eq("center in bins", mk(seen[0].at(q)), mk(mul(div(f, L(fs)), L(N))))
    vc.ensure_shape("shape", B, (mk(add(half, num(1))), nf))
    j, k = L(vc.idx("j", mk(add(half, num(1))))), L(vc.idx("k", nf))
    a, z, e = cb.at(k), cb.at(add(k, num(1))), cb.at(add(k, num(2)))
    v = ite(band(le(a, j), le(j, z)), div(add(sub(j, a), num(1)), add(sub(z, a), num(1))),
            ite(band(lt(z, j), le(j, e)), div(add(sub(e, j), num(1)), add(sub(e, z), num(1))), num(0)))
    vc.ensure_eq("filter", mk(B.at(j, k)), mk(v))


@contract("C17", "bank.create", targets=[FB + "create"], replay="banks")
def c_create(vc):
    mod = vc.mod(BM)
    F = mod.FilterBankFactory
    t = vc.choose("bank", ["mel_kaldi", "mel_etsi", "linear", "other"])
    nf, N, bins = vc.int("filters", lo=1), vc.int("fft_length", lo=2), vc.int("bins", lo=1)
    fs, lo, hi = vc.real("fs", lo=1), vc.real("low", lo=0), vc.real("high", lo=1)
    B = vc.array("B", (bins, nf), pos=True)
    calls = []
    for nm in ("mel_kaldi", "mel_etsi", "linear"):
        vc.patch(F, "make_" + nm, (lambda nm: staticmethod(lambda *a: calls.append((nm,) + a) or B))(nm))
    norm = vc.choose("norm", [False, True])
    if t == "other":
        vc.raises("unknown bank", lambda: F.create("other", nf, N, fs, lo, hi, norm))
        return
    s = vc.snap(B)
    R = F.create(t, nf, N, fs, lo, hi, norm)
    vc.ensure("bank of the type", len(calls) == 1 and calls[0][0] == t and all(a is b for a, b in zip(calls[0][1:], (nf, N, fs, lo, hi))))
    vc.ensure_shape("shape", R, (bins, nf))
    j, k, q = L(vc.idx("j", bins)), L(vc.idx("k", nf)), fresh("q")
    v = B.at(j, k)
    vc.unchanged("bank", s)
    vc.ensure_eq("filter", mk(R.at(j, k)), mk(div(v, sum_over([L(bins)], [q], B.at(q, k))) if norm else v))


@contract("C17", "povey", targets=[WF + "create"], replay="windows")
def c_windows(vc):
    mod = vc.mod(WM)
    N = vc.int("N", lo=1)
    t = vc.choose("window", ["hamming", "hanning", "blackman", "rectangular", "other"])
    W = mod.FeatureWindowFactory
    w = vc.array("window", (N,))
    calls = []
    for fn, nm in (("hamming", "hamming"), ("hann", "hanning"), ("blackman", "blackman")):
        vc.patch(mod, fn, (lambda nm: lambda M, sym=True: calls.append((nm, M, sym)) or w)(nm))
    if t == "other":
        vc.raises("unknown window", lambda: W.create("other", N))
        return
    y = W.create(t, N)
    vc.ensure_shape("shape", y, (N,))
    i = L(vc.idx("i", N))
    if t == "rectangular":
        vc.ensure_eq("ones", mk(y.at(i)), mk(num(1)))
    else:
        vc.ensure("periodic window of the type", len(calls) == 1 and calls[0][0] == t and calls[0][1] is N and not calls[0][2])
        vc.ensure_eq("values", mk(y.at(i)), mk(w.at(i)))


STEPS = ["wave", "fft", "fft_mag", "log_spec", "logfb", "cepstrum"]


@contract("C17", "mfcc", targets=[MF + "compute", MF + "compute_raw_logE"], replay="mfcc.wave", timeout=240)
def c_mfcc(vc):
    """every step of the pipeline, from any input step to any later output step"""
    mod = vc.mod(MM)
    i0 = vc.choose("input", STEPS[:5])
    i1 = vc.choose("output", STEPS[1:])
    a, b = STEPS.index(i0), STEPS.index(i1)
    if b <= a:
        return
    T, bins, nf, nc = vc.int("T", lo=1), vc.int("bins", lo=2), vc.int("filters", lo=2), vc.int("ceps", lo=1)
    vc.assume(le(L(nc), L(nf)))
    m = mod.MFCC.__new__(mod.MFCC)
    en, f2 = vc.choose("energy", [False, True]), vc.choose("square", [True, False]) if a <= 1 and b >= 2 else True
    raw = vc.choose("raw", [True, False]) if a == 0 and en else True
    lif = vc.choose("lifter", [True, False]) if b == 5 else True
    dc, pre = (vc.choose("filters", [(True, True), (True, False), (False, True), (False, False)])) if a == 0 else (True, True)
    fb, lifter = vc.array("fb", (bins, nf)), vc.array("lifter", (nc,))
    fl, sh, N = vc.int("length", lo=1), vc.int("shift", lo=1), vc.int("fft_length", lo=1)
    floor = vc.real("floor", lo=0)
    w = vc.array("window", (fl,))
    db, da, pb = [vc.array(q, (2,)) for q in ("db", "da", "pb")]
    z0, z1, z0n, z1n = [vc.array(q, (1,)) for q in ("z0", "z1", "z0n", "z1n")]
    m.__dict__.update(_input_step=mod.mfcc_steps_dict[i0], _output_step=mod.mfcc_steps_dict[i1], use_energy=en, use_fft2=f2, raw_energy=raw, snip_edges=True, dither=0,
                      remove_dc_offset=dc, preemph_coeff=Fraction(97, 100) if pre else 0, cepstral_lifter=22 if lif else 0, _lifter=lifter, num_ceps=nc, _fb=fb,
                      _length=fl, _shift=sh, fft_length=N, _window=w, _dc_b=db, _dc_a=da, _preemph_b=pb, _dc_zi=z0, _preemph_zi=z1, energy_floor=floor)
    n = vc.int("n", lo=1)
    X = vc.array("X", (T, bins))
    e0 = vc.array("e0", (T,))
    D = vc.array("D", (nf, nf))
    y = {}
    log = []

    def lfilter(bb, aa, x, zi=None):
        k = "dc" if bb is db else "pre"
        y[k] = vc.array("y" + k, (n,))
        log.append((k, bb, aa, x, zi))
        return y[k], (z0n if k == "dc" else z1n)

    def strft(x, *args):
        log.append(("strft", x) + args)
        return X.copy()

    def loge(x, *args):
        log.append(("logE", x) + args)
        return e0

    def dct(Bm, type=2, norm=None, **k):
        log.append(("dct", type, norm))
        return NP.dot(Bm, D)
    vc.patch(mod, "lfilter", lfilter)
    vc.patch(mod, "strft", strft)
    vc.patch(mod, "st_logE", loge)
    vc.patch(mod, "dct", dct)
    if a == 0:
        x = vc.array("x", (n,))
    else:
        x = vc.array("x", (T, {1: bins, 2: bins, 3: bins, 4: mk(add(L(nf), num(1))) if en else nf}[a]))
    s = vc.snap(x)
    x1 = x
    R = m.compute(x)
    # ---- the pipeline
    if a == 0:
        vc.unchanged("signal", s)
        cur = x
        want = []
        if dc:
            want.append(("dc", db, da, cur, z0))
            cur = y["dc"]
        if en and raw:
            want.append(("logE", cur, fl, sh))
        if pre:
            want.append(("pre", pb, [1], cur, z1))
            cur = y["pre"]
        want.append(("strft", cur, fl, sh, N, w))
        got = [g for g in log if g[0] != "dct"]
        vc.ensure("filters, energy and spectrum", len(got) == len(want) and all(len(g) == len(h) and all(p is q or (isinstance(q, list) and list(p) == q) or (isinstance(q, str) and p == q) for p, q in zip(g, h)) for g, h in zip(got, want)))
        vc.ensure("state of the filters", (m._dc_zi is (z0n if dc else z0)) and (m._preemph_zi is (z1n if pre else z1)))
    t = L(vc.idx("t", T))
    old = s[0][1]
    ab = lambda v: ite(le(num(0), v), v, neg(v))
    if a == 0:
        X0 = lambda i, j: X.at(i, j)
    else:
        X0 = lambda i, j: old.at(i, j)
    k = fresh("k")
    if a <= 1:
        mag = lambda i, j: ab(X0(i, j))
    elif a == 2:
        mag = X0
    elif a == 3:
        mag = lambda i, j: texp(X0(i, j))
    E = None
    if en:
        if a == 0:
            E = e0.at(t) if raw else tlog(add(div(sum_over([L(bins)], [k], mul(mag(t, k), mag(t, k))), L(bins)), num(Fraction(1, 10 ** 10))))
        else:
            E = X0(t, num(0))
        fe = tlog(add(L(floor), num(Fraction(1, 10 ** 15))))
        E = ite(le(fe, E), E, fe)
    if a <= 3:
        spec = (lambda i, j: mul(mag(i, j), mag(i, j))) if a <= 1 and b >= 2 and f2 else mag
    off = num(1) if en else num(0)

    def fbank(i, j):
        if a == 4:
            return X0(i, add(j, off))
        q = fresh("q")
        return tlog(add(sum_over([L(bins)], [q], mul(spec(i, q), fb.at(q, j))), num(Fraction(1, 10 ** 10))))
    tiny = num(Fraction(1, 10 ** 10))
    if b == 1:
        val, cols = X0, bins
    elif b == 2:
        val, cols = spec, bins
    elif b == 3:
        val, cols = (lambda i, j: tlog(add(spec(i, j), tiny))), bins
    elif b == 4:
        val, cols = fbank, nf
    else:
        def val(i, j):
            q = fresh("q")
            v = sum_over([L(nf)], [q], mul(fbank(i, q), D.at(q, j)))
            return mul(v, lifter.at(j)) if lif else v
        cols = nc
        vc.ensure("cosine transform", [g for g in log if g[0] == "dct"] == [("dct", 2, "ortho")])
    wide = b == 4 and en
    vc.ensure_shape("shape", R, (T, mk(add(L(cols), num(1))) if wide else cols))
    j = L(vc.idx("j", cols))
    if en:
        vc.ensure_eq("energy", mk(R.at(t, num(0))), mk(E))
        if wide:
            vc.ensure_eq("value", mk(R.at(t, add(j, num(1)))), mk(val(t, j)))
        else:
            vc.assume(le(num(1), j))
            vc.ensure_eq("value", mk(R.at(t, j)), mk(val(t, j)))
    else:
        vc.ensure_eq("value", mk(R.at(t, j)), mk(val(t, j)))


@contract("C17", "lifter", targets=[MF + "make_lifter"], replay="mfcc.wave")
def c_lifter(vc):
    mod = vc.mod(MM)
    N, Q = vc.int("N", lo=1), vc.real("Q", lo=1)
    y = mod.MFCC.make_lifter(N, Q)
    vc.ensure_shape("shape", y, (N,))
    i = L(vc.idx("i", N))
    vc.ensure_eq("value", mk(y.at(i)), mk(add(num(1), mul(num(Fraction(1, 2)), L(Q), app("sin", div(mul(lift(NP.pi), i), L(Q)))))))
    vc.ensure("no liftering", mod.MFCC.make_lifter(N, 0) == 1)
