from harness import *
from hyperion.calibration.gauss_calibration import GaussCalibration

M = "hyperion.calibration.gauss_calibration:GaussCalibration."


def llr(x, m1, m2, s2):
    return ((x - m2) ** 2 - (x - m1) ** 2) / (2 * s2)


@case("C03", "gauss_cal.predict", [M + "predict"])
def predict(r):
    m1, m2, s2 = r.real(), r.real(), r.pos()
    x = r.arr(r.size(0, 8))
    if r.bool(0.3):
        x = x * 10
    x0 = x.copy()
    o = GaussCalibration(mu1=m1, mu2=m2, sigma2=s2, **r.pick({}, dict(prior=0.1), dict(name="a")))
    y = o.predict(x)
    close(y, llr(x0, m1, m2, s2), "LLR", 1e-7)
    check(np.array_equal(x, x0), "input modified")
    if r.bool(0.3):
        x2 = r.arr(2, 3)
        close(o.predict(x2), llr(x2, m1, m2, s2), "LLR of a matrix", 1e-7)


@case("C03", "gauss_cal.fit", [M + "fit"])
def fit(r):
    n = r.size(2, 12)
    x = r.arr(n)
    y = r.labels(n, 2)
    y[:2] = [0, 1]
    p = r.perm(n)
    y = y[p]
    if r.bool(0.1):
        y = y.astype(float)
    if len(set(x)) < 3:
        x = x + r.np.randn(n)
    w = r.posarr(n) if r.bool() else None
    if w is not None and r.bool(0.2):
        w = np.round(w) + 1
    c = [a.copy() for a in (x, y)] + ([w.copy()] if w is not None else [])
    o = GaussCalibration(prior=r.pick(0.5, 0.1))
    o.fit(x, y) if w is None else o.fit(x, y, w)
    ww = np.ones(n) if w is None else w
    m = [sum(ww[i] * x[i] for i in range(n) if y[i] == k) / sum(ww[i] for i in range(n) if y[i] == k) for k in (0, 1)]
    s2 = sum(ww[i] * (x[i] - m[int(y[i])]) ** 2 for i in range(n)) / ww.sum()
    close(o.mu1, m[1], "target mean")
    close(o.mu2, m[0], "non-target mean")
    close(o.sigma2, s2, "pooled variance")
    close(o.prior, ww[y == 1].sum() / ww.sum(), "prior")
    z = r.arr(5)
    if s2 > 1e-3:
        close(o.predict(z), llr(z, m[1], m[0], s2), "LLR after fit", 1e-5)
    for a, b in zip((x, y, w), c):
        check(np.array_equal(a, b), "input modified")
    if r.bool(0.3):
        # refitting does not depend on the previous fit
        x2, y2 = x[::-1] * 2 + 1, y[::-1]
        o.fit(x2, y2)
        q = GaussCalibration()
        q.fit(x2, y2)
        close([o.a, o.b, o.mu1, o.mu2, o.sigma2], [q.a, q.b, q.mu1, q.mu2, q.sigma2], "refit")


@case("C03", "gauss_cal.save_load", [M + "load_params", M + "save_params"], weight=0.5)
def io(r):
    f32 = lambda v: float(np.float32(v))
    m1, m2, s2 = f32(r.real()), f32(r.real()), f32(r.pos())
    o = GaussCalibration(mu1=m1, mu2=m2, sigma2=s2, name=r.pick(None, "cal"))
    f = os.path.join(r.tmp, "m.h5")
    o.save(f)
    q = GaussCalibration.load(f)
    close([q.mu1, q.mu2, q.sigma2], [m1, m2, s2], "saved parameters", 1e-9)
    close([q.a, q.b], [o.a, o.b], "slope and bias", 1e-9)
    check(q.name == o.name, "name")
    x = r.arr(4)
    close(q.predict(x), o.predict(x), "prediction after load", 1e-9)
