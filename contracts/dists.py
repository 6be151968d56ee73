"""D01: distance measures."""
import numpy as _np
from ._h import contract, signal

DI = "distances.distances:"
DB = "distances._distances:"


def pair(c, lo_n=4, maxch=None, mono_first=False):
    """two signals of the same kind"""
    n = c.dim("n", lo_n)
    m = c.dim("m", 1, maxch, typ=(1, 3))
    c.requires(m <= n)
    fs = c.int("fs", 1000, 100000, typ=(8000, 48000))
    k = 1 if mono_first else m
    x, y = c.array("x", (n, k), lo=-1, hi=1), c.array("y", (n, m), lo=-1, hi=1)
    S = c.dsp.Signal
    return (S(None, c.snap(x), fs, constrain_amplitude=False), S(None, c.snap(y), fs, constrain_amplitude=False), x, y, n, m, fs)


@contract("D01", [DI + "snr", DB + "_snr"])
def snr(c):
    """the signal-to-noise ratio of every channel is the level difference between signal and noise; a noise with one channel counts
    for all channels"""
    np = c.np
    mono = c.bool("one noise channel")
    if c.case(mono):
        noise, sig, x, y, n, m, fs = pair(c, mono_first=True)
    else:
        noise, sig, x, y, n, m, fs = pair(c)
    i0 = (lambda j: 0) if c.case(mono) else (lambda j: j)
    p, q = np.std(y, axis=0), np.std(x, axis=0)       # the package's notion of level: without the mean (see L03)
    c.requires(c.all_(m, lambda j: c.and_(p[j] > 1e-2, q[i0(j)] > 1e-2)))
    r = c.dsp.distances.snr(sig, noise)
    c.shape("one value per channel", r, (m,))
    c.forall("level difference", [m], lambda j: (r[j], 20 * np.log10(p[j] / q[i0(j)])))
    c.eq("signal unchanged", sig.time_data, y)
    c.eq("noise unchanged", noise.time_data, x)


@contract("D01", [DI + "si_sdr", DB + "_sisdr"])
def scale_invariant_sdr(c):
    """the target's projection on the signal over the remainder in decibel for every channel, with one target for all channels or one each"""
    np = c.np
    mono = c.bool("one target channel")
    if c.case(mono):
        s, t, x, y, n, m, fs = pair(c, mono_first=True, maxch=3)
    else:
        s, t, x, y, n, m, fs = pair(c, maxch=3)
    i0 = (lambda j: 0) if c.case(mono) else (lambda j: j)
    ss = c.arr((m,), lambda j: c.sum(n, lambda i: x[i, i0(j)] * x[i, i0(j)]))
    c.requires(c.all_(m, lambda j: ss[j] > 1e-2))
    a = c.arr((m,), lambda j: c.sum(n, lambda i: x[i, i0(j)] * y[i, j]) / ss[j])
    num = c.arr((m,), lambda j: c.sum(n, lambda i: (a[j] * x[i, i0(j)]) ** 2))
    den = c.arr((m,), lambda j: c.sum(n, lambda i: (a[j] * x[i, i0(j)] - y[i, j]) ** 2))
    c.requires(c.all_(m, lambda j: c.and_(num[j] > 1e-6, den[j] > 1e-6)))
    r = c.dsp.distances.si_sdr(s, t)
    c.shape("one value per channel", r, (m,))
    c.forall("definition", [m], lambda j: (r[j], 10 * np.log10(num[j] / den[j])))


@contract("D01", [DI + "si_sdr", DB + "_sisdr"], sym=False, trials=60)
def scale_invariance(c):
    """scaling the modified signal or the target does not change the ratio"""
    s, t, x, y, n, m, fs = pair(c)
    c.requires(float(_np.min(_np.abs(_np.sum(x * y, axis=0)))) > 1e-3)
    r = c.dsp.distances.si_sdr(s, t)
    g, h = c.real("g", 0.05, 20), c.real("h", -20, -0.05)
    S = c.dsp.Signal
    c.eq("modified scaled", c.dsp.distances.si_sdr(s, S(None, y * g, fs, constrain_amplitude=False)), r, tol=1e-6)
    c.eq("target scaled", c.dsp.distances.si_sdr(S(None, x * h, fs, constrain_amplitude=False), t), r, tol=1e-6)


def spectral(c, which):
    np = c.np
    E = c.dsp.standard.enums
    n = c.dim("n", 64, typ=(64, 200))
    ranged = c.case(c.bool("range"))
    m = 1 if ranged and c.symbolic else c.choice("m", [1, 2])
    fs = c.int("fs", 1000, 100000, typ=(8000, 48000))
    x, y = c.array("x", (n, m), lo=-1, hi=1), c.array("y", (n, m), lo=-1, hi=1)
    S = c.dsp.Signal
    s, t = (S(None, c.snap(v), fs, constrain_amplitude=False) for v in (x, y))
    scal = c.choice("scaling", ["PowerSpectrum", "AmplitudeSpectrum"])
    norm = c.case(c.bool("normalise"))
    if c.symbolic and which == "log" and ranged:      # the other combinations are met by the concrete evaluation
        c.requires(scal == "PowerSpectrum" and not norm)
    W = c.choice("window", [32, 64])
    c.opaque("classes.signal:_welch", lambda a: [((a["window_length_samples"] // 2 + 1, a["x"].shape[1]), "f")])
    old = E.SpectrumMethod.FFT
    for q in (s, t):
        q.set_spectrum_parameters(method=old)
    par = dict(scaling=E.SpectrumScaling[scal], window_length_samples=W)
    u, v = s.copy(), t.copy()
    for q in (u, v):
        q.set_spectrum_parameters(method=E.SpectrumMethod.WelchPeriodogram, **par)
    f, X = u.get_spectrum()
    f, Y = v.get_spectrum()
    if ranged:
        a = c.real("low", 0.02, 0.2) * fs
        b = a + c.real("width", 0.1, 0.25) * fs
    else:
        a, b = 0, fs // 2
    i1, i2 = np.argmin(np.abs(a - f)), np.argmin(np.abs(b - f))
    c.requires(i2 > i1)
    fn = c.dsp.distances.log_spectral if which == "log" else c.dsp.distances.itakura_saito
    r = fn(s, t, E.SpectrumMethod.WelchPeriodogram, [b, a] if ranged else None, norm, par)
    p = np.abs(X) if scal == "PowerSpectrum" else np.abs(X) ** 2
    q = np.abs(Y) if scal == "PowerSpectrum" else np.abs(Y) ** 2
    f = f[i1:i2]
    c.shape("one value per channel", r, (m,))
    for j in range(m):
        A, B = p[i1:i2, j], q[i1:i2, j]
        if norm:
            A, B = A / np.sum(A), B / np.sum(B)
        if which == "log":
            e = np.sqrt(c.simpson((10 * np.log10(A / B)) ** 2, x=f))
        else:
            e = c.simpson(A / B - np.log(A / B) - 1, x=f)
        c.eq(f"definition, channel {j}", r[j], e)
    for nm, w, o in (("first", s, x), ("second", t, y)):
        c.ensure(nm + " keeps its settings", w.spectrum_method == old)
        c.eq(nm + " keeps its samples", w.time_data, o)


@contract("D01", [DI + "log_spectral", DB + "_log_spectral_distance"])
def log_spectral(c):
    """the root of the integrated squared level difference of the power spectra inside of the range, per channel, without changing the signals"""
    spectral(c, "log")


@contract("D01", [DI + "itakura_saito", DB + "_itakura_saito_measure"])
def itakura_saito(c):
    """the integral of x/y - ln(x/y) - 1 over the power spectra inside of the range, per channel, without changing the signals"""
    spectral(c, "is")


@contract("D01", [DI + "log_spectral", DI + "itakura_saito", DI + "fw_snr_seg"], sym=False, trials=12)
def identical_signals(c):
    """identical signals have zero spectral distance (the measures are not negative) and reach the upper limit of the segmental ratio"""
    seed = c.int("seed", 0, 10 ** 6)
    rng = _np.random.default_rng(seed)
    m = c.int("m", 1, 2)
    fs = 16000
    x, y = rng.uniform(-1, 1, (6000, m)), rng.uniform(-1, 1, (6000, m)) * c.real("level", 0.1, 1)
    S = c.dsp.Signal
    s, t, w = (S(None, v, fs, constrain_amplitude=False) for v in (x, x, y))
    D = c.dsp.distances
    R = [100, 7000]
    norm = bool(c.bool("normalise"))
    for nm, fn in (("log spectral", D.log_spectral), ("Itakura-Saito", D.itakura_saito)):
        c.eq(nm + " of identical signals", fn(s, t, f_range_hz=R, energy_normalization=norm), _np.zeros(m), tol=1e-9)
        d = fn(s, w, f_range_hz=R, energy_normalization=norm)
        c.ensure(nm + " not negative", bool(_np.all(d > 0)))
    top, low = c.real("top", 10, 40), c.real("low", -20, 0)
    fr, sr = _np.array([5000.0, 200.0]), _np.array([top, low])
    c.eq("segmental ratio of identical signals", D.fw_snr_seg(s, t, fr, sr), _np.full(m, top))
    c.ensure("ranges unchanged", list(fr) == [5000.0, 200.0] and list(sr) == [top, low])
    v = D.fw_snr_seg(s, w, fr, sr)
    c.ensure("segmental ratio inside of its range", bool(_np.all((v >= low - 1e-9) & (v <= top + 1e-9))))
    for j in range(m):
        c.eq(f"channel {j} alone", D.fw_snr_seg(s.get_channels(j), w.get_channels(j), fr, sr), v[j:j + 1])


@contract("D01", [DI + "log_spectral", DI + "itakura_saito", DI + "snr", DI + "si_sdr"])
def refused(c):
    """signals whose sampling rates, channels or lengths do not fit are refused"""
    n = c.int("n", 32, 64)
    k = c.int("extra", 1, 5)
    S = c.dsp.Signal
    fs = c.int("fs", 8000, 48000)
    x, y = c.array("x", (n, 2), lo=-1, hi=1), c.array("y", (n + k, 3), lo=-1, hi=1)
    mk = lambda d, r: S(None, c.snap(d), r, constrain_amplitude=False)
    D = c.dsp.distances
    for nm in ("log_spectral", "itakura_saito", "snr", "si_sdr"):
        fn = getattr(D, nm)
        c.raises(nm + ": sampling rates", AssertionError, lambda: fn(mk(x, fs), mk(x, fs + k)))
        c.raises(nm + ": channels", AssertionError, lambda: fn(mk(x, fs), mk(y[:n], fs)))
    c.raises("lengths", AssertionError, lambda: D.si_sdr(mk(x, fs), mk(y[:, :2], fs)))
    c.raises("range", AssertionError, lambda: D.log_spectral(mk(x, fs), mk(x, fs), f_range_hz=[20, fs / 2 + k]))
    c.raises("negative frequency", AssertionError, lambda: D.itakura_saito(mk(x, fs), mk(x, fs), f_range_hz=[-k, fs // 4]))
