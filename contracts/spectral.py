"""S01, S02: scalings of spectra, cross-spectral matrices and spectrograms."""
from ._h import contract, signal

SC = "standard.enums:SpectrumScaling."
SM = "standard._spectral_methods:"
SU = "helpers.spectrum_utilities:"
PHYS = ("AmplitudeSpectrum", "AmplitudeSpectralDensity", "PowerSpectrum", "PowerSpectralDensity")
FFTS = ("FFTBackward", "FFTForward", "FFTOrthogonal")


def scaling(c, name="scaling", which=PHYS + FFTS):
    k = c.choice(name, list(which))
    return k, c.dsp.standard.enums.SpectrumScaling[k]


def is_power(k):
    return k.startswith("Power")


def some_window(c, n, m):
    """no window (boxcar), one window for all channels, or a window per channel, with positive sums"""
    kind = c.choice("window", ["none", "common", "per_channel"])
    if kind == "none":
        return kind, None, lambda j: (n, n)
    w = c.array("w", (n,) if kind == "common" else (n, m), lo=0.0, hi=1.0)
    at = (lambda i, j: w[i]) if kind == "common" else (lambda i, j: w[i, j])
    return kind, w, lambda j: positive(c, c.sum(n, lambda i: at(i, j)), c.sum(n, lambda i: at(i, j) * at(i, j)))


def positive(c, *sums):
    for s in sums:
        c.requires(s > 0.125)
    return sums


def power_factor(k, n, fs, s1, s2):
    """what the squared magnitude of an unscaled bin (inside the spectrum) is multiplied with"""
    if k in ("AmplitudeSpectrum", "PowerSpectrum"):
        return 2 / (s1 * s1)
    if k in ("AmplitudeSpectralDensity", "PowerSpectralDensity"):
        return 2 / (s2 * fs)
    return {"FFTBackward": 1, "FFTForward": 1 / (n * n), "FFTOrthogonal": 1 / n}[k]


def per_channel(f, j):
    """element of a factor given as a number, (1,), (channels,) or (1, channels) array"""
    if not hasattr(f, "ndim") or f.ndim == 0:
        return f
    if f.ndim == 2:
        return f[0, j]
    return f[0]


@contract("S01", [SC + "get_scaling_factor"])
def scaling_factors(c):
    n, m = c.dim("n", 2), c.dim("ch", 1, typ=(1, 3))
    fs = c.int("fs", 1, 200000)
    k, S = scaling(c)
    kind, w, sums = some_window(c, n, m)
    j = c.int("j", 0, m - 1)
    s1, s2 = sums(j)
    f = S.get_scaling_factor(n, fs, None if w is None else c.snap(w))
    got = per_channel(f, j if kind == "per_channel" else 0)
    c.ensure("positive", got > 0)
    c.eq("factor", got if is_power(k) else got * got, power_factor(k, n, fs, s1, s2))


@contract("S01", [SC + "conversion_factor"])
def scaling_conversion(c):
    """the factor turns (the power, when the kinds differ) of one scaling into the other"""
    n, m = c.dim("n", 2), c.dim("ch", 1, typ=(1, 3))
    fs = c.int("fs", 1, 200000)
    k, S = scaling(c)
    q, T = scaling(c, "output")
    kind, w, sums = some_window(c, n, m)
    j = c.int("j", 0, m - 1)
    s1, s2 = sums(j)
    f = S.conversion_factor(T, n, fs, None if w is None else c.snap(w))
    got = per_channel(f, j if kind == "per_channel" else 0)
    if not is_power(k) and not is_power(q):
        got = got * got
    c.eq("conversion", got, power_factor(q, n, fs, s1, s2) / power_factor(k, n, fs, s1, s2))


def bins(n):
    return n // 2 + 1


def one_sided(c, i, n):
    """share of the power left at bin i of the one-sided spectrum"""
    return c.where(c.or_(i == 0, c.and_(n % 2 == 0, i == n // 2)), 0.5, 1.0)


@contract("S01", ["classes.signal:Signal.get_spectrum", SU + "_scale_spectrum"])
def fft_spectrum(c):
    """every scaling of the FFT against the unscaled FFT"""
    s, x, n, m, fs = signal(c)
    k, S = scaling(c)
    M = c.dsp.standard.enums.SpectrumMethod
    kind = c.choice("window", ["none", "per_channel"])
    j = c.int("j", 0, m - 1)
    s1 = s2 = n
    if kind == "per_channel":
        s = c.dsp.ImpulseResponse(None, c.snap(x), fs, constrain_amplitude=False)
        w = c.array("w", (n, m), lo=0.0, hi=1.0)
        s.set_window(c.snap(w))
        s1, s2 = positive(c, c.sum(n, lambda i: w[i, j]), c.sum(n, lambda i: w[i, j] * w[i, j]))
    s.set_spectrum_parameters(method=M.FFT, pad_to_fast_length=False, scaling=S)
    f, sp = s.get_spectrum()
    ref = c.np.fft.rfft(c.snap(x), axis=0)
    c.shape("one row per frequency", sp, (bins(n), m))
    c.shape("frequencies", f, (bins(n),))
    c.forall("frequencies", [bins(n)], lambda i: (f[i], i * fs / n))

    def expected(i):
        g = power_factor(k, n, fs, s1, s2) * (one_sided(c, i, n) if k in PHYS else 1)
        return ref[i, j] * c.np.sqrt(g) if not is_power(k) else (ref[i, j].real ** 2 + ref[i, j].imag ** 2) * g
    c.forall("scaled spectrum", [bins(n)], lambda i: (sp[i, j], expected(i)))


# ------------------------------------------------------------------ Welch
SIZES = (8, 16, 64, 1024)


def window_length(c):
    """a power of two the code accepts"""
    if not c.symbolic:
        return c.choice("window_length", [8, 16, 32])
    W = c.int("window_length", 8, 2 ** 18)
    c.requires(c.or_(*[W == 2 ** k for k in range(3, 19)]))
    return W


def welch(c, which):
    """every scaling against the mean square of the unscaled one"""
    W = window_length(c)
    x = c.array("x", (c.dim("n", 2), c.dim("ch", 1, typ=(1, 3))))
    n, m = x.shape
    c.requires(m <= n)
    fs = c.int("fs", 1, 200000)
    k, S = scaling(c, which=which)
    E = c.dsp.standard.enums
    wt = E.Window.Hann
    w = c.sci.windows.get_window("hann", W, fftbins=True)
    s1, s2 = positive(c, c.sum(W, lambda i: w[i]), c.sum(W, lambda i: w[i] * w[i]))
    overlap = 50
    run = lambda S: c.dsp.standard._spectral_methods._welch(c.snap(x), None, fs, wt, W, overlap, False, "mean", S)
    shape = (bins(W),) if m == 1 else (bins(W), m)
    raw, got = run(E.SpectrumScaling.FFTBackward), run(S)
    c.shape("one row per frequency", got, shape)
    where = c.choice("bin", ["first", "last", "between"])
    i = {"first": 0, "last": W // 2}.get(where)
    if i is None:
        i = c.int("i", 1, W // 2 - 1)
    at = lambda a: a[i] if m == 1 else a[i, j]
    j = c.int("j", 0, m - 1)
    r, y = at(raw), at(got)
    g = power_factor(k, W, fs, s1, s2) * (0.5 if k in PHYS and where != "between" else 1)
    c.ensure("not negative", c.and_(r >= 0, y >= 0))
    c.eq("scaled power", y if is_power(k) else y * y, r * r * g)


@contract("S01", [SM + "_welch"])
def welch_spectra(c):
    welch(c, ("AmplitudeSpectrum", "PowerSpectrum"))


@contract("S01", [SM + "_welch"])
def welch_densities(c):
    welch(c, ("AmplitudeSpectralDensity", "PowerSpectralDensity"))


@contract("S01", [SM + "_welch"])
def welch_fft_norms(c):
    welch(c, FFTS)


@contract("S01", ["classes.signal:Signal.get_spectrum", SM + "_welch"], sym=False, bounded="signals up to a few hundred samples")
def welch_definition(c):
    """the average over frames of the windowed, one-sided power spectra"""
    np = c.np
    n, m = c.int("n", 2, 300), c.int("ch", 1, 3)
    c.requires(m <= n)
    W = c.choice("window_length", [8, 16, 32, 64])
    fs = c.int("fs", 1, 1000)
    x = c.array("x", (n, m))
    k, S = scaling(c)
    E = c.dsp.standard.enums
    wn = c.choice("window", ["Hann", "Hamming", "Boxcar", "Flattop"])
    w = c.sci.windows.get_window(wn.lower(), W)
    overlap = c.choice("overlap", [0, 25, 50, 75])
    average = c.choice("average", ["mean", "median"])
    detrend = c.choice("detrend", [False, True])
    s = c.dsp.Signal(None, x.copy(), fs)
    s.set_spectrum_parameters(method=E.SpectrumMethod.WelchPeriodogram, window_length_samples=W, window_type=E.Window[wn],
                              overlap_percent=overlap, average=average, detrend=detrend, scaling=S)
    f, sp = s.get_spectrum()
    step = W - int(overlap / 100 * W)
    frames = max(1, -(-n // step))
    pad = np.vstack([x, np.zeros((frames * step + W, m))])
    fr = np.stack([pad[q * step: q * step + W] for q in range(frames)], 1) * w[:, None, None]
    if detrend:
        fr = fr - fr.mean(axis=0)
    P = np.abs(np.fft.rfft(fr, axis=0)) ** 2
    if average == "mean":
        P = P.mean(axis=1)
    else:
        odd = frames if frames % 2 else frames - 1
        P = np.median(P, axis=1) / sum((-1) ** (q + 1) / q for q in range(1, odd + 1))
    P = P * power_factor(k, W, fs, w.sum(), (w ** 2).sum())
    if k in PHYS:
        P[[0, -1]] /= 2
    c.shape("one column per channel", sp, (W // 2 + 1, m))
    c.eq("frequencies", f, np.fft.rfftfreq(W, 1 / fs))
    c.eq("averaged power", sp if is_power(k) else sp ** 2, P)


@contract("S01", ["classes.signal:Signal.get_spectrum"], sym=False, bounded="signals up to a few hundred samples")
def parseval(c):
    """the power spectral density integrates to the mean square"""
    np = c.np
    s, x, n, m, fs = signal(c)
    E = c.dsp.standard.enums
    s.set_spectrum_parameters(method=E.SpectrumMethod.FFT, pad_to_fast_length=False, scaling=E.SpectrumScaling.PowerSpectralDensity)
    f, sp = s.get_spectrum()
    c.eq("integral", sp.sum(axis=0) * fs / n, (x ** 2).mean(axis=0))


@contract("S01", [SM + "_stft"])
def stft_scaling(c):
    """every scaling of the spectrogram against the transform of the windowed frames"""
    W = c.choice("window_length", [16, 32]) if not c.symbolic else c.int("window_length", 16, 2 ** 16)
    if c.symbolic:
        c.requires(c.or_(*[W == 2 ** k for k in range(4, 17)]))
    L = c.choice("fft_length", ["window", "longer"])
    L = W if L == "window" else W + c.int("more", 1, 40)
    n, m = c.dim("n", 2), c.dim("ch", 1, typ=(1, 3))
    c.requires(m <= n)
    x = c.array("x", (n, m))
    fs = c.int("fs", 1, 200000)
    k, S = scaling(c)
    E = c.dsp.standard.enums
    w = c.sci.windows.get_window("hann", W, fftbins=True)
    s1, s2 = positive(c, c.sum(W, lambda i: w[i]), c.sum(W, lambda i: w[i] * w[i]))
    run = lambda S: c.dsp.standard._spectral_methods._stft(c.snap(x), fs, W, E.Window.Hann, 0.0, None if L is W else L, False, False, S)
    t, f, got = run(S)
    raw = run(E.SpectrumScaling.FFTBackward)[2]
    q, j = c.int("frame", 0, got.shape[1] - 1), c.int("j", 0, m - 1)
    c.ensure("one row per frequency", got.shape[0] == bins(L))
    c.shape("frequencies", f, (bins(L),))
    c.forall("frequencies", [bins(L)], lambda i: (f[i], i * fs / L))
    c.shape("times", t, (got.shape[1],))
    where = c.choice("bin", ["first", "last", "between"])
    i = {"first": 0, "last": L // 2}.get(where)
    if i is None:
        i = c.int("i", 1, L // 2 - 1)
    r, y = raw[i, q, j], got[i, q, j]
    g = power_factor(k, L, fs, s1, s2)
    if k in PHYS:
        g = g * one_sided(c, i, L)
    if is_power(k):
        c.eq("scaled power", y, (r.real ** 2 + r.imag ** 2) * g)
    else:
        c.eq("scaled amplitude", y, r * c.np.sqrt(g))


# ------------------------------------------------------------------ cross-spectral matrix
@contract("S02", [SM + "_csm_fft"])
def csm_fft(c):
    F = c.dim("bins", 2)
    m = c.dim("ch", 2, typ=(2, 4))
    even = c.choice("length", ["even", "odd"]) == "even"
    n = 2 * (F - 1) if even else 2 * F - 1
    fs = c.int("fs", 1, 200000)
    X = c.array("X", (F, m), "c")
    k, S = scaling(c, which=[q for q in PHYS + FFTS if not q.startswith("Amplitude")])
    w = None
    a = c.int("a", 0, m - 1)
    b = a if c.choice("pair", ["same", "different"]) == "same" else c.int("b", 0, m - 1)
    if b is not a:
        c.requires(a != b)
        c.case(a < b)
    ga = gb = power_factor(k, n, fs, n, n)
    if k in PHYS and (b is a or not c.symbolic) and c.choice("window", ["none", "per_channel"]) == "per_channel":
        w = c.array("w", (n, m), lo=0.0, hi=1.0)
        ga, gb = [power_factor(k, n, fs, *positive(c, c.sum(n, lambda i: w[i, j]), c.sum(n, lambda i: w[i, j] * w[i, j]))) for j in (a, b)]
    X0 = c.snap(X)
    M = c.dsp.standard._spectral_methods._csm_fft(X0, S, None if w is None else c.snap(w), fs, n)
    c.shape("matrix per frequency", M, (F, m, m))
    i = c.int("i", 0, F - 1)
    c.eq("Hermitian", M[i, a, b], M[i, b, a].conjugate())
    c.eq("real diagonal", M[i, a, a].imag, 0.0)
    one = one_sided(c, i, n) if k in PHYS else 1
    c.eq("auto-spectrum", M[i, a, a].real, (X[i, a].real ** 2 + X[i, a].imag ** 2) * ga * one)
    c.eq("cross-spectrum", M[i, a, b], X[i, a] * X[i, b].conjugate() * ((ga if w is None else c.np.sqrt(ga) * c.np.sqrt(gb)) * one))
    c.unchanged("spectrum", X0, X)


@contract("S02", [SM + "_csm_welch"])
def csm_welch(c):
    """every entry is Welch's estimate (contracts of S01) of its pair of channels"""
    W = window_length(c)
    x = c.array("x", (c.dim("n", 2), c.dim("ch", 2, typ=(2, 4))))
    n, m = x.shape
    c.requires(m <= n)
    fs = c.int("fs", 1, 200000)
    k, S = scaling(c)
    E = c.dsp.standard.enums
    overlap, detrend, average = c.choice("overlap", [0, 50]), c.choice("detrend", [False, True]), c.choice("average", ["mean", "median"])
    c.opaque("standard._spectral_methods:_welch", lambda a: [((bins(W),), "f" if a["y"] is None else "c")])
    sm = c.dsp.standard._spectral_methods
    f, M = sm._csm_welch(c.snap(x), fs, W, E.Window.Hann, overlap, detrend, average, S)
    c.shape("matrix per frequency", M, (bins(W), m, m))
    c.shape("frequencies", f, (bins(W),))
    a = c.int("a", 0, m - 1)
    b = c.int("b", 0, m - 1)
    c.requires(a < b)
    i = c.int("i", 0, W // 2)
    c.eq("frequency", f[i], i * fs / W)
    one = lambda p, q: sm._welch(x[:, p], None if q is None else x[:, q], fs, E.Window.Hann, W, overlap, detrend, average, S)
    c.eq("auto-spectrum", M[i, a, a], one(a, None)[i])
    c.eq("cross-spectrum", M[i, b, a], one(a, b)[i])
    c.eq("Hermitian", M[i, a, b], M[i, b, a].conjugate())


@contract("S02", [SM + "_welch"])
def welch_channels(c):
    """the spectra of a multichannel signal are those of its channels"""
    W = window_length(c)
    x = c.array("x", (c.dim("n", 2), c.dim("ch", 2, typ=(2, 4))))
    n, m = x.shape
    c.requires(m <= n)
    fs = c.int("fs", 1, 200000)
    k, S = scaling(c, which=("PowerSpectralDensity", "AmplitudeSpectrum", "FFTBackward"))
    E = c.dsp.standard.enums
    overlap, detrend = 50, c.choice("detrend", [False, True])
    run = lambda v: c.dsp.standard._spectral_methods._welch(v, None, fs, E.Window.Hann, W, overlap, detrend, "mean", S)
    every = run(c.snap(x))
    j = c.int("j", 0, m - 1)
    one = run(c.snap(x)[:, j])
    c.shape("one column per channel", every, (bins(W), m))
    i = c.int("i", 0, W // 2)
    c.eq("column", every[i, j], one[i])


@contract("S02", ["classes.signal:Signal.get_csm", SM + "_welch"], sym=False, bounded="signals up to a few hundred samples, 2 to 4 channels")
def csm(c):
    np = c.np
    n, m = c.int("n", 4, 300), c.int("ch", 2, 4)
    fs = c.int("fs", 1, 1000)
    x = c.array("x", (n, m))
    k, S = scaling(c)
    E = c.dsp.standard.enums
    method = c.choice("method", ["FFT", "WelchPeriodogram"])
    s = c.dsp.Signal(None, x.copy(), fs)
    if c.choice("class", ["Signal", "ImpulseResponse"]) == "ImpulseResponse":
        s = c.dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
        if c.choice("window", [False, True]):
            w = c.array("w", (n, m), lo=0.1, hi=1.0)
            s.set_window(w)
    s.set_spectrum_parameters(method=E.SpectrumMethod[method], window_length_samples=16, overlap_percent=c.choice("overlap", [0, 50, 75]),
                              detrend=c.choice("detrend", [False, True]), average=c.choice("average", ["mean", "median"]),
                              pad_to_fast_length=c.choice("pad", [False, True]), scaling=S)
    f, M = s.get_csm()
    g, sp = s.get_spectrum()
    c.shape("matrix per frequency", M, (f.shape[0], m, m))
    c.eq("frequencies", f, g)
    c.ensure("scaling restored", s.spectrum_scaling == S)
    c.eq("Hermitian", M, M.conj().transpose(0, 2, 1))
    c.eq("auto-spectra", np.einsum("fcc->fc", M), sp if method == "WelchPeriodogram" else abs(sp) if k in PHYS else abs(sp) ** 2)
    two = c.dsp.Signal(None, x.copy()[:, [1, 0]], fs)
    two._spectrum_parameters = dict(s._spectrum_parameters)
    if not hasattr(s, "window"):
        # squared: the root of a negative bin is on the branch cut
        c.eq("swapped channels", two.get_csm()[1][:, 0, 1] ** 2, M[:, 1, 0] ** 2)
    x2 = np.stack([x[:, 0], x[:, 0]], 1)
    two = c.dsp.Signal(None, x2, fs)
    two._spectrum_parameters = dict(s._spectrum_parameters)
    if not hasattr(s, "window"):
        c.eq("identical channels", two.get_csm()[1][:, 0, 1], M[:, 0, 0])
