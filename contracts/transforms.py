"""S05: transforms and their inverses. S06: smoothing and phase wrapping."""
from ._h import contract, signal

TR = "transforms.transforms:"


@contract("S05", [TR + "stereo_mid_side"])
def mid_side(c):
    """mid is half the sum, side half the difference; decoding restores left and right, in either order"""
    s, x, n, m, fs = signal(c, m=2)
    f = c.dsp.transforms.stereo_mid_side
    ms = f(s, True)
    c.shape("shape", ms.time_data, (n, 2))
    q = c.int("q", 0, n - 1)
    c.eq("mid", ms.time_data[q, 0], (x[q, 0] + x[q, 1]) / 2)
    c.eq("side", ms.time_data[q, 1], (x[q, 0] - x[q, 1]) / 2)
    lr = f(ms, False)
    j = c.int("j", 0, 1)
    c.eq("decoded", lr.time_data[q, j], x[q, j])
    c.eq("encoded again", f(f(s, False), True).time_data[q, j], x[q, j])
    c.unchanged("signal", s.time_data, x)
    c.eq("rate", ms.sampling_rate_hz, fs)


@contract("S05", [TR + "stereo_mid_side"])
def mid_side_channels(c):
    """only two-channel signals have a mid and a side"""
    s, x, n, m, fs = signal(c)
    c.requires(c.or_(m < 2, m > 2))
    c.raises("two channels", AssertionError, lambda: c.dsp.transforms.stereo_mid_side(s, c.choice("forward", [False, True])))


@contract("S05", [TR + "hilbert"])
def analytic(c):
    """the analytic signal has the one-sided spectrum whose hermitian part is the spectrum of the signal (so its real part is the
    signal), and no negative frequencies"""
    s, x, n, m, fs = signal(c)
    A = c.dsp.transforms.hilbert(s)
    X = c.np.fft.fft(x, axis=0)
    up = (n - 1) // 2  # bins strictly between zero and half of the sampling rate

    def one_sided(k, j):
        return c.where(c.and_(k >= 1, k <= up), 2 * X[k, j], c.where(2 * k > n, 0, X[k, j]))
    S = c.arr((n, m), one_sided)
    z = c.np.fft.ifft(S, axis=0)
    c.shape("shape", A.time_data, (n, m))
    q, j = c.int("q", 0, n - 1), c.int("j", 0, m - 1)
    c.eq("real part", A.time_data[q, j], z[q, j].real)
    c.eq("imaginary part", A.time_data_imaginary[q, j], z[q, j].imag)
    c.unchanged("signal", s.time_data, x)


@contract("S05", [TR + "hilbert"], sym=False, bounded="signals up to a few hundred samples, 1 to 3 channels")
def analytic_signal(c):
    np = c.np
    n, m = c.int("n", 2, 300), c.int("ch", 1, 3)
    c.requires(m <= n)
    x = c.array("x", (n, m))
    s = c.dsp.Signal(None, x.copy(), c.int("fs", 8, 1000), constrain_amplitude=False)
    kind = c.choice("container", ["signal", "multiband"])
    if kind == "signal":
        A = c.dsp.transforms.hilbert(s)
    else:
        A = c.dsp.transforms.hilbert(c.dsp.MultiBandSignal([s]))
        A = A.bands[0]
    c.eq("real part is the signal", A.time_data, x)
    sp = np.fft.fft(A.time_data + 1j * A.time_data_imaginary, axis=0)
    c.eq("no negative frequencies", 1 + sp[n // 2 + 1:], np.ones((n - n // 2 - 1, m)))


@contract("S05", [TR + "cepstrum", TR + "from_complex_cepstrum"], sym=False, bounded="signals up to a few hundred samples, 1 to 3 channels")
def cepstrum_round_trip(c):
    np = c.np
    n, m = c.int("n", 4, 300), c.int("ch", 1, 3)
    c.requires(m <= n)
    x, fs = c.array("x", (n, m), lo=-1, hi=1), c.int("fs", 8, 1000)
    X = np.fft.fft(x, axis=0)
    c.requires(np.abs(X).min() > 1e-3)
    s = c.dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    C = c.dsp.transforms.cepstrum(s, True)
    c.eq("complex cepstrum", np.exp(np.fft.fft(C, axis=0)), X)
    back = c.dsp.transforms.from_complex_cepstrum(C, fs)
    c.eq("signal from its cepstrum", back.time_data, x)
    c.eq("rate", back.sampling_rate_hz, fs)
    c.eq("real cepstrum", np.fft.fft(c.dsp.transforms.cepstrum(s, False), axis=0), np.log(np.abs(X)))
    c.unchanged("signal", s.time_data, x)


@contract("S05", [TR + "cepstrum"])
def cepstrum_definition(c):
    """the transform of the complex cepstrum is the logarithm of the spectrum"""
    s, x, n, m, fs = signal(c, lo=-1, hi=1)
    X = c.np.fft.fft(x, axis=0)
    k, j = c.int("k", 0, n - 1), c.int("j", 0, m - 1)
    if not c.symbolic:
        c.requires(abs(X).min() > 1e-3)
    C = c.dsp.transforms.cepstrum(s, True)
    c.shape("shape", C, (n, m))
    c.eq("complex cepstrum", c.np.fft.fft(C, axis=0)[k, j], c.np.log(X)[k, j])
    R = c.dsp.transforms.cepstrum(s, False)
    c.shape("shape of the real cepstrum", R, (n, m))
    c.eq("real cepstrum", c.np.fft.fft(R, axis=0)[k, j], c.np.log(c.np.abs(X))[k, j])


@contract("S05", [TR + "from_complex_cepstrum"])
def from_cepstrum(c):
    """the real part of the sequence whose spectrum is the exponential of the transform of the cepstrum"""
    n, fs = c.dim("n", 2), c.int("fs", 1, 200000)
    m = 1 if c.choice("mono", [True, False]) else c.dim("ch", 2, typ=(2, 3))
    c.requires(m <= n)
    k, j = c.int("k", 0, n - 1), c.int("j", 0, m - 1)
    Z = c.array("Z", (n, m), "c")
    if not c.symbolic:
        Z *= 0.5 / n
        Z[0] -= 1.0
    want = c.np.fft.ifft(c.np.exp(c.np.fft.fft(Z, axis=0)), axis=0).real
    c.requires(c.np.max(c.np.abs(want)) <= 1)  # otherwise normalised by the signal
    back = c.dsp.transforms.from_complex_cepstrum(Z, fs)
    c.shape("shape", back.time_data, (n, m))
    c.eq("from the cepstrum", back.time_data[k, j], want[k, j])
    c.eq("rate", back.sampling_rate_hz, fs)


@contract("S05", [TR + "istft", "standard._spectral_methods:_stft", "standard._framed_signal_representation:_reconstruct_framed_signal"],
          sym=False, bounded="signals up to a few hundred samples, windows of 16 to 64 samples, 1 to 3 channels")
def stft_round_trip(c):
    np = c.np
    E = c.dsp.standard.enums
    n, m = c.int("n", 70, 400), c.int("ch", 1, 3)
    fs = c.int("fs", 8, 1000)
    x = c.array("x", (n, m), lo=-1, hi=1)
    W = c.choice("window_length", [16, 32, 64])
    pad = c.choice("padding", [True, False])
    wn = c.choice("window", ["Hann", "Hamming", "Blackman", "Boxcar"])
    overlap = c.choice("overlap", [0, 25, 30, 33.3, 50, 75, 80])
    c.requires(overlap > 0 or wn in ("Hamming", "Boxcar"))  # otherwise the window deletes samples
    Q = E.SpectrumScaling[c.choice("scaling", [q.name for q in E.SpectrumScaling if q.is_amplitude_scaling() or not q.has_physical_units()])]
    nfft = c.choice("fft_length", [None, W, W + 1, 2 * W])
    p = dict(window_length_samples=W, window_type=E.Window[wn], overlap_percent=overlap, fft_length_samples=nfft, detrend=False, padding=pad, scaling=Q)
    s = c.dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    s.set_spectrogram_parameters(**p)
    S = s.get_spectrogram()[2]
    S0 = S.copy()
    mode = c.choice("given", ["signal", "parameters", "keywords"])
    if mode == "signal":
        r = c.dsp.transforms.istft(S, original_signal=s)
        c.shape("length of the signal", r.time_data, (n, m))
    elif mode == "parameters":
        r = c.dsp.transforms.istft(S, parameters=p, sampling_rate_hz=fs)
    else:
        kw = {k: v for k, v in p.items() if k != "detrend"}
        r = c.dsp.transforms.istft(S, sampling_rate_hz=fs, **kw)
    c.ensure("not shorter", r.time_data.shape[0] >= n)
    lo, hi = (0, n) if pad else (W, n - W)
    a, b = r.time_data[lo:hi], x[lo:hi]
    if mode != "signal":  # the new signal may have been normalised to full scale
        big = np.abs(r.time_data).max()
        if big >= 1 - 1e-9:
            return
    c.eq("signal from its transform", a, b, tol=1e-6)
    c.eq("rate", r.sampling_rate_hz, fs)
    c.eq("transform unchanged", S, S0)


@contract("S05", [TR + "istft", "standard._spectral_methods:_stft", "standard._framed_signal_representation:_reconstruct_framed_signal"],
          bounded="24 samples, windows of 16 samples; sample values, channel count and rate unbounded")
def stft_inverse(c):
    """inverting the transform with its parameters returns every sample"""
    E = c.dsp.standard.enums
    n, W, m, fs = 24, 16, c.dim("ch", 1, typ=(1, 3)), c.int("fs", 1, 200000, typ=(8, 1000))
    c.requires(m <= n)
    x = c.array("x", (n, m), lo=-1, hi=1)
    Q = E.SpectrumScaling[c.choice("scaling", ["FFTBackward", "FFTForward", "FFTOrthogonal"])]
    wn, overlap = c.choice("window", ["Hann", "Hamming"]), c.choice("overlap", [30, 50, 75])
    p = dict(window_length_samples=W, window_type=E.Window[wn], overlap_percent=overlap, fft_length_samples=c.choice("fft_length", [None, 2 * W]), detrend=False, padding=True, scaling=Q)
    s = c.dsp.Signal(None, c.snap(x), fs)
    s.set_spectrogram_parameters(**p)
    S = s.get_spectrogram()[2]
    r = c.dsp.transforms.istft(S, original_signal=s)
    c.shape("length of the signal", r.time_data, (n, m))
    j = c.int("j", 0, m - 1)
    for q in range(0, n, 1 if not c.symbolic else 5):
        d = r.time_data[q, j] - x[q, j]  # the window values are rounded
        c.ensure("sample", c.and_(d < 1e-9, d > -1e-9))
    c.unchanged("signal", s.time_data, x)


@contract("S05", [TR + "dft"], sym=False, bounded="signals up to a few hundred samples, 1 to 3 channels")
def dft_definition(c):
    np = c.np
    n, m, k = c.int("n", 2, 200), c.int("ch", 1, 3), c.int("frequencies", 1, 9)
    c.requires(m <= n)
    fs = c.int("fs", 8, 1000)
    x, f = c.array("x", (n, m)), c.array("f", (k,), lo=0, hi=fs)
    s = c.dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    got = c.dsp.transforms.dft(s, f)
    want = np.exp(-2j * np.pi * f[:, None] * np.arange(n)[None] / fs) @ x
    c.eq("spectrum at the frequencies", got, want)
    c.unchanged("signal", s.time_data, x)


@contract("S05", [TR + "laguerre"], sym=False, bounded="signals up to 60 samples, 1 to 2 channels")
def laguerre_transform(c):
    """inner products with the orthonormal Laguerre sequences; undone by the opposite factor when the sequences decayed"""
    np = c.np
    n, m = c.int("n", 4, 60), c.int("ch", 1, 2)
    lam = c.real("factor", -0.6, 0.6)
    x = c.array("x", (n, m), lo=-1, hi=1)
    s = c.dsp.Signal(None, x.copy(), c.int("fs", 8, 1000), constrain_amplitude=False)
    got = c.dsp.transforms.laguerre(s, lam)
    h = (1 - lam ** 2) ** 0.5 * (-lam) ** np.arange(n)
    want = np.zeros((n, m))
    for i in range(n):
        want[i] = h @ x
        g = np.zeros(n)  # next sequence: through (lam + z^-1) / (1 + lam z^-1)
        for k in range(n):
            g[k] = lam * h[k] + (h[k - 1] - lam * g[k - 1] if k else 0)
        h = g
    c.eq("inner products", got.time_data, want, tol=1e-6)
    z = np.zeros((150, 1))
    z[:3, 0] = x[:3, 0]
    lam2 = lam / 2
    s2 = c.dsp.Signal(None, z.copy(), 100, constrain_amplitude=False)
    c.eq("inverse", c.dsp.transforms.laguerre(c.dsp.transforms.laguerre(s2, lam2), -lam2).time_data, z, tol=1e-6)


@contract("S05", [TR + "warp", "transforms._transforms:_warp_time_series"], sym=False, bounded="signals up to 60 samples, 1 to 2 channels")
def warped_series(c):
    """sample n multiplies the impulse response of the n-th power of the allpass (z^-1 - lam) / (1 - lam z^-1)"""
    np = c.np
    n, m = c.int("n", 4, 60), c.int("ch", 1, 2)
    lam = float(c.real("factor", -0.6, 0.6))
    x = c.array("x", (n, m), lo=-1, hi=1)
    s = c.dsp.ImpulseResponse(None, x.copy(), c.int("fs", 8, 1000), constrain_amplitude=False)
    got = c.dsp.transforms.warp(s, lam, False)
    h, want = np.zeros(n), np.zeros((n, m))
    h[0] = 1
    for i in range(n):
        want += h[:, None] * x[i]
        g = np.zeros(n)
        for k in range(n):
            g[k] = -lam * h[k] + (h[k - 1] + lam * g[k - 1] if k else 0)
        h = g
    c.eq("warped", got.time_data, want, tol=1e-6)
    c.unchanged("signal", s.time_data, x)
    z = np.zeros((150, 1))
    z[:3, 0] = x[:3, 0]
    lam2 = lam / 2
    s2 = c.dsp.ImpulseResponse(None, z.copy(), 100, constrain_amplitude=False)
    c.eq("dewarped", c.dsp.transforms.warp(c.dsp.transforms.warp(s2, lam2, False), -lam2, False).time_data, z, tol=1e-6)


SM = "helpers.smoothing:"


@contract("S06", [SM + "_fractional_octave_smoothing"], bounded="windows of at most 9 values (spacing and fraction chosen from a list); values, length and channel count unbounded",
          sym_timeout=120)
def octave_smoothing_log(c):
    """logarithmically spaced input: every output is an average of inputs, so it lies in their range; constants stay"""
    n = c.dim("n", 2)
    one = c.choice("vector", [True, False])
    m = 1 if one else c.dim("ch", 1, typ=(1, 3))
    lo, hi = c.real("lo", -100, 100), c.real("hi", -100, 100)
    c.requires(lo <= hi)
    if c.choice("constant", [False, True]):
        hi = lo
    x = c.array("x", (n, m), lo=lo, hi=hi)
    spacing, frac = c.choice("spacing", [(1 / 12, 3), (1 / 24, 3), (1 / 3, 6), (1 / 12, 12)])
    wt = c.choice("window", ["hann", "boxcar", "triang", ("gauss", 2.5)])
    clip = c.choice("clip", [False, True])
    v = x[:, 0] if one else x
    before = c.snap(v)
    y = c.dsp.tools.fractional_octave_smoothing(v, spacing, frac, window_type=wt, clip_values=clip)
    c.shape("as many values", y, (n,) if one else (n, m))
    q, j = c.int("q", 0, n - 1), c.int("j", 0, m - 1)
    got = y[q] if one else y[q, j]
    e = 1e-9 * (1 + c.max(c.np.abs(lo), c.np.abs(hi)))
    low, high = (c.max(lo, 0), c.max(hi, 0)) if clip else (lo, hi)
    c.ensure("not below", got >= low - e)
    c.ensure("not above", got <= high + e)
    c.unchanged("vector", v, before)


@contract("S06", [SM + "_fractional_octave_smoothing"], sym=False, bounded="up to 400 values, 1 to 3 channels")
def octave_smoothing(c):
    np = c.np
    n = c.int("n", 2, 400)
    dims = c.choice("dims", ["vector", "columns"])
    m = 1 if dims == "vector" else c.int("ch", 1, 3)
    x = c.array("x", (n, m), lo=-5, hi=5)
    if c.choice("content", ["any", "constant"]) == "constant":
        x = np.full((n, m), x[0, 0])
    v = x[:, 0] if dims == "vector" else x
    frac = c.choice("fraction", [1, 3, 6, 12, 24])
    spacing = c.choice("spacing", [None, 1 / 12, 1 / 48])
    wt = c.choice("window", ["hann", "boxcar", "triang", ("gauss", 2.5), None])
    w = None
    if wt is None:
        k = c.int("window_length", 1, 15)
        w = 0.1 + np.abs(c.array("w", (k,)))
        w0 = w.copy()
    before = v.copy()
    clip = c.choice("clip", [False, True])
    y = c.dsp.tools.fractional_octave_smoothing(v, spacing, frac, window_type=wt, window_vec=w, clip_values=clip)
    c.shape("as many values", y, v.shape)
    ref = np.clip(v, 0, None) if clip else v
    lo, hi = ref.min(axis=0), ref.max(axis=0)
    c.ensure("inside of the range", bool(np.all(y >= lo - 1e-9) and np.all(y <= hi + 1e-9)))
    c.eq("vector unchanged", v, before)
    if w is not None:
        c.eq("window unchanged", w, w0)


def _time_smoothing(c, mode):
    c.expand(8)
    one = c.choice("vector", [True, False])
    n = 4 if one or mode == "one" else 3
    m = 1 if one else 2
    x = c.array("x", (n, m))
    fs = c.int("fs", 1, 200000)
    up = c.real("up", 0, 10)
    down = None
    if mode == "two":
        down = c.real("down", 0, 10)
        c.requires(c.or_(up > 0, down > 0))
    v = x[:, 0] if one else x
    before = c.snap(v)
    ln = c.np.log(1 - 0.95)
    factor = lambda t: 1.0 if c.case(t == 0) else 1 - c.np.exp(ln / t / fs)
    a, d = factor(up), factor(up if down is None else down)
    c.ensure("factors between zero and one", c.and_(a >= 0, a <= 1, d >= 0, d <= 1))
    y = c.dsp.tools.time_smoothing(v, fs, up, down)
    c.shape("as many values", y, (n,) if one else (n, m))
    j = c.choice("channel", list(range(m)))
    got = [(y[k] if one else y[k, j]) for k in range(n)]
    c.eq("starts with the data", got[0], x[0, j])
    e = 0 if c.symbolic else 1e-9
    for k in range(1, n):
        f = c.where(x[k, j] > got[k - 1], a, d)
        c.eq("exponential average", got[k], f * x[k, j] + (1 - f) * got[k - 1])
        p, r = c.real(f"p{k}", -1000, 1000), c.real(f"r{k}", -1000, 1000)  # any average of two values lies between them
        c.ensure("not below both", f * r + (1 - f) * p >= c.min(p, r) - e)
        c.ensure("not above both", f * r + (1 - f) * p <= c.max(p, r) + e)
    c.unchanged("data", v, before)


@contract("S06", [SM + "_time_smoothing", SM + "_get_smoothing_factor_ema"], bounded="4 samples; values, time and rate unbounded", sym_timeout=200)
def time_smoothing(c):
    """exponential averaging: between the previous output and the new input, so inside the range of the data"""
    _time_smoothing(c, "one")


@contract("S06", [SM + "_time_smoothing", SM + "_get_smoothing_factor_ema"], bounded="4 samples (3 with two channels); values, times and rate unbounded", sym_timeout=200)
def time_smoothing_two_times(c):
    """with different times for rising and falling values"""
    _time_smoothing(c, "two")


@contract("S06", [SM + "_time_smoothing"], sym=False, bounded="up to 300 samples, 1 to 3 channels")
def time_smoothing_long(c):
    np = c.np
    n, m, fs = c.int("n", 4, 300), c.int("ch", 1, 3), c.int("fs", 1, 1000)
    x = c.array("x", (n, m), lo=-5, hi=5)
    kind = c.choice("layout", ["vector", "columns", "rows"])
    if c.choice("content", ["any", "constant"]) == "constant":
        x = np.full((n, m), x[0, 0])
    up, down = c.choice("up", [0.0, 0.01, 1.0]), c.choice("down", [None, 0.02, 2.0])
    v = {"vector": x[:, 0], "columns": x, "rows": x.T}[kind].copy()
    y = c.dsp.tools.time_smoothing(v, fs, up, down)
    c.shape("as many values", y, v.shape)
    y2, x2 = {"vector": (y[:, None] if y.ndim == 1 else y, x[:, :1]), "columns": (y, x), "rows": (y.T, x)}[kind]
    c.ensure("inside of the range", bool(np.all(y2 >= x2.min(axis=0) - 1e-9) and np.all(y2 <= x2.max(axis=0) + 1e-9)))


@contract("S06", ["helpers.spectrum_utilities:_wrap_phase"])
def wrapped_phase(c):
    """values in [-pi, pi[ that differ from the input by whole turns"""
    n, m = c.dim("n", 1), c.dim("ch", 1)
    x = c.array("x", (n, m))
    if not c.symbolic:
        x = x * 20
    y = c.dsp.tools.wrap_phase(x)
    c.shape("shape", y, (n, m))
    q, j = c.int("q", 0, n - 1), c.int("j", 0, m - 1)
    v, pi = y[q, j], c.np.pi
    c.ensure("in one period", c.and_(v >= -pi, v < pi if c.symbolic else v <= pi))
    turns = c.floor((x[q, j] + pi) / (2 * pi))
    if not c.symbolic:
        turns = round((x[q, j] - v) / (2 * pi))
    c.eq("whole turns", v + 2 * pi * turns, x[q, j])
