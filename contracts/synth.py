"""G01: signal generators."""
from ._h import contract

GE = "generators.generators:"


@contract("G01", [GE + "dirac"])
def unit_impulse(c):
    """one at the requested delay, zero elsewhere, in every channel, at every length, delay and sampling rate"""
    n = c.int("n", 2)
    m = c.int("ch", 1, 8)
    c.requires(m <= n)
    d = c.int("delay", 0, n - 1)
    fs = c.int("fs", 1)
    if c.choice("default delay", [False, True]):
        c.requires(c.and_(d <= 0, m <= 1))
        s = c.dsp.generators.dirac(n, fs)
    else:
        s = c.dsp.generators.dirac(n, fs, d, m)
    c.ensure("an impulse response", type(s).__name__ == "ImpulseResponse")
    c.shape("shape", s.time_data, (n, m))
    c.eq("rate", s.sampling_rate_hz, fs)
    q, j = c.int("q", 0, n - 1), c.int("j", 0, m - 1)
    c.eq("impulse", s.time_data[q, j], c.where(q <= d, c.where(q >= d, 1, 0), 0))


@contract("G01", [GE + "dirac"])
def unit_impulse_rejects(c):
    """an impulse behind the end of the signal, and empty signals, are refused"""
    n, d, m = c.int("n", -3, 100), c.int("delay", -3, 100), c.int("ch", -3, 8)
    c.requires(c.or_(n < 1, d < 0, d >= n, m < 1))
    c.raises("refused", AssertionError, lambda: c.dsp.generators.dirac(n, 48000, d, m))


def _setup(c, pad):
    fs = c.int("fs", 8, 4000)
    L = c.real("length", 0, 2, open=True)
    n = c.toint(fs * L + 0.5)
    c.requires(n >= 3)
    P = c.real("padding", 0, 1, open=True) if pad else 0.0
    p = c.toint(P * fs + 0.5) if pad else 0
    lv = c.real("level", -60, 0)
    return fs, L, n, P, p, lv


@contract("G01", [GE + "oscillator", "helpers.gain_and_level:_normalize", "helpers.other:_pad_trim"])
def sine(c):
    """a harmonic oscillator is the sine of its frequency, scaled to the requested peak, of the requested length, then zeros"""
    np = c.np
    pad = c.choice("padded", [False, True])
    fs, L, n, P, p, lv = _setup(c, pad)
    m = 1 if c.choice("mono", [False, True]) else c.int("ch", 2, 4)
    c.requires(m <= n)
    fq = c.real("frequency", 0, open=True)
    c.requires(fq < fs // 2)
    base = c.arr((n, m), lambda i, j: np.sin(2 * np.pi * fq / fs * i))
    top = np.max(np.abs(base), axis=0)
    c.requires(top[0] > 1e-3)
    s = c.dsp.generators.oscillator(fq, fs, L, peak_level_dbfs=lv, number_of_channels=m, fade=None, padding_end_seconds=P)
    c.shape("shape", s.time_data, (n + p, m))
    c.eq("rate", s.sampling_rate_hz, fs)
    j = c.int("j", 0, m - 1)
    q = c.int("q", 0, n - 1)
    c.eq("sine", s.time_data[q, j], base[q, j] / top[j] * 10 ** (lv / 20))
    if pad:
        c.requires(p >= 1)
        c.eq("padding", s.time_data[n + c.int("r", 0, p - 1), j], 0)


@contract("G01", [GE + "chirp", "helpers.gain_and_level:_normalize", "helpers.other:_pad_trim"])
def sweep(c):
    """linear and logarithmic sweeps have the phase whose derivative goes from the lower to the upper frequency within the length,
    are scaled to the requested peak, the same in every channel, then zeros"""
    np = c.np
    pad = c.choice("padded", [False, True])
    fs, L, n, P, p, lv = _setup(c, pad)
    m = 1 if c.choice("mono", [False, True]) else c.int("ch", 2, 4)
    c.requires(m <= n)
    T = c.dsp.generators.ChirpType
    kind = c.choice("kind", [T.Linear, T.Logarithmic])
    f0, f1 = c.real("from", 1, 1000), c.real("to", 1, 1000)
    ph = c.real("phase", -3, 3)
    c.requires(c.and_(f1 > f0 * 1.01, f1 <= fs // 2))
    rev = c.choice("given in reverse", [False, True])
    if kind == T.Linear:
        def phase(t):
            return (f0 + (f1 - f0) / L / 2 * t) * 2 * np.pi * t + ph
    else:
        def phase(t):
            k = np.exp((np.log(f1) - np.log(f0)) / L)
            return 2 * np.pi * f0 / np.log(k) * (k ** t - 1) + ph
    base = c.arr((n,), lambda i: np.sin(phase(i * (L / (n - 1)))))
    top = np.max(np.abs(base))
    c.requires(top > 1e-3)
    s = c.dsp.generators.chirp(fs, kind, [f1, f0] if rev else [f0, f1], L, lv, m, None, ph, P)
    c.shape("shape", s.time_data, (n + p, m))
    c.eq("rate", s.sampling_rate_hz, fs)
    q, j = c.int("q", 0, n - 1), c.int("j", 0, m - 1)
    c.eq("sweep", s.time_data[q, j], base[q] / top * 10 ** (lv / 20))
    if pad:
        c.requires(p >= 1)
        c.eq("padding", s.time_data[n + c.int("r", 0, p - 1), j], 0)


@contract("G01", [GE + "noise"])
def noise_shape(c):
    """whatever the random numbers, noise has the requested length, channels and rate, then zeros"""
    pad = c.choice("padded", [False, True])
    fs, L, n, P, p, lv = _setup(c, pad)
    m = 1 if c.choice("mono", [False, True]) else c.int("ch", 2, 4)
    c.requires(m <= n)
    N = c.dsp.generators.NoiseType
    kind = c.choice("kind", [N.White, N.Pink, N.Red, N.Blue, N.Violet, 0.7])
    s = c.dsp.generators.noise(L, fs, kind, lv, m, None, P)
    c.shape("shape", s.time_data, (n + p, m))
    c.eq("rate", s.sampling_rate_hz, fs)
    j = c.int("j", 0, m - 1)
    if pad:
        c.requires(p >= 1)
        c.eq("padding", s.time_data[n + c.int("r", 0, p - 1), j], 0)


@contract("G01", [GE + "noise"], sym=False, bounded="all kinds of noise, lengths up to 2 s at rates up to 2 kHz, 1 to 4 channels")
def noises(c):
    np = c.np
    N = c.dsp.generators.NoiseType
    kind = c.choice("kind", [N.White, N.Pink, N.Red, N.Blue, N.Violet, N.Grey, 0.7, -0.7])
    _generated(c, lambda fs, L, lv, m, fade, P: c.dsp.generators.noise(L, fs, kind, lv, m, fade, P))


@contract("G01", [GE + "chirp"], sym=False, bounded="all kinds of sweeps, lengths up to 2 s at rates up to 2 kHz, 1 to 4 channels")
def sweeps(c):
    T = c.dsp.generators.ChirpType
    kind = c.choice("kind", [T.Linear, T.Logarithmic, T.SyncLog])
    full = c.choice("full range", [False, True])

    def gen(fs, L, lv, m, fade, P):
        c.requires(fs >= 64)
        # synchronised sweeps consist of whole periods of the lowest frequency, so very short ones do not exist
        c.requires(kind != T.SyncLog or (L >= 0.4 if full else L * fs >= 40))
        s = c.dsp.generators.chirp(fs, kind, None if full else [fs * 0.1, fs * 0.3], L, lv, m, fade, 0.0, P)
        return s[0] if kind == T.SyncLog else s
    _generated(c, gen, kind == T.SyncLog)


@contract("G01", [GE + "oscillator"], sym=False, bounded="all wave forms, lengths up to 2 s at rates up to 2 kHz, 1 to 4 channels")
def tones(c):
    W = c.dsp.generators.WaveForm
    kind = c.choice("kind", [W.Harmonic, W.Square, W.Sawtooth, W.Triangle])
    rel = c.real("frequency", 0.05, 0.9)
    unc = c.choice("uncorrelated", [False, True])
    _generated(c, lambda fs, L, lv, m, fade, P: c.dsp.generators.oscillator(
        rel * (fs // 2), fs, L, kind, None, lv, m, unc, fade, P))


def _generated(c, gen, other_length=False):
    np = c.np
    fs, L = c.int("fs", 16, 2000), c.real("length", 0, 2, open=True)
    n = int(L * fs + 0.5)
    m = c.int("ch", 1, 4)
    c.requires(n >= 4 and m <= n)
    c.requires(abs(L * fs + 0.5 - round(L * fs + 0.5)) > 1e-6)
    P = c.choice("padding", [0.0, 0.1, 0.29, 0.57])
    p = int(P * fs + 0.5)
    lv = c.real("level", -60, 0)
    F = c.dsp.standard.enums.FadeType
    fade = c.choice("fade", [None, F.NoFade, F.Linear, F.Exponential, F.Logarithmic])
    s = gen(fs, L, lv, m, fade, P)
    x = s.time_data
    c.eq("rate", s.sampling_rate_hz, fs)
    c.shape("shape", x, (n + p, m))
    c.ensure("finite", bool(np.isfinite(x).all()))
    if p and not other_length:
        c.eq("padding", x[n:], np.zeros((p, m)))
    top = np.abs(x).max(axis=0)
    c.ensure("not above the level", bool((top <= 10 ** (lv / 20) * (1 + 1e-9)).all()))
    if fade in (None, F.NoFade) and not other_length:
        c.eq("peak level", top, np.ones(m) * 10 ** (lv / 20))


@contract("G01", [GE + "oscillator"], sym=False, bounded="all wave forms, rates up to 2 kHz")
def series(c):
    """the wave forms are the truncated Fourier series of square, sawtooth and triangle"""
    np = c.np
    W = c.dsp.generators.WaveForm
    kind = c.choice("kind", [W.Square, W.Sawtooth, W.Triangle])
    fs, n = c.int("fs", 50, 2000), c.int("n", 8, 400)
    f = c.real("frequency", 0.03, 0.9) * (fs // 2)
    cut = c.choice("cutoff", [None, 0.5, 0.9])
    cut = None if cut is None else cut * (fs // 2)
    c.requires(cut is None or cut > f)
    top = fs // 2 if cut is None else cut
    t = np.arange(n) / fs
    k = np.arange(1, 2000)
    k = k if kind == W.Sawtooth else k[k % 2 == 1]
    k = k[k * f < top * (1 - 1e-9)]
    c.requires(len(k) and (np.abs((np.arange(1, 100)) * f - top) > 1e-6).all())
    # coefficients of the series of the ideal wave forms (up to one common factor)
    a = {W.Square: 1 / k, W.Sawtooth: (-1.0) ** (k + 1) / k, W.Triangle: (-1.0) ** ((k - 1) // 2) / k ** 2}[kind]
    want = np.sin(2 * np.pi * f * t[:, None] * k[None, :]) @ a
    c.requires(np.abs(want).max() > 1e-3)
    s = c.dsp.generators.oscillator(f, fs, n / fs, kind, cut, 0.0, fade=None)
    c.eq("series", s.time_data[:, 0], want / np.abs(want).max(), 1e-6)
