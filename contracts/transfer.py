"""S03: transfer functions, deconvolution, averages of impulse responses."""
from ._h import contract, signal

TF = "transfer_functions.transfer_functions:"
PRIV = "transfer_functions._transfer_functions:"
MODES = ("H1", "H2", "H3")


def bins(n):
    return n // 2 + 1


@contract("S03", [TF + "compute_transfer_function"])
def estimators(c):
    """quotients of the averaged power spectra (``_welch``, contracts of S01), per channel"""
    n, m = c.dim("n", 16), c.dim("ch", 1, typ=(1, 3))
    common = c.choice("inputs", ["one", "per_channel"]) == "one"
    mi = 1 if common else m
    c.requires(m <= 9)  # a spectrum with more channels than bins is understood as transposed
    fs = c.int("fs", 1, 200000)
    x, y = c.array("x", (n, mi)), c.array("y", (n, m))
    W = 16
    E = c.dsp.standard.enums
    T = c.dsp.transfer_functions.TransferFunctionType[c.choice("mode", list(MODES))]
    si, so = c.dsp.Signal(None, c.snap(x), fs), c.dsp.Signal(None, c.snap(y), fs)
    c.opaque("transfer_functions.transfer_functions:_welch", lambda a: [((bins(W),), "f" if a["y"] is None else "c")])
    S = c.dsp.transfer_functions.compute_transfer_function(so, si, W, T)
    welch = c.dsp.transfer_functions.transfer_functions._welch
    kw = dict(window_length_samples=W, window_type=E.Window.Hann, overlap_percent=50, detrend=True, average="mean",
              scaling=E.SpectrumScaling.PowerSpectralDensity)
    j = c.int("j", 0, m - 1)
    ji = 0 if common else j
    c.shape("one column per channel", S.spectral_data, (bins(W), m))
    c.shape("coherence per channel", S.coherence, (bins(W), m))
    i = c.int("i", 0, bins(W) - 1)
    xx, yy = welch(x[:, ji], None, fs, **kw)[i], welch(y[:, j], None, fs, **kw)[i]
    xy, yx = welch(x[:, ji], y[:, j], fs, **kw)[i], welch(y[:, j], x[:, ji], fs, **kw)[i]
    want = {"H1": lambda: xy / xx, "H2": lambda: yy / yx, "H3": lambda: xy / c.np.abs(xy) * c.np.sqrt(yy / xx)}[T.name]()
    c.requires(c.and_(xx > 0, yy > 0, c.np.abs(xy) > 0, c.np.abs(yx) > 0))
    c.eq("estimate", S.spectral_data[i, j], want)
    c.eq("coherence", S.coherence[i, j], c.np.abs(xy) ** 2 / xx / yy)
    c.eq("frequency", S.frequency_vector_hz[i], i * fs / W)


@contract("S03", [TF + "compute_transfer_function"], sym=False, bounded="signals up to a few hundred samples, 1 to 3 channels")
def estimator_definition(c):
    np = c.np
    n, m = c.int("n", 40, 300), c.int("ch", 1, 3)
    common = c.choice("inputs", ["one", "per_channel"]) == "one"
    fs = c.int("fs", 1, 1000)
    E = c.dsp.standard.enums
    x = c.array("x", (n, 1 if common else m))
    y = 0.25 * c.array("y", (n, m)) + np.roll(x, 1, axis=0)
    W = c.choice("window_length", [16, 32])
    T = c.dsp.transfer_functions.TransferFunctionType[c.choice("mode", list(MODES))]
    overlap = c.choice("overlap", [0, 50, 75])
    wn = c.choice("window", ["Hann", "Hamming", "Boxcar"])
    detrend = c.choice("detrend", [False, True])
    Q = E.SpectrumScaling[c.choice("scaling", [q.name for q in E.SpectrumScaling])]
    si, so = c.dsp.Signal(None, x.copy(), fs), c.dsp.Signal(None, y.copy(), fs)
    si.set_spectrum_parameters(window_length_samples=64, overlap_percent=overlap, window_type=E.Window[wn], detrend=detrend, scaling=Q,
                               smoothing=c.choice("smoothing", [0, 3]), method=E.SpectrumMethod[c.choice("method", ["FFT", "WelchPeriodogram"])])
    S = c.dsp.transfer_functions.compute_transfer_function(so, si, W, T)
    w = c.sci.windows.get_window(wn.lower(), W)
    step = W - int(overlap / 100 * W)
    frames = max(1, -(-n // step))

    def spectra(v):
        pad = np.concatenate([v, np.zeros(frames * step + W)])
        fr = np.stack([pad[q * step: q * step + W] for q in range(frames)], 1) * w[:, None]
        if detrend:
            fr = fr - fr.mean(axis=0)
        return np.fft.rfft(fr, axis=0)
    H, g = np.zeros((W // 2 + 1, m), complex), np.zeros((W // 2 + 1, m))
    ok = np.ones((W // 2 + 1, m), bool)
    for j in range(m):
        X, Y = spectra(x[:, 0 if common else j]), spectra(y[:, j])
        xx, yy, xy = (abs(X) ** 2).mean(1), (abs(Y) ** 2).mean(1), (X.conj() * Y).mean(1)
        ok[:, j] = (xx > 1e-6) & (yy > 1e-6) & (abs(xy) > 1e-6)
        xx, yy, xy = [np.where(ok[:, j], v, 1) for v in (xx, yy, xy)]
        H[:, j] = {"H1": xy / xx, "H2": yy / xy.conj(), "H3": xy / abs(xy) * (yy / xx) ** 0.5}[T.name]
        g[:, j] = abs(xy) ** 2 / xx / yy
    c.eq("frequencies", S.frequency_vector_hz, np.fft.rfftfreq(W, 1 / fs))
    c.eq("estimate", np.where(ok, S.spectral_data, H), H)
    c.eq("coherence", np.where(ok, S.coherence, g), g)
    c.ensure("coherence at most one", (np.where(ok, S.coherence, 0) <= 1 + 1e-6).all())
    c.eq("input parameters", si.spectrum_scaling.name, Q.name)


@contract("S03", [TF + "spectral_deconvolve", PRIV + "_spectral_deconvolve"])
def deconvolution(c):
    """without regularisation: quotient of the spectra, bin by bin"""
    n, m = c.dim("n", 4), c.dim("ch", 1, typ=(1, 3))
    common = c.choice("inputs", ["one", "per_channel"]) == "one"
    c.requires(m <= n)
    fs = c.int("fs", 1, 200000)
    mi = 1 if common else m
    x, y = c.array("x", (n, mi)), c.array("y", (n, m))
    if not c.symbolic:
        x[0] += 3.0  # no spectral zeros
        x *= 0.1
    pad, keep = c.choice("padding", [False, True]), c.choice("keep_original_length", [False, True])
    E = c.dsp.standard.enums
    si, so = c.dsp.Signal(None, c.snap(x), fs), c.dsp.Signal(None, c.snap(y), fs)
    if not c.symbolic:
        k = [q for q in E.SpectrumScaling]
        for s in (si, so):
            s.set_spectrum_parameters(scaling=k[c.int("scaling_" + str(id(s) == id(si)), 0, len(k) - 1)], smoothing=c.choice("smoothing" + str(s is si), [0, 3]),
                                      pad_to_fast_length=c.choice("pad_" + str(s is si), [False, True]))
    ir = c.dsp.transfer_functions.spectral_deconvolve(so, si, apply_regularization=False, padding=pad, keep_original_length=keep)
    L = 2 * n if pad else n
    c.shape("length", ir.time_data, (n if keep or not pad else L, m))
    j = c.int("j", 0, m - 1)
    ji = 0 if common else j
    padded = lambda v: c.np.concatenate([v, c.np.zeros(n)]) if pad else v
    xp, yp = padded(x[:, ji]), padded(y[:, j])
    want = c.np.fft.irfft(c.np.fft.rfft(yp) / c.np.fft.rfft(xp), n=L)
    q = c.int("q", 0, n - 1)
    c.eq("quotient of the spectra", ir.time_data[q, j], want[q])
    c.unchanged("input", si.time_data, x)
    c.unchanged("output", so.time_data, y)


@contract("S03", [TF + "spectral_deconvolve", PRIV + "_spectral_deconvolve"], sym=False, bounded="signals up to a few hundred samples, 1 to 3 channels")
def deconvolution_regularized(c):
    """inside of the given range the regularised quotient is the exact one; outside it is not larger"""
    np = c.np
    n, m = c.int("n", 64, 300), c.int("ch", 1, 3)
    fs = c.int("fs", 100, 1000)
    common = c.choice("inputs", ["one", "per_channel"]) == "one"
    x = c.array("x", (n, 1 if common else m))
    x[0] += 10.0
    y = c.array("y", (n, m))
    rng = c.choice("range", ["two", "four", "automatic"])
    f1, f2 = 0.1 * fs, 0.35 * fs
    E = c.dsp.standard.enums
    si, so = c.dsp.Signal(None, x * 0.05, fs, constrain_amplitude=False), c.dsp.Signal(None, y * 0.05, fs, constrain_amplitude=False)
    given = {"two": [f1, f2], "four": [0.05 * fs, f1, f2, 0.4 * fs], "automatic": None}[rng]
    ir = c.dsp.transfer_functions.spectral_deconvolve(so, si, True, given)
    X, Y = np.fft.rfft(si.time_data, axis=0), np.fft.rfft(so.time_data, axis=0)
    got = np.fft.rfft(ir.time_data, axis=0)
    f = np.fft.rfftfreq(n, 1 / fs)
    if rng != "automatic":
        step = fs / n
        inside = (f > f1 + step) & (f < f2 - step)
        c.eq("exact inside of the range", got[inside], (Y / X)[inside])
    inner = slice(1, (n - 1) // 2)
    c.ensure("not larger", (abs(got[inner]) <= abs(Y / X)[inner] * (1 + 1e-6) + 1e-9).all())
    for j in range(m):
        one = c.dsp.transfer_functions.spectral_deconvolve(so.get_channels(j), si.get_channels(0 if common else j), True, given)
        c.eq("independent channels", ir.time_data[:, j], one.time_data[:, 0])


@contract("S03", [TF + "average_irs"], sym=False, bounded="impulse responses up to 200 samples, 2 to 4 channels")
def averages(c):
    """the energy-normalised average ignores the gains of the channels; identical channels average to themselves"""
    np = c.np
    n, m = c.int("n", 40, 200), c.int("ch", 2, 4)
    fs = c.int("fs", 1000, 48000)
    time = c.choice("time_average", [True, False])
    x = c.array("x", (n, m)) * np.exp(-np.arange(n) / 4)[:, None] * 0.05
    x[3] += 0.1
    g = c.array("g", (m,), lo=0.25, hi=2.0)
    g[0] = 1.0
    IR = lambda v: c.dsp.ImpulseResponse(None, v.copy(), fs, constrain_amplitude=False)
    A = c.dsp.transfer_functions.average_irs
    ref = IR(x)
    a, b = A(ref, time, True), A(IR(x * g), time, True)
    c.shape("one channel", a.time_data, (n, 1))
    c.eq("independent of the gains", b.time_data, a.time_data)
    same = np.repeat(x[:, :1], m, axis=1)
    c.eq("identical channels", A(IR(same * g), time, True).time_data, x[:, :1], tol=1e-6)
    c.eq("mean of the gains", A(IR(same * g), time, False).time_data, x[:, :1] * g.mean(), tol=1e-6)
    c.unchanged("input", ref.time_data, x)


# ------------------------------------------------------------------ S04
def peak(c, x, n):
    return c.np.argmax(c.np.abs(x))


@contract("S04", [PRIV + "_window_this_ir_tukey"], max_paths=3000)
def tukey_channel(c):
    """every sample times its window value, impulse at the start of the constant part (after the offset)"""
    n, L = c.dim("n", 1), c.int("length", 1, 200)
    x = c.array("x", (n,))
    cp = c.choice("constant", [0.25, 0.75] if c.symbolic else [0.0, 0.25, 0.5, 0.75])
    ratio = c.choice("ratio", [0.0, 1.0] if c.symbolic else [0.0, 0.5, 1.0, 1.5])
    off = c.int("offset", 0, c.toint(cp * L))
    adaptive, at_start = c.choice("adaptive", [False, True]), c.choice("at_start", [False, True])
    W = c.dsp.standard.enums.Window.Hann
    p = peak(c, x, n)
    flank = c.toint((1 - cp) * L)
    left = c.toint(flank * 0.5 * ratio)
    if adaptive:
        c.requires(off < n)  # else the function reports that no window fits
    v0 = c.snap(x)
    out, w, start = c.dsp.transfer_functions._transfer_functions._window_this_ir_tukey(v0, L, W, cp, at_start, off, ratio, adaptive)
    c.shape("length", out, (L,))
    c.shape("window", w, (L,))
    k = c.int("k", 0, L - 1)
    if adaptive:
        s = c.max(p - off - left, 0)
    else:
        s = p - off - left
    src = k + s
    value = c.where(c.and_(src >= 0, src < n), x[c.max(0, c.min(src, n - 1))], 0.0)
    c.eq("windowed sample", out[k], w[k] * value)
    c.ensure("window between zero and one", c.and_(w[k] >= 0, w[k] <= 1))
    c.unchanged("input", v0, x)


@contract("S04", [PRIV + "_window_this_ir"])
def centered_channel(c):
    """every sample times its window value, window peak at the impulse"""
    n, L = c.dim("n", 1), c.int("length", 1, 200)
    x = c.array("x", (n,))
    W = c.dsp.standard.enums.Window[c.choice("window", ["Hann", "Boxcar"])]
    p = peak(c, x, n)
    v0 = c.snap(x)
    out, w, start = c.dsp.transfer_functions._transfer_functions._window_this_ir(v0, L, W)
    c.shape("length", out, (L,))
    c.shape("window", w, (L,))
    k = c.int("k", 0, L - 1)
    half = L // 2
    # in the second half (seen from the window) the end of the response is kept instead of its start
    s = c.max(p - half, 0) if not c.case(p > half) else n - L - c.max(n - 1 - p - half, 0)
    src = k + s
    value = c.where(c.and_(src >= 0, src < n), x[c.max(0, c.min(src, n - 1))], 0.0)
    c.eq("windowed sample", out[k], w[k] * value)
    c.ensure("window between zero and one", c.and_(w[k] >= 0, w[k] <= 1))
    c.eq("start", start, c.max(s, 0))
    full = c.sci.windows.get_window(W.name.lower(), 2 * half + 1, fftbins=False)
    at = half + src - p
    c.eq("window centred on the impulse", c.where(c.and_(src >= 0, src < n, at >= 0, at <= 2 * half), w[k], 0.0),
         c.where(c.and_(src >= 0, src < n, at >= 0, at <= 2 * half), full[c.max(0, c.min(at, 2 * half))], 0.0))
    c.unchanged("input", v0, x)


@contract("S04", [TF + "window_ir_tukey"])
def tukey_flanks(c):
    n, m = c.dim("n", 2), c.dim("ch", 1, typ=(1, 3))
    c.requires(m <= n)
    fs = c.int("fs", 1, 200000)
    x = c.array("x", (n, m))
    ir = c.dsp.ImpulseResponse(None, c.snap(x), fs, constrain_amplitude=False)
    a, b = c.int("left", 0, n), c.int("right", 0, n)
    c.requires(a + b <= n)
    W = c.dsp.standard.enums.Window.Hann
    ra, rb = c.choice("left_given", [True, False]), c.choice("right_given", [True, False])
    c.requires(ra or rb)
    a, b = (a if ra else 0), (b if rb else 0)
    out = c.dsp.transfer_functions.window_ir_tukey(ir, (a + 0.25) / fs if ra else None, (b + 0.25) / fs if rb else None, W)
    c.shape("samples", out.time_data, (n, m))
    c.shape("window", out.window, (n, m))
    k, j = c.int("k", 0, n - 1), c.int("j", 0, m - 1)
    w = out.window[k, j]
    c.eq("windowed sample", out.time_data[k, j], x[k, j] * w)
    c.ensure("window between zero and one", c.and_(w >= 0, w <= 1))
    if c.case(c.and_(k >= a, k < n - b)):
        c.eq("unchanged between the flanks", out.time_data[k, j], x[k, j])
    c.unchanged("input", ir.time_data, x)


def window_stored(c, run, lengths):
    n, m = c.dim("n", 4), c.dim("ch", 1, typ=(1, 3))
    c.requires(m <= n)
    fs = c.int("fs", 1, 200000)
    x = c.array("x", (n, m))
    ir = c.dsp.ImpulseResponse(None, c.snap(x), fs, constrain_amplitude=False)
    L = c.int("length", *lengths)
    c.requires(m <= L)
    out, starts = run(ir, L, n)
    c.shape("samples", out.time_data, (L, m))
    c.shape("window", out.window, (L, m))
    c.shape("starts", starts, (m,))
    c.eq("sampling rate", out.sampling_rate_hz, fs)
    c.unchanged("input", ir.time_data, x)
    return x, out, starts, L, n, m, c.int("k", 0, L - 1), c.int("j", 0, m - 1)


@contract("S04", [TF + "window_ir"])
def window_ir(c):
    """channels are windowed independently (``_window_this_ir_tukey``), the window is stored"""
    W = c.dsp.standard.enums.Window.Hann
    adaptive, at_start = c.choice("adaptive", [False, True]), c.choice("at_start", [False, True])
    off = c.int("offset", 0, 2)
    site = "transfer_functions.transfer_functions:_window_this_ir_tukey"
    c.opaque(site, lambda a: [((a["total_length"],), "f"), ((a["total_length"],), "f"), (None, "i")])
    tf = c.dsp.transfer_functions.transfer_functions
    x, out, starts, L, n, m, k, j = window_stored(c, lambda ir, L, n: c.dsp.transfer_functions.window_ir(ir, L, adaptive, 0.5, W, at_start, off), (4, 200))
    o, w, s = tf._window_this_ir_tukey(x[:, j], L, W, 0.5, at_start, off, 1.0, adaptive)
    c.eq("channel", out.time_data[k, j], o[k])
    c.eq("window", out.window[k, j], w[k])
    c.eq("start", starts[j], s)


@contract("S04", [TF + "window_centered_ir"])
def window_centered_ir(c):
    """channels are windowed independently (``_window_this_ir``), the window is stored"""
    W = c.dsp.standard.enums.Window.Hann
    site = "transfer_functions.transfer_functions:_window_this_ir"
    c.opaque(site, lambda a: [((a["total_length"],), "f"), ((a["total_length"],), "f"), (None, "i")])
    tf = c.dsp.transfer_functions.transfer_functions
    x, out, starts, L, n, m, k, j = window_stored(c, lambda ir, L, n: c.dsp.transfer_functions.window_centered_ir(ir, L, W), (1, 200))
    o, w, s = tf._window_this_ir(x[:, j], L, W)
    c.eq("channel", out.time_data[k, j], o[k])
    c.eq("window", out.window[k, j], w[k])
    c.eq("start", starts[j], s)


@contract("S04", [TF + "window_ir", TF + "window_centered_ir", TF + "window_ir_tukey"], sym=False, bounded="responses up to 40 samples, 1 to 3 channels, all windows")
def stored_window(c):
    np = c.np
    n, m = c.int("n", 4, 40), c.int("ch", 1, 3)
    fs = 1000
    x = c.array("x", (n, m))
    for j in range(m):
        x[c.int("peak%d" % j, 0, n - 1), j] = 1.5
    ir = c.dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    E = c.dsp.standard.enums
    W = E.Window[c.choice("window", ["Hann", "Hamming", "Blackman", "Boxcar", "Triang"])]
    T = c.dsp.transfer_functions
    kind = c.choice("function", ["window_ir", "centered", "tukey"])
    L = c.int("length", 3, 60)
    cp = c.choice("constant", [0.25, 0.5, 0.75])
    if kind == "window_ir":
        off = c.int("offset", 0, int(cp * L))
        c.requires(off < n)
        both = c.choice("two_windows", [False, True])
        out, st = T.window_ir(ir, L, c.choice("adaptive", [False, True]), cp, [W, E.Window.Hann] if both else W, c.choice("at_start", [False, True]), off,
                              c.choice("ratio", [0.5, 1.0]))
    elif kind == "centered":
        out, st = T.window_centered_ir(ir, L, W)
    else:
        L = n
        out, st = T.window_ir_tukey(ir, 0.2 * n / fs, 0.3 * n / fs, W), np.zeros(m, int)
    c.shape("samples", out.time_data, (L, m))
    c.shape("window", out.window, (L, m))
    c.ensure("window between zero and one", (out.window >= -1e-12).all() and (out.window <= 1 + 1e-12).all())
    for j in range(m):
        def at(s):
            k = np.arange(L) + s
            return np.where((k >= 0) & (k < n), x[np.clip(k, 0, n - 1), j], 0.0) * out.window[:, j]
        c.ensure("samples times window", any(np.allclose(at(s), out.time_data[:, j]) for s in range(-L, n + 1)))
