"""E01: audio effects."""
from ._h import contract

EF = "effects._effects:"
EC = "effects.effects:"


def _curve(c, T, R, W, down):
    """static characteristic in dB: hard or quadratic knee of width W around the threshold"""
    def low(L):
        return L if down else T + (L - T) / R

    def high(L):
        return T + (L - T) / R if down else L

    def knee(L):
        return L + (1 / R - 1) * (L - T + W / 2) ** 2 / (2 * W) if down else L - (1 / R - 1) * (L - T - W / 2) ** 2 / (2 * W)
    return low, knee, high


def _compressor(c, T, R, knee, down, mix, pre=0.0, post=0.0):
    k = c.dsp.effects.Compressor(T, 0.0, 0.0, R, False)
    k.set_advanced_parameters(knee, pre, post, mix, False, down)
    return k


@contract("E01", [EC + "Compressor._apply_this_effect", EF + "_compressor", EF + "_get_knee_func"], bounded="signals of two samples (the "
          "characteristic is memoryless without attack and release times)")
def compressor_curve(c):
    """without attack and release times, each sample is compressed by the static characteristic of its own level"""
    np = c.np
    T = c.real("threshold", -40, -5)
    W = c.choice("knee", [0.0, 6.0])
    R = c.real("ratio", 1, 20) if W == 0 else c.choice("ratio of soft knees", [1.5, 4.0])
    down = c.choice("downward", [True, False])
    first, second = c.real("first", 0.99, 1), c.real("second", -1, 1)
    c.requires(np.abs(second) > 1e-4)
    x = c.arr((2, 1), lambda i, k: c.where(i < 1, first, second))
    k = _compressor(c, T, R, W, down, 100.0)
    s = c.dsp.Signal(None, x.copy(), 48000, constrain_amplitude=False)
    c.stub("effects._effects:_get_smoothing_factor_ema", lambda *a, **kw: 1.0)  # limit for a relaxation time of zero
    y = k.apply(s)
    c.shape("shape", y.time_data, (2, 1))
    q = 1
    v = x[q, 0]
    L = 10 * np.log10(v ** 2)
    low, mid, high = _curve(c, T, R, W, down)
    got = y.time_data[q, 0]
    if c.case(L < T - W / 2):
        c.eq("below the knee", got, v * 10 ** ((low(L) - L) / 20))
    elif c.case(L > T + W / 2):
        c.eq("above the knee", got, v * 10 ** ((high(L) - L) / 20))
    elif W > 0:
        c.eq("in the knee", got, v * 10 ** ((mid(L) - L) / 20))
    else:
        c.eq("at the threshold", got, v)


@contract("E01", [EC + "Compressor._apply_this_effect", EF + "_compressor"], sym=False, bounded="signals up to 200 samples, 1 to 3 channels")
def compressor_mix(c):
    """the compressed and the clean signal are mixed as requested, between the gains before and after"""
    np = c.np
    n, m = c.int("n", 4, 200), c.int("ch", 1, 3)
    x = c.array("x", (n, m), lo=-1, hi=1)
    T, R, W = c.real("threshold", -40, -1), c.real("ratio", 1, 20), c.choice("knee", [0.0, 3.0])
    mix, pre, post = c.choice("mix", [100.0, 60.0, 1.0]), c.choice("pre", [0.0, -3.0, 2.0]), c.choice("post", [0.0, -4.0])
    down = c.choice("downward", [True, False])
    s = c.dsp.Signal(None, x.copy(), 48000, constrain_amplitude=False)
    y = _compressor(c, T, R, W, down, mix, pre, post).apply(s).time_data
    clean = x * 10 ** (pre / 20)
    wet = _compressor(c, T, R, W, down, 100.0).apply(c.dsp.Signal(None, clean.copy(), 48000, constrain_amplitude=False)).time_data
    c.eq("mix", y, (wet * mix / 100 + clean * (1 - mix / 100)) * 10 ** (post / 20))
    c.unchanged("signal", s.time_data, x)


@contract("E01", [EC + "Compressor._apply_this_effect", EF + "_compressor", EF + "_get_knee_func"], sym=False,
          bounded="signals up to 200 samples, 1 to 3 channels")
def compressor_order(c):
    """the characteristic is monotone and continuous, never amplifies (downward) or attenuates (upward), and is finite everywhere"""
    np = c.np
    n = c.int("n", 20, 200)
    T, R, W = c.choice("threshold", [-20.0, -6.0, 0.0]), c.choice("ratio", [1.0, 2.0, 3.7, 20.0]), c.choice("knee", [0.0, 3.0, 12.0])
    down = c.choice("downward", [True, False])
    L = np.sort(np.concatenate([c.array("L", (n,), lo=-60, hi=0), [T, T - W / 2, T + W / 2, T - 1e-7, T + 1e-7, T - W / 2 - 1e-7, 0.0]]))
    x = 10 ** (L / 20)
    x[L == 0] = 1.0
    s = c.dsp.Signal(None, x.copy(), 48000, constrain_amplitude=False)
    y = _compressor(c, T, R, W, down, 100.0).apply(s).time_data[:, 0]
    c.ensure("finite", bool(np.isfinite(y).all() and (y > 0).all()))
    c.ensure("monotone", bool((np.diff(y) >= -1e-12).all()))
    out = 20 * np.log10(y)
    c.ensure("continuous", bool((np.diff(out) <= np.diff(L) * (1 if down else max(1, 1 / R)) + 1e-6).all()))
    c.ensure("direction", bool(((out <= L + 1e-9) if down else (out >= L - 1e-9)).all()))
    rel = c.dsp.effects.Compressor(T, 0.0, 0.0, R, True)
    rel.set_advanced_parameters(W, 0.0, 0.0, 100.0, False, down)
    g = c.real("gain", 0.01, 0.9)
    a = rel.apply(c.dsp.Signal(None, x * g, 48000, constrain_amplitude=False)).time_data[:, 0]
    b = rel.apply(c.dsp.Signal(None, x * (g / 2), 48000, constrain_amplitude=False)).time_data[:, 0]
    c.eq("relative to the peak level", a, 2 * b)
    up = c.dsp.effects.Compressor(T, 0.0, 0.0, R, False)
    up.set_advanced_parameters(W, 0.0, 0.0, 100.0, True, down)
    z = up.apply(s).time_data[:, 0]
    c.eq("make-up gain keeps the RMS value", np.var(z), np.var(x))


@contract("E01", [EC + "Distortion._apply_this_effect", EF + "_arctan_distortion", EF + "_hard_clip_distortion", EF + "_soft_clip_distortion",
                  EC + "AudioEffect._restore_peak_values"])
def distortion_curve(c):
    """each distortion applies its own curve to the signal relative to its peak, and keeps the peak level"""
    np = c.np
    n = c.dim("n", 2)
    m = 1 if c.choice("mono", [False, True]) else c.int("ch", 2, 4)
    c.requires(m <= n)
    x = c.array("x", (n, m), lo=-1, hi=1)
    j, q = c.int("j", 0, m - 1), c.int("q", 0, n - 1)
    top = np.max(np.abs(x), axis=0)
    c.requires(top[j] > 1e-3)
    c.requires(top[0] > 1e-3)
    D = c.dsp.effects.DistortionType
    kind = c.choice("kind", [D.Arctan, D.HardClip, D.SoftClip, D.NoDistortion])
    level, post = c.real("level", 0, 40), c.real("post", -20, 0)
    offset = -np.inf if c.choice("no offset", [True, False]) else c.real("offset", -60, -6)
    g = 10 ** (level / 20)
    o = 0.0 if isinstance(offset, float) and offset == -np.inf else 10 ** (offset / 20)

    def curve(v):
        if kind == D.Arctan:
            return np.arctan(v * g + o) * (2 / np.pi)
        if kind == D.HardClip:
            w = v * g + o
            return c.min(c.max(w, -1), 1)
        if kind == D.SoftClip:
            w = (v * (2 / 3) + o) * g
            w = c.min(c.max(w, -1), 1)
            return w - w ** 3 / 3
        return v
    raw = c.arr((n, m), lambda i, k: x[i, k] if kind == D.NoDistortion else curve(x[i, k] / top[k]))
    peak = np.max(np.abs(raw), axis=0)
    c.requires(peak[j] > 1e-3)
    d = c.dsp.effects.Distortion()
    if isinstance(offset, float) and offset == -np.inf:
        d.set_advanced_parameters(kind, level, 100, offset, post)
    else:
        d.set_advanced_parameters([kind, D.NoDistortion], c.arr((2,), lambda i: c.where(i < 1, level, 0.0)), np.array([100.0, 0.0]),
                                  c.arr((2,), lambda i: c.where(i < 1, offset, 0.0)), post)
    s = c.dsp.Signal(None, x.copy(), 48000, constrain_amplitude=False)
    y = d.apply(s)
    c.shape("shape", y.time_data, (n, m))
    # (the last quotient is one: the peak of the restored values)
    z = c.arr((n, m), lambda i, k: raw[i, k] * (top[k] / peak[k]))
    last = np.max(np.abs(z), axis=0)
    c.requires(last[j] > 1e-3)
    c.eq("curve", y.time_data[q, j], z[q, j] * (top[j] / last[j]) * 10 ** (post / 20))
    c.unchanged("signal", s.time_data, x)


@contract("E01", [EC + "Distortion._apply_this_effect", EC + "Distortion.set_advanced_parameters"], sym=False,
          bounded="signals up to 200 samples, 1 to 3 channels, up to three distortions")
def distortion_mix(c):
    """distortions (and the clean signal) are mixed at equal peak level in the requested proportions, and the peak level is kept"""
    np = c.np
    n, m = c.int("n", 4, 200), c.int("ch", 1, 3)
    x = c.array("x", (n, m), lo=-1, hi=1)
    c.requires(np.abs(x).max(axis=0).min() > 1e-2)
    D = c.dsp.effects.DistortionType
    mode = c.choice("mode", ["one", "several"])
    kinds = [c.choice("kind", [D.Arctan, D.HardClip, D.SoftClip])]
    levels, mix = [c.real("level", 0, 40)], [c.choice("mix", [0.0, 40.0, 75.0, 100.0])]
    if mode == "several":
        kinds += [c.choice("second", [D.Arctan, D.HardClip, D.NoDistortion])]
        levels += [c.real("second level", 0, 40)]
        mix += [100.0 - mix[0]]
    s = c.dsp.Signal(None, x.copy(), 48000, constrain_amplitude=False)
    top = np.abs(x).max(axis=0)

    def single(kind, level):
        d = c.dsp.effects.Distortion(level, 0, kind)
        return d.apply(s).time_data
    parts = [single(k, lv) for k, lv in zip(kinds, levels)]
    for p in parts:
        c.eq("peak of one", np.abs(p).max(axis=0), top)
        c.ensure("sign", bool((p * x >= -1e-12).all()))
    if mode == "one":
        parts, mix = parts + [x], mix + [100 - mix[0]]
    want = sum(p * (k / 100) for p, k in zip(parts, mix))
    d = c.dsp.effects.Distortion()
    if mode == "one":
        d.set_advanced_parameters(kinds[0], levels[0], mix[0], -np.inf, 0)
    else:
        d.set_advanced_parameters(kinds, np.array(levels), np.array(mix), np.array([-np.inf] * 2), 0)
    y = d.apply(s).time_data
    c.eq("mix", y, want * (top / np.abs(want).max(axis=0)))
    c.unchanged("signal", s.time_data, x)


@contract("E01", [EF + "LFO.get_waveform", EF + "_harmonic_oscillator", EF + "_square_oscillator", EF + "_sawtooth_oscillator"])
def oscillator_waveform(c):
    """low-frequency oscillators have the requested length, follow their frequency and stay within one"""
    np = c.np
    n, fs = c.dim("n", 2), c.int("fs", 1)
    f = c.real("frequency", 0, 100, open=True)
    kind = c.choice("kind", ["harmonic", "square", "sawtooth"])
    o = c.dsp.effects.LFO(1.0, kind)
    o.frequency_hz = f
    w = o.get_waveform(fs, n)
    c.shape("shape", w, (n,))
    q = c.int("q", 0, n - 1)
    v = np.sin(f / fs * 2 * np.pi * q)
    if kind == "harmonic":
        c.eq("sine", w[q], v)
    elif kind == "square":
        c.ensure("square", c.and_(c.implies(v > 1e-9, w[q] > 0.999), c.implies(v < -1e-9, w[q] < -0.999)))
    else:
        t = f / fs * q
        c.requires(c.and_(t - c.floor(t) > 1e-9, t - c.floor(t) < 1 - 1e-9))
        c.eq("sawtooth", w[q], 2 * (t - c.floor(t)) - 1)
    c.ensure("range", c.and_(w[q] <= 1, w[q] >= -1))


@contract("E01", [EF + "LFO.get_waveform", EF + "_triangle_oscillator", EF + "get_frequency_from_musical_rhythm"], sym=False,
          bounded="up to 500 samples")
def oscillator_range(c):
    """oscillators stay within one, whatever the phase; rhythms have the frequency of their note"""
    np = c.np
    n, fs = c.int("n", 5, 500), c.int("fs", 50, 1000)
    f = c.real("frequency", 0.5, 20)
    kind = c.choice("kind", ["harmonic", "square", "sawtooth", "triangle"])
    w = c.dsp.effects.LFO(f, kind, c.choice("random phase", [False, True])).get_waveform(fs, n)
    c.shape("shape", w, (n,))
    c.ensure("range", bool((np.abs(w) <= 1 + 1e-12).all()))
    note, beats = c.choice("note", [("quarter", 1), ("half", 2), ("whole", 4), ("eighth", 1 / 2), ("sixteenth", 1 / 4), ("32th", 1 / 8),
                                    ("eighth 3", 1 / 3), ("half dotted", 3), ("quarter 3", 2 / 3), ("quintuplet", 1 / 5)])
    bpm = c.real("bpm", 30, 240)
    c.eq("rhythm", c.dsp.effects.LFO((note, bpm)).frequency_hz, bpm / 60 / beats)
    c.eq("period", c.dsp.effects.get_time_period_from_musical_rhythm(note, bpm), beats * 60 / bpm)


@contract("E01", [EC + "Tremolo._apply_this_effect"])
def tremolo(c):
    """a tremolo scales every sample by one plus the depth times the modulator at that sample, for oscillators and arrays"""
    np = c.np
    n = c.dim("n", 2)
    m = c.dim("ch", 1)
    c.requires(m <= n)
    x = c.array("x", (n, m), lo=-1, hi=1)
    depth = c.real("depth", 0, 1, open=True)
    fs = c.int("fs", 1)
    q, j = c.int("q", 0, n - 1), c.int("j", 0, m - 1)
    if c.choice("array", [False, True]):
        k = c.dim("k", 2)
        mod = c.array("mod", (k,), lo=-1, hi=1)
        w = c.where(q < k, mod[c.min(q, k - 1)], 0)
        t = c.dsp.effects.Tremolo(depth, mod.copy())
    else:
        t = c.dsp.effects.Tremolo(depth, c.dsp.effects.LFO(3.0, "harmonic"))
        w = np.sin(3.0 / fs * 2 * np.pi * q)
    s = c.dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    y = t.apply(s)
    c.shape("shape", y.time_data, (n, m))
    c.eq("modulated", y.time_data[q, j], x[q, j] * np.abs(1 + depth * w))
    c.unchanged("signal", s.time_data, x)


@contract("E01", [EC + "DigitalDelay._apply_this_effect"], sym=False, bounded="signals up to 200 samples, 1 to 3 channels")
def delay_line(c):
    """the delay repeats the signal with the feedback after every delay time, and keeps the peak level"""
    np = c.np
    n, m = c.int("n", 4, 200), c.int("ch", 1, 3)
    fs, d = 1000, c.int("delay", 1, 50)
    fb = c.real("feedback", 0.05, 0.9)
    x = c.array("x", (n, m), lo=-1, hi=1)
    c.requires(np.abs(x).max(axis=0).min() > 1e-2)
    sat = c.choice("saturation", [None, "arctan", "custom"])
    f = {None: lambda v: v, "arctan": lambda v: np.arctan(2 * v) / 2, "custom": lambda v: v * 0.5}[sat]
    e = c.dsp.effects.DigitalDelay(float(d), fb)
    e.set_advanced_parameters(f if sat == "custom" else sat)
    s = c.dsp.Signal(None, x.copy(), fs, constrain_amplitude=False)
    y = e.apply(s).time_data
    k = y.shape[0]
    c.ensure("tail", k >= n + d)
    want = np.concatenate([x, np.zeros((k - n, m))])
    for i in range(d, k):
        want[i] += fb * f(want[i - d])
    c.eq("repetitions", y, want * (np.abs(x).max(axis=0) / np.abs(want).max(axis=0)))
    c.unchanged("signal", s.time_data, x)
