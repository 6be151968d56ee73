"""L01 dB conversion, L02 gain/normalisation, L03 meters, T06 fades"""
from ._h import contract, signal, multiband

HG = "helpers.gain_and_level:"
SG = "standard.gain_and_level:"


# ------------------------------------------------------------------ T06
def curve(c, kind, L, i):
    """the documented fade curves: from (nearly) silence to one"""
    np = c.np
    t = i / (L - 1)
    if kind == "Linear":
        return t
    if kind == "Exponential":
        return 10 ** ((-100 + 100 * t) / 20)
    top = 50 * np.sqrt(10)
    return np.log10(1 + (top - 1) * t) / np.log10(1 + (top - 1) * 1.0)


@contract("T06", [SG + "fade", HG + "_fade"])
def fade_signal(c):
    s, x, n, m, fs = signal(c, lo_n=5)
    x0 = c.snap(x)
    kind = c.choice("fade", ["Linear", "Exponential", "Logarithmic", "NoFade"])
    ends = c.choice("ends", ["start", "end", "both"])
    L = c.int("L", 2, typ=(2, 8))
    c.requires(L + 1 < n)
    ft = getattr(c.dsp.standard.enums.FadeType, kind)
    out = c.dsp.fade(s, ft, (L + 0.5) / fs, ends != "end", ends != "start")
    c.shape("length", out.time_data, (n, m))

    def spec(i, ch):
        v = x0[i, ch]
        if kind == "NoFade":
            return v
        if ends != "end":
            v = c.where(i < L, v * curve(c, kind, L, c.min(i, L - 1)), v)
        if ends != "start":
            v = c.where(n - 1 - i < L, v * curve(c, kind, L, c.min(n - 1 - i, L - 1)), v)
        return v
    c.eq("faded", out.time_data, c.arr((n, m), spec))
    c.unchanged("input", s.time_data, x0)


@contract("T06", [HG + "_fade"])
def fade_array(c):
    n = c.dim("n", 5)
    kind = c.choice("fade", ["Linear", "Exponential", "Logarithmic"])
    L = c.int("L", 2, typ=(2, 8))
    c.requires(L < n)
    fs = c.int("fs", 1, 200000, typ=(8, 1000))
    start = c.bool("start")
    oned = c.bool("oned")
    m = 1 if oned else c.dim("m", 1, typ=(1, 3))
    x = c.array("x", (n,) if oned else (n, m))
    x0 = c.snap(x)
    ft = getattr(c.dsp.standard.enums.FadeType, kind)
    out = c.dsp.helpers.gain_and_level._fade(x, (L + 0.5) / fs, ft, fs, start)
    rd = (lambda a, i, ch: a[i]) if oned else (lambda a, i, ch: a[i, ch])

    def spec(i, ch):
        j = i if start else n - 1 - i
        return c.where(j < L, rd(x0, i, ch) * curve(c, kind, L, c.min(j, L - 1)), rd(x0, i, ch))
    c.shape("length", out, (n,) if oned else (n, m))
    c.forall("faded", (n, m), lambda i, ch: (rd(out, i, ch), spec(i, ch)))


@contract("T06", [HG + "_fade"])
def fade_curve_bounds(c):
    """the curve starts at (nearly) silence, ends at one and grows in between"""
    L = c.dim("L", 2, typ=(2, 12))
    n = L + 2
    kind = c.choice("fade", ["Linear", "Exponential", "Logarithmic"])
    ft = getattr(c.dsp.standard.enums.FadeType, kind)
    fs = c.int("fs", 1, 200000, typ=(8, 1000))
    f = c.dsp.helpers.gain_and_level._fade(c.np.ones(n), (L + 0.5) / fs, ft, fs, True)
    c.ensure("starts silent", c.and_(f[0] >= 0, f[0] <= 1.1e-5))
    c.close("ends at one", f[L - 1], 1.0, 1e-9)
    c.forall("inside", (L,), lambda i: c.and_(f[i] >= 0, f[i] <= 1 + 1e-12))
    c.forall("grows", (L - 1,), lambda i: f[i] < f[i + 1])


# ------------------------------------------------------------------ L01
@contract("L01", [HG + "to_db", HG + "from_db"])
def db_round_trip(c):
    n = c.dim("n", 1)
    amp = c.bool("amplitude")
    x = c.array("x", (n,), lo=-1000.0, hi=1000.0)
    x0 = c.snap(x)
    T = c.dsp.tools
    y = T.from_db(T.to_db(x, amp, min_value=1e-12), amp)
    c.forall("round trip", (n,), lambda i: (y[i], c.where(abs(x0[i]) >= 1e-12, abs(x0[i]), 1e-12)))
    z = c.array("z", (n,), lo=-200.0, hi=200.0)
    w = T.to_db(T.from_db(z, amp), amp)
    c.forall("inverse round trip", (n,), lambda i: (w[i], z[i]))
    c.unchanged("input", x, x0)


@contract("L01", [HG + "to_db"])
def db_scale(c):
    """20 dB per decade for amplitude and 10 for power; only the magnitude counts; floors"""
    n, m = c.dim("n", 1), c.dim("m", 1, typ=(1, 3))
    amp = c.bool("amplitude")
    kind = c.choice("kind", ["f", "c"])
    x = c.array("x", (n, m), kind)
    fac = 20.0 if amp else 10.0
    mode = c.choice("mode", ["floor", "range", "none", "default"])
    T, np = c.dsp.tools, c.np
    if mode == "floor":
        fl = c.real("fl", 1e-6, 10.0)
        y = T.to_db(x, amp, min_value=fl)
        c.forall("value", (n, m), lambda i, ch: (y[i, ch], fac * np.log10(c.max(abs(x[i, ch]), fl))))
    elif mode == "range":
        dr = c.real("dr", 1.0, 100.0)
        p, q = c.int("p", 0, typ=(0, 3)), c.int("q", 0, typ=(0, 1))
        c.requires(p < n, q < m)
        c.requires(abs(x[p, q]) > 1e-3)
        y = T.to_db(x, amp, dynamic_range_db=dr)
        pk = c.maxof(n, lambda i: c.maxof(m, lambda ch: abs(x[i, ch])))
        c.forall("value", (n, m), lambda i, ch: (y[i, ch], fac * np.log10(c.max(abs(x[i, ch]), pk * 10 ** (-dr / fac)))))
    elif mode == "default":
        y = T.to_db(x, amp)
        c.forall("value", (n, m), lambda i, ch: (y[i, ch], fac * np.log10(abs(x[i, ch]))), when=lambda i, ch: abs(x[i, ch]) > 1e-30)
    else:
        y = T.to_db(x, amp, None, None)
        c.forall("value", (n, m), lambda i, ch: (y[i, ch], fac * np.log10(abs(x[i, ch]))), when=lambda i, ch: abs(x[i, ch]) > 1e-30)
    c.shape("shape", y, (n, m))


@contract("L01", [HG + "to_db", HG + "from_db"])
def db_monotone(c):
    amp = c.bool("amplitude")
    a, b = c.real("a", 1e-3, 100.0), c.real("b", 1e-3, 100.0)
    c.requires(a < b)
    T = c.dsp.tools
    v = T.to_db(c.np.array([a, b]), amp)
    c.ensure("to_db monotone", v[0] < v[1])
    p, q = c.real("p", -100.0, 100.0), c.real("q", -100.0, 100.0)
    c.requires(p < q)
    c.ensure("from_db monotone", T.from_db(p, amp) < T.from_db(q, amp))
    r = c.real("r", 1.0, 5.0)
    fac = 20.0 if amp else 10.0
    u = T.to_db(c.np.array([10 * a]), amp)
    c.close("decade", u[0], v[0] + fac, 1e-6)
    c.close("gain adds", T.from_db(p + q, amp), T.from_db(p, amp) * T.from_db(q, amp), 1e-6)
    c.close("zero dB", T.from_db(0.0, amp), 1.0, 1e-12)


# ------------------------------------------------------------------ L02
def gain(c, db):
    return 10 ** (db / 20.0)


@contract("L02", [SG + "apply_gain"])
def gain_signal(c):
    s, x, n, m, fs = signal(c, kind=c.choice("kind", ["f", "c"]))
    x0 = c.snap(x)
    per = c.bool("per_channel")
    if per:
        g = c.array("g", (m,), lo=-60.0, hi=60.0)
        gg = lambda ch: g[ch]
    else:
        g = c.real("g", -60.0, 60.0)
        gg = lambda ch: g
    out = c.dsp.apply_gain(s, g)
    c.shape("length", out.time_data, (n, m))
    c.forall("real part", (n, m), lambda i, ch: (out.time_data[i, ch], x0[i, ch].real * gain(c, gg(ch))))
    c.ensure("complexness", out.is_complex_signal == s.is_complex_signal)
    if s.is_complex_signal:
        c.forall("imaginary part", (n, m), lambda i, ch: (out.time_data_imaginary[i, ch], x0[i, ch].imag * gain(c, gg(ch))))
        c.forall("input imaginary", (n, m), lambda i, ch: (s.time_data_imaginary[i, ch], x0[i, ch].imag))
    c.forall("input", (n, m), lambda i, ch: (s.time_data[i, ch], x0[i, ch].real))
    c.eq("fs", out.sampling_rate_hz, fs)


@contract("L02", [SG + "apply_gain"], bounded="two bands")
def gain_multiband(c):
    mb, xs, n, m, fs = multiband(c, 2)
    x0 = [c.snap(x) for x in xs]
    g = c.real("g", -60.0, 60.0)
    out = c.dsp.apply_gain(mb, g)
    c.ensure("bands", out.number_of_bands == 2)
    for k in range(2):
        c.forall("scaled", (n, m), lambda i, ch: (out.bands[k].time_data[i, ch], x0[k][i, ch] * gain(c, g)))
        c.unchanged("input", mb.bands[k].time_data, x0[k])


@contract("L02", [SG + "normalize", HG + "_normalize", HG + "_rms"])
def normalize_peak(c):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    db = c.real("db", -60.0, 20.0)
    per = c.bool("each_channel")
    if per:
        p = c.int("p", 0, typ=(0, 3))
        q = c.int("q", 0, typ=(0, 2))
        c.requires(p < n, q < m)
        c.requires(c.all_(m, lambda ch: c.maxof(n, lambda i: abs(x0[i, ch])) > 0.001))
    else:
        c.requires(c.maxof(n, lambda i: c.maxof(m, lambda ch: abs(x0[i, ch]))) > 0.001)
    out = c.dsp.normalize(s, db, True, per)
    if per:
        c.forall("factor", (n, m), lambda i, ch: (out.time_data[i, ch] * c.maxof(n, lambda k: abs(x0[k, ch])), x0[i, ch] * gain(c, db)))
    else:
        pk = c.maxof(n, lambda k: c.maxof(m, lambda ch: abs(x0[k, ch])))
        c.forall("factor", (n, m), lambda i, ch: (out.time_data[i, ch] * pk, x0[i, ch] * gain(c, db)))
    c.unchanged("input", s.time_data, x0)


@contract("L02", [SG + "normalize", HG + "_normalize", HG + "_rms"])
def normalize_rms(c):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    db = c.real("db", -60.0, 20.0)
    per = c.bool("each_channel")
    np = c.np
    if per:
        r = np.std(x0, axis=0)
        c.requires(c.all_(m, lambda ch: r[ch] > 0.001))
        rr = lambda ch: r[ch]
    else:
        r = np.std(x0.flatten())
        c.requires(r > 0.001)
        rr = lambda ch: r
    out = c.dsp.normalize(s, db, False, per)
    c.forall("factor", (n, m), lambda i, ch: (out.time_data[i, ch] * rr(ch), x0[i, ch] * gain(c, db)))
    c.unchanged("input", s.time_data, x0)


@contract("L02", [SG + "normalize"], bounded="two bands")
def normalize_multiband(c):
    mb, xs, n, m, fs = multiband(c, 2)
    x0 = [c.snap(x) for x in xs]
    db = c.real("db", -60.0, 20.0)
    for k in range(2):
        c.requires(c.maxof(n, lambda i: c.maxof(m, lambda ch: abs(x0[k][i, ch]))) > 0.001)
    out = c.dsp.normalize(mb, db)
    for k in range(2):
        pk = c.maxof(n, lambda i: c.maxof(m, lambda ch: abs(x0[k][i, ch])))
        c.forall("factor", (n, m), lambda i, ch: (out.bands[k].time_data[i, ch] * pk, x0[k][i, ch] * gain(c, db)))
        c.unchanged("input", mb.bands[k].time_data, x0[k])


# ------------------------------------------------------------------ L03
TINY = 2.2250738585072014e-308


def var(c, x, n, ch):
    mean = c.sum(n, lambda i: x[i, ch]) / n
    return c.sum(n, lambda i: (x[i, ch] - mean) ** 2) / n


@contract("L03", [SG + "rms", HG + "_rms"])
def rms_signal(c):
    s, x, n, m, fs = signal(c, lo=-10.0, hi=10.0)
    x0 = c.snap(x)
    dbfs = c.bool("dbfs")
    np = c.np
    if dbfs:
        c.requires(c.all_(m, lambda ch: var(c, x0, n, ch) > 1e-6))
    r = c.dsp.rms(s, dbfs)
    c.shape("one per channel", r, (m,))
    if dbfs:
        c.forall("level", (m,), lambda ch: (r[ch], 20.0 * np.log10(np.sqrt(var(c, x0, n, ch)))))
    else:
        c.forall("value", (m,), lambda ch: (r[ch] ** 2, var(c, x0, n, ch)))
        c.forall("sign", (m,), lambda ch: r[ch] >= 0)
    c.unchanged("input", s.time_data, x0)


@contract("L03", [SG + "rms", HG + "_rms"])
def rms_scaling(c):
    """scaling a channel scales its RMS; the crest factor stays"""
    s, x, n, m, fs = signal(c, lo=-10.0, hi=10.0)
    g = c.real("g", 0.1, 10.0)
    c.requires(c.all_(m, lambda ch: var(c, x, n, ch) > 1e-6))
    r1 = c.dsp.rms(s, False)
    s2 = c.dsp.Signal(None, x * g, fs)
    r2 = c.dsp.rms(s2, False)
    c.forall("rms scales", (m,), lambda ch: (r2[ch], r1[ch] * g))


@contract("L03", [SG + "crest_factor"])
def crest(c):
    s, x, n, m, fs = signal(c, lo=-10.0, hi=10.0)
    x0 = c.snap(x)
    db = c.bool("db")
    np = c.np
    c.requires(c.all_(m, lambda ch: var(c, x0, n, ch) > 1e-6))
    r = c.dsp.crest_factor(s, db)
    c.shape("one per channel", r, (m,))

    def want(ch):
        return c.maxof(n, lambda i: abs(x0[i, ch])) / np.sqrt(var(c, x0, n, ch))
    c.requires(c.all_(m, lambda ch: c.maxof(n, lambda i: abs(x0[i, ch])) > 1e-6))
    if db:
        c.forall("value", (m,), lambda ch: (r[ch], 20.0 * np.log10(c.max(want(ch), TINY))))
    else:
        c.forall("value", (m,), lambda ch: (r[ch], want(ch)))
    c.unchanged("input", s.time_data, x0)


@contract("L03", [SG + "rms", SG + "crest_factor"], bounded="two bands")
def meters_multiband(c):
    mb, xs, n, m, fs = multiband(c, 2)
    db = c.bool("db")
    what = c.choice("meter", ["rms", "crest_factor"])
    for x in xs:
        c.requires(c.all_(m, lambda ch: var(c, x, n, ch) > 1e-6))
        c.requires(c.all_(m, lambda ch: c.maxof(n, lambda i: abs(x[i, ch])) > 1e-6))
    f = getattr(c.dsp, what)
    r = f(mb, db)
    c.shape("shape", r, (2, m))
    for k in range(2):
        one = f(mb.bands[k], db)
        c.forall("per band", (m,), lambda ch: (r[k, ch], one[ch]))
