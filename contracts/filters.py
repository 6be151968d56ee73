"""F05 equalizer sections, F06 filter banks, F07 filtering of signals"""
from ._h import contract, signal

BQ = "classes.filter_helpers:_biquad_coefficients"


def section(c, names):
    """a designed section: (type name, b, a, cos, sin, linear gain of the requested dB value)"""
    E = c.dsp.BiquadEqType
    name = c.choice("type", names)
    fs = c.int("fs", 1, 400000, typ=(100, 48000))
    f = c.real("f", 0.0, None, open=True, typ=(1.0, 40.0))
    c.requires(2 * f < fs)
    g = c.real("gain_db", -60.0, 60.0)
    q = c.real("q", 0.05, 50.0)
    b, a = c.dsp.Filter.biquad(getattr(E, name), f, g, q, fs).ba
    a = [a[k] if k < a.shape[0] else 0.0 for k in range(3)]
    b = [b[k] for k in range(3)]
    om = 2.0 * c.np.pi * (f / fs)
    return name, b, a, c.np.cos(om), c.np.sin(om), c.dsp.helpers.gain_and_level.from_db(g, True), q, om


def at_dc(v): return v[0] + v[1] + v[2]
def at_nyquist(v): return v[0] - v[1] + v[2]


def at_centre(v, cs, sn):
    """v(z) * z at the angular frequency with the given cosine and sine: real and imaginary part"""
    return (v[0] + v[2]) * cs + v[1], (v[0] - v[2]) * sn


@contract("F05", [BQ, "classes.filter:Filter.biquad"])
def peaking(c):
    name, b, a, cs, sn, G, q, om = section(c, ["Peaking"])
    c.eq("unity at 0 Hz", at_dc(b), at_dc(a))
    c.eq("unity at Nyquist", at_nyquist(b), at_nyquist(a))
    rb, ib = at_centre(b, cs, sn)
    ra, ia = at_centre(a, cs, sn)
    c.eq("centre real part", rb, 0.0)
    c.eq("centre denominator real part", ra, 0.0)
    c.eq("gain at the centre", ib, G * ia)
    c.ensure("no pole at the centre", abs(ia) > 0)


@contract("F05", [BQ, "classes.filter:Filter.biquad"])
def shelves(c):
    name, b, a, cs, sn, G, q, om = section(c, ["Lowshelf", "Highshelf"])
    low, high = (at_dc, at_nyquist) if name == "Lowshelf" else (at_nyquist, at_dc)
    c.eq("gain at the shelf end", low(b) + G * a[0], G * low(a) + G * a[0])
    c.eq("unity at the other end", high(b) + a[0], high(a) + a[0])
    c.ensure("no pole at the ends", c.and_(at_dc(a) > 0, at_nyquist(a) > 0))


@contract("F05", [BQ, "classes.filter:Filter.biquad"])
def pass_filters(c):
    name, b, a, cs, sn, G, q, om = section(c, ["Lowpass", "Highpass", "LowpassFirstOrder", "HighpassFirstOrder"])
    on, off = (at_dc, at_nyquist) if name.startswith("Low") else (at_nyquist, at_dc)
    c.eq("passband", on(b), G * on(a))
    c.eq("null", off(b), 0.0)
    c.ensure("passband denominator", on(a) > 0)
    rb, ib = at_centre(b, cs, sn)
    ra, ia = at_centre(a, cs, sn)
    if name.endswith("FirstOrder"):
        # half power at the cut-off
        sh, ch = c.np.sin(om / 2.0), c.np.cos(om / 2.0)
        rb, ib = at_centre(b, 1.0 - 2.0 * sh * sh, 2.0 * sh * ch)
        ra, ia = at_centre(a, 1.0 - 2.0 * sh * sh, 2.0 * sh * ch)
        c.eq("cut-off", 2 * (rb * rb + ib * ib), G * G * (ra * ra + ia * ia), tol=1e-6)
    else:
        c.eq("cut-off", rb * rb + ib * ib, (G * q) ** 2 * (ra * ra + ia * ia), tol=1e-6)


@contract("F05", [BQ, "classes.filter:Filter.biquad"])
def band_filters(c):
    name, b, a, cs, sn, G, q, om = section(c, ["BandpassSkirt", "BandpassPeak", "Notch"])
    rb, ib = at_centre(b, cs, sn)
    ra, ia = at_centre(a, cs, sn)
    if name == "Notch":
        c.eq("null real", rb, 0.0)
        c.eq("null imaginary", ib, 0.0)
        c.eq("gain at 0 Hz", at_dc(b), G * at_dc(a))
        c.eq("gain at Nyquist", at_nyquist(b), G * at_nyquist(a))
    else:
        c.eq("null at 0 Hz", at_dc(b), 0.0)
        c.eq("null at Nyquist", at_nyquist(b), 0.0)
        c.eq("centre real part", rb, 0.0)
        c.eq("centre denominator real part", ra, 0.0)
        k = 1.0 if name == "BandpassPeak" else q
        c.eq("gain at the centre", ib, G * k * ia)


@contract("F05", [BQ, "classes.filter:Filter.biquad"])
def allpass(c):
    name, b, a, cs, sn, G, q, om = section(c, ["Allpass", "AllpassFirstOrder"])
    n = 2 if name == "Allpass" else 1
    # mirrored coefficients give constant magnitude at every frequency
    for k in range(n + 1):
        c.eq("mirrored coefficients", b[k], G * a[n - k])
    w = c.real("w", 0.0, 3.14)
    cw, sw = c.np.cos(w), c.np.sin(w)
    rb, ib = at_centre(b, cw, sw)
    ra, ia = at_centre(a, cw, sw)
    c.eq("magnitude", rb * rb + ib * ib, G * G * (ra * ra + ia * ia), tol=1e-6)


@contract("F05", [BQ, "classes.filter:Filter.biquad"])
def stable(c):
    name, b, a, cs, sn, G, q, om = section(c, ["Peaking", "Lowpass", "Highpass", "BandpassSkirt", "BandpassPeak", "Notch", "Allpass", "Lowshelf", "Highshelf", "LowpassFirstOrder", "HighpassFirstOrder", "AllpassFirstOrder"])
    c.ensure("leading coefficient", a[0] > 0)
    # Jury's conditions: every pole lies inside the unit circle
    c.ensure("poles: product", abs(a[2]) < a[0])
    c.ensure("poles: sum", abs(a[1]) < a[0] + a[2])


# ------------------------------------------------------------------ F07 filtering of signals
FH = "classes.filter_helpers:"


def make_filter(c, fs, kinds=("fir", "iir", "sos"), name="f"):
    """an arbitrary filter: (filter, function applying its difference equation to an array along time)"""
    kind = c.choice(name + "_kind", list(kinds))
    F = c.dsp.Filter
    if kind == "sos":
        ns = c.choice(name + "_sections", [1, 2])
        co = c.array(name + "_sos", (ns, 6), lo=-0.3, hi=0.3)
        sos = c.arr((ns, 6), lambda i, j: c.where(j == 3, 1.0, co[i, j]))
        return F.from_sos(c.snap(sos), fs), ("sos", sos, None)
    nb = c.dim(name + "_nb", 1, typ=(1, 6))
    b = c.array(name + "_b", (nb,), lo=-0.5, hi=0.5)
    if kind == "fir":
        return F.from_ba(c.snap(b), c.arr((1,), lambda i: 1.0), fs), ("fir", b, c.arr((1,), lambda i: 1.0))
    na = c.dim(name + "_na", 2, typ=(2, 5))
    raw = c.array(name + "_a", (na,), lo=-0.1, hi=0.1)
    c.requires(raw[na - 1] != 0.0)
    a = c.arr((na,), lambda i: c.where(i == 0, 1.0, raw[i]))
    return F.from_ba(c.snap(b), c.snap(a), fs), ("iir", b, a)


def convolved(c, b, x, i, ch):
    """sample i of the convolution of channel ch with b"""
    return c.sum(b.shape[0], lambda q: c.where(i - q >= 0, b[q] * x[c.max(i - q, 0), ch], 0.0))


def response(c, spec, x, zero_phase=False):
    kind, p, q = spec
    if kind == "sos":
        return (c.sci.sosfiltfilt if zero_phase else c.sci.sosfilt)(p, x, axis=0)
    if zero_phase:
        return c.sci.filtfilt(p, q, x, axis=0)
    if kind == "iir":
        return c.sci.lfilter(p, q, x, axis=0)
    return c.arr(x.shape, lambda i, ch: convolved(c, p, x, i, ch))


@contract("F07", ["classes.filter:Filter.filter_signal", FH + "_filter_on_signal", FH + "_filter_on_signal_ba", FH + "_lfilter_fir"])
def filtered_channels(c):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    f, spec = make_filter(c, fs)
    k = c.int("channel", 0, typ=(0, 2))
    c.requires(k < m)
    if c.bool("all"):
        out = f.filter_signal(s)
        sel = lambda ch: True
    else:
        out = f.filter_signal(s, k)
        sel = lambda ch: ch == k
    y = response(c, spec, x0)
    c.shape("shape", out.time_data, (n, m))
    c.forall("filtered channels", (n, m), lambda i, ch: (out.time_data[i, ch], y[i, ch]), when=lambda i, ch: sel(ch))
    c.forall("other channels", (n, m), lambda i, ch: (out.time_data[i, ch], x0[i, ch]), when=lambda i, ch: c.not_(sel(ch)))
    c.ensure("rate", out.sampling_rate_hz == fs)


@contract("F07", ["classes.filter:Filter.filter_signal", FH + "_filter_on_signal", FH + "_filter_on_signal_ba"], bounded="two channels selected out of three")
def filtered_channel_list(c):
    s, x, n, m, fs = signal(c, lo_n=4, m=3)
    x0 = c.snap(x)
    f, spec = make_filter(c, fs)
    sel = c.choice("channels", [[0, 2], [2, 1], [1]])
    out = f.filter_signal(s, sel)
    y = response(c, spec, x0)
    for ch in range(3):
        c.forall("filtered channels" if ch in sel else "other channels", (n,), lambda i: (out.time_data[i, ch], (y if ch in sel else x0)[i, ch]))


@contract("F07", ["classes.filter:Filter.filter_signal", FH + "_filter_on_signal", FH + "_filter_on_signal_ba"])
def zero_phase(c):
    s, x, n, m, fs = signal(c, lo_n=60)
    x0 = c.snap(x)
    f, spec = make_filter(c, fs)
    if spec[0] != "sos":
        c.requires(n > 3 * c.max(spec[1].shape[0], spec[2].shape[0]))
    out = f.filter_signal(s, zero_phase=True)
    c.eq("forward-backward", out.time_data, response(c, spec, x0, True))


@contract("F07", ["classes.filter:Filter.filter_signal", FH + "_filter_on_signal_ba"])
def complex_signal(c):
    n, m = c.dim("n", 2), c.dim("m", 1, typ=(1, 3))
    c.requires(m <= n)
    x, y = c.array("x", (n, m)), c.array("y", (n, m))
    z = c.snap(x) + 1j * c.snap(y)
    s = c.dsp.Signal(None, z, 100)
    f, spec = make_filter(c, 100)
    k = c.int("channel", 0, typ=(0, 2))
    c.requires(k < m)
    out = f.filter_signal(s, k)
    c.ensure("complex", out.is_complex_signal)
    a, b = response(c, spec, x), response(c, spec, y)
    c.forall("real part", (n, m), lambda i, ch: (out.time_data[i, ch], a[i, ch]), when=lambda i, ch: ch == k)
    c.forall("imaginary part", (n, m), lambda i, ch: (out.time_data_imaginary[i, ch], b[i, ch]), when=lambda i, ch: ch == k)
    c.forall("other channels", (n, m), lambda i, ch: (out.time_data[i, ch], x[i, ch]), when=lambda i, ch: c.not_(ch == k))
    c.forall("other channels, imaginary", (n, m), lambda i, ch: (out.time_data_imaginary[i, ch], y[i, ch]), when=lambda i, ch: c.not_(ch == k))


def fir_full(c, b, x, z, nb, n):
    """sample i of [convolution of x with b] plus the pending samples z"""
    def f(i, ch):
        v = c.sum(nb, lambda q: c.where(c.and_(i - q >= 0, i - q < n), b[q] * x[c.min(c.max(i - q, 0), n - 1), ch], 0.0))
        return v + c.where(i < nb - 1, z[c.max(c.min(i, nb - 2), 0), ch], 0.0)
    return f


@contract("F07", [FH + "_lfilter_fir"])
def fir_with_state(c):
    n, m, nb = c.dim("n", 1), c.dim("m", 1, typ=(1, 3)), c.dim("nb", 2, typ=(2, 6))
    x, z, b = c.array("x", (n, m)), c.array("z", (nb - 1, m)), c.array("b", (nb,))
    f = c.dsp.classes.filter_helpers._lfilter_fir
    y, zf = f(c.snap(b), c.arr((1,), lambda i: 1.0), c.snap(x), c.snap(z))
    full = fir_full(c, b, x, z, nb, n)
    c.shape("output shape", y, (n, m))
    c.shape("state shape", zf, (nb - 1, m))
    c.forall("output", (n, m), lambda i, ch: (y[i, ch], full(i, ch)))
    c.forall("state", (nb - 1, m), lambda i, ch: (zf[i, ch], full(n + i, ch)))


def states(c, kind, p, q, m):
    """an arbitrary filter state per channel and the same as one array in scipy's layout"""
    if kind == "sos":
        ns = p.shape[0]
        zs = c.array("zi", (ns, 2, m), lo=-1, hi=1)
        return [zs[:, :, ch] for ch in range(m)], zs
    k = c.max(p.shape[0], q.shape[0]) - 1
    zs = c.array("zi", (k, m), lo=-1, hi=1)
    return [zs[:, ch] for ch in range(m)], zs


@contract("F07", ["classes.filter:Filter.filter_signal", FH + "_filter_on_signal", FH + "_filter_on_signal_ba"], bounded="up to three channels (any number of samples, any coefficients, any earlier state)")
def iir_blocks_continue(c):
    m = c.choice("m", [1, 3])
    n1, n2 = c.dim("n1", 3), c.dim("n2", 3)
    x1, x2 = c.array("x1", (n1, m)), c.array("x2", (n2, m))
    f, (kind, p, q) = make_filter(c, 100, ("iir", "sos"))
    zl, zs = states(c, kind, p, q, m)
    f.zi = [c.snap(v) for v in zl]
    run = (lambda x, z: c.sci.sosfilt(p, x, axis=0, zi=z)) if kind == "sos" else (lambda x, z: c.sci.lfilter(p, q, x, axis=0, zi=z))
    y1, z1 = run(x1, zs)
    y2, z2 = run(x2, z1)
    o1 = f.filter_signal(c.dsp.Signal(None, c.snap(x1), 100), activate_zi=True)
    o2 = f.filter_signal(c.dsp.Signal(None, c.snap(x2), 100), activate_zi=True)
    c.eq("first block", o1.time_data, y1)
    c.eq("second block", o2.time_data, y2)
    for ch in range(m):
        if kind == "sos":
            c.forall("state afterwards", (p.shape[0], 2), lambda i, j: (f.zi[ch][i, j], z2[i, j, ch]))
        else:
            c.forall("state afterwards", (z2.shape[0],), lambda i: (f.zi[ch][i], z2[i, ch]))


@contract("F07", ["classes.filter:Filter.filter_signal", FH + "_filter_on_signal_ba", FH + "_lfilter_fir"], bounded="up to three channels (any block lengths, any taps, any earlier state)")
def fir_blocks_continue(c):
    m = c.choice("m", [1, 3])
    n1, n2, nb = c.dim("n1", 3), c.dim("n2", 3), c.dim("nb", 2, typ=(2, 6))
    x1, x2, b = c.array("x1", (n1, m)), c.array("x2", (n2, m)), c.array("b", (nb,))
    f = c.dsp.Filter.from_ba(c.snap(b), c.arr((1,), lambda i: 1.0), 100)
    zs = c.array("zi", (nb - 1, m), lo=-1, hi=1)
    f.zi = [c.snap(zs[:, ch]) for ch in range(m)]
    o1 = f.filter_signal(c.dsp.Signal(None, c.snap(x1), 100), activate_zi=True)
    o2 = f.filter_signal(c.dsp.Signal(None, c.snap(x2), 100), activate_zi=True)

    def part(x, n, i, ch):
        return c.sum(nb, lambda q: c.where(c.and_(i - q >= 0, i - q < n), b[q] * x[c.min(c.max(i - q, 0), n - 1), ch], 0.0))

    def full(i, ch):
        """sample i of the convolution of both blocks in sequence, plus what was pending before"""
        return part(x1, n1, i, ch) + part(x2, n2, i - n1, ch) + c.where(i < nb - 1, zs[c.max(c.min(i, nb - 2), 0), ch], 0.0)
    c.forall("first block", (n1, m), lambda i, ch: (o1.time_data[i, ch], full(i, ch)))
    c.forall("second block", (n2, m), lambda i, ch: (o2.time_data[i, ch], full(n1 + i, ch)))
    for ch in range(m):
        c.forall("state afterwards", (nb - 1,), lambda i: (f.zi[ch][i], full(n1 + n2 + i, ch)))


@contract("F07", ["classes.filter:Filter.filter_signal", "classes.filter:Filter.initialize_zi"], bounded="up to three channels")
def state_starts_steady(c):
    """the first call with state starts every channel from the steady state of the filter"""
    m = c.choice("m", [1, 3])
    s, x, n, m, fs = signal(c, lo_n=4, m=m, fs=50)
    f, (kind, p, q) = make_filter(c, fs, ("iir", "sos"))
    out = f.filter_signal(s, activate_zi=True)
    if kind == "sos":
        z0 = c.sci.sosfilt_zi(p)
        z = c.arr((p.shape[0], 2, m), lambda i, j, ch: z0[i, j])
        y, z1 = c.sci.sosfilt(p, x, axis=0, zi=z)
    else:
        z0 = c.sci.lfilter_zi(p, q)
        z = c.arr((z0.shape[0], m), lambda i, ch: z0[i])
        y, z1 = c.sci.lfilter(p, q, x, axis=0, zi=z)
    c.eq("block", out.time_data, y)
    c.ensure("one state per channel", len(f.zi) == m)


@contract("F07", ["classes.filter:Filter.filter_signal"])
def rejects(c):
    s, x, n, m, fs = signal(c, lo_n=60)
    f, spec = make_filter(c, fs + 1)
    c.raises("another sampling rate", AssertionError, lambda: f.filter_signal(s))
    g, spec = make_filter(c, fs, name="g")
    c.raises("state with zero phase", AssertionError, lambda: g.filter_signal(s, activate_zi=True, zero_phase=True))


# ------------------------------------------------------------------ F06 filter banks
FB = "classes.filterbank:FilterBank."


def bank(c, fs, k, kinds=("fir", "iir", "sos")):
    fs_, specs = [], []
    for j in range(k):
        f, sp = make_filter(c, fs, kinds, name=f"f{j}")
        fs_.append(f)
        specs.append(sp)
    return c.dsp.FilterBank(fs_), specs


def modes(c):
    M = c.dsp.FilterBankMode
    return M.Parallel, M.Sequential, M.Summed


BANK = [FB + "filter_signal", FH + "_filterbank_on_signal"]
TWO = "two filters per bank (any coefficients, any signal)"


@contract("F06", BANK, bounded=TWO)
def bank_parallel(c):
    s, x, n, m, fs = signal(c, lo_n=4, fs=64)
    fb, sp = bank(c, fs, 2, ("iir", "sos"))
    out = fb.filter_signal(s, modes(c)[0])
    c.ensure("bands", out.number_of_bands == 2)
    for j in range(2):
        c.eq("band is its filter's output", out.bands[j].time_data, response(c, sp[j], x))


@contract("F06", BANK, bounded=TWO)
def bank_sequential(c):
    s, x, n, m, fs = signal(c, lo_n=4, fs=64)
    fb, sp = bank(c, fs, 2, ("iir", "sos"))
    out = fb.filter_signal(s, modes(c)[1])
    c.eq("cascade in order", out.time_data, response(c, sp[1], c.snap(response(c, sp[0], x))))


@contract("F06", BANK, bounded=TWO)
def bank_summed(c):
    s, x, n, m, fs = signal(c, lo_n=4, fs=64)
    fb, sp = bank(c, fs, 2, ("iir", "sos"))
    out = fb.filter_signal(s, modes(c)[2])
    a, b = response(c, sp[0], x), response(c, sp[1], x)
    c.shape("shape", out.time_data, (n, m))
    c.forall("sum of the parallel outputs", (n, m), lambda i, ch: (out.time_data[i, ch], a[i, ch] + b[i, ch]))


@contract("F06", BANK, bounded=TWO)
def bank_fir(c):
    """the same three modes for filters without feedback"""
    s, x, n, m, fs = signal(c, lo_n=4, fs=64)
    fb, sp = bank(c, fs, 2, ("fir",))
    a, b = response(c, sp[0], x), response(c, sp[1], x)
    P, Q, S = modes(c)
    par = fb.filter_signal(s, P)
    c.eq("parallel 0", par.bands[0].time_data, a)
    c.eq("parallel 1", par.bands[1].time_data, b)
    summed = fb.filter_signal(s, S)
    c.forall("summed", (n, m), lambda i, ch: (summed.time_data[i, ch], a[i, ch] + b[i, ch]))


@contract("F06", BANK, bounded=TWO)
def bank_sequential_fir(c):
    s, x, n, m, fs = signal(c, lo_n=4, fs=64)
    fb, sp = bank(c, fs, 2, ("fir",))
    seq = fb.filter_signal(s, modes(c)[1])
    c.eq("cascade in order", seq.time_data, fb.filters[1].filter_signal(fb.filters[0].filter_signal(s)).time_data)


@contract("F06", BANK, bounded=TWO)
def bank_summed_complex(c):
    n, m = c.dim("n", 4), c.dim("m", 1, typ=(1, 3))
    c.requires(m <= n)
    x, y = c.array("x", (n, m)), c.array("y", (n, m))
    s = c.dsp.Signal(None, c.snap(x) + 1j * c.snap(y), 64)
    fb, sp = bank(c, 64, 2, ("iir", "sos"))
    out = fb.filter_signal(s, modes(c)[2])
    c.forall("real part", (n, m), lambda i, ch: (out.time_data[i, ch], response(c, sp[0], x)[i, ch] + response(c, sp[1], x)[i, ch]))
    c.forall("imaginary part", (n, m), lambda i, ch: (out.time_data_imaginary[i, ch], response(c, sp[0], y)[i, ch] + response(c, sp[1], y)[i, ch]))


@contract("F06", BANK, bounded=TWO)
def bank_zero_phase(c):
    s, x, n, m, fs = signal(c, lo_n=60, fs=64)
    fb, sp = bank(c, fs, 2, ("iir", "sos"))
    for p in sp:
        if p[0] != "sos":
            c.requires(n > 3 * c.max(p[1].shape[0], p[2].shape[0]))
    P, Q, S = modes(c)
    a, b = response(c, sp[0], x, True), response(c, sp[1], x, True)
    par = fb.filter_signal(s, P, zero_phase=True)
    c.eq("parallel 0", par.bands[0].time_data, a)
    c.eq("parallel 1", par.bands[1].time_data, b)
    summed = fb.filter_signal(s, S, zero_phase=True)
    c.forall("summed", (n, m), lambda i, ch: (summed.time_data[i, ch], a[i, ch] + b[i, ch]))
    seq = fb.filter_signal(s, Q, zero_phase=True)
    c.eq("sequential", seq.time_data, response(c, sp[1], c.snap(a), True))


@contract("F06", [FB + "add_filter", FB + "remove_filter", FB + "swap_filters", FB + "__init__"], bounded="three filters")
def bank_editing(c):
    F = c.dsp.Filter
    taps = [c.array(f"b{k}", (2,)) for k in range(4)]
    fl = [F.from_ba(c.snap(t), c.arr((1,), lambda i: 1.0), 64) for t in taps]
    fb = c.dsp.FilterBank(list(fl[:3]))

    def check(label, order):
        c.ensure(label + " count", fb.number_of_filters == len(order))
        c.ensure(label + " members", all(fb.filters[i] is fl[k] for i, k in enumerate(order)))
    check("built", [0, 1, 2])
    op = c.choice("op", ["append", "insert", "remove last", "remove", "swap"])
    if op == "append":
        fb.add_filter(fl[3])
        check(op, [0, 1, 2, 3])
    elif op == "insert":
        k = c.choice("position", [0, 1, 2])
        fb.add_filter(fl[3], k)
        check(op, [0, 1, 2][:k] + [3] + [0, 1, 2][k:])
    elif op == "remove last":
        fb.remove_filter(-1)
        check(op, [0, 1])
    elif op == "remove":
        k = c.choice("position", [0, 1, 2])
        fb.remove_filter(k)
        check(op, [i for i in range(3) if i != k])
    else:
        o = c.choice("order", [[2, 0, 1], [1, 0, 2], [0, 2, 1]])
        fb.swap_filters(o)
        check(op, o)
    c.eq("rate", fb.sampling_rate_hz, 64)


@contract("F06", [FB + "get_transfer_function", "classes.filter:Filter.get_transfer_function"], bounded="two filters per bank (any coefficients, any frequency grid)")
def bank_transfer_function(c):
    fs = 64
    fb, sp = bank(c, fs, 2)
    k = c.dim("k", 1)
    f = c.array("f", (k,), lo=0.0, hi=32.0)
    hs = [c.sci.sosfreqz(p, f, fs=fs)[1] if kind == "sos" else c.sci.freqz(p, q, f, fs=fs)[1] for kind, p, q in sp]
    P, Q, S = modes(c)
    par = fb.get_transfer_function(c.snap(f), P)
    c.shape("parallel shape", par, (k, 2))
    for j in range(2):
        c.forall("parallel", (k,), lambda i: (par[i, j], hs[j][i]))
    seq, summed = fb.get_transfer_function(c.snap(f), Q), fb.get_transfer_function(c.snap(f), S)
    c.forall("sequential", (k,), lambda i: (seq[i], hs[0][i] * hs[1][i]))
    c.forall("summed", (k,), lambda i: (summed[i], hs[0][i] + hs[1][i]))


@contract("F06", [FB + "filter_signal", FH + "_filterbank_on_signal"], bounded="two filters, up to two channels")
def bank_keeps_states(c):
    """each filter of the bank keeps its own state between blocks"""
    m = c.choice("m", [1, 2])
    n = c.dim("n", 4)
    x1, x2 = c.array("x1", (n, m)), c.array("x2", (n, m))
    fb, sp = bank(c, 64, 2, ("iir", "sos"))
    ref = [f.copy() for f in fb.filters]
    for x in (x1, x2):
        out = fb.filter_signal(c.dsp.Signal(None, c.snap(x), 64), modes(c)[0], activate_zi=True)
        for j in range(2):
            y = ref[j].filter_signal(c.dsp.Signal(None, c.snap(x), 64), activate_zi=True)
            c.eq("block", out.bands[j].time_data, y.time_data)
