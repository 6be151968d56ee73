"""C01 storing samples, C02 channel edits, C04 multiband containers"""
from ._h import contract, signal, multiband

SI = "classes.signal:Signal."
MC = "classes._multichannel_data:MultichannelData."
MB = "classes.multibandsignal:MultiBandSignal."


def re_(c, x):
    return x.real if hasattr(x, "real") else x


def cplx(c, s):
    """the complex samples a signal holds, as (real, imaginary) accessors"""
    im = s.time_data_imaginary
    return (lambda i, k: s.time_data[i, k]), (lambda i, k: 0.0 if im is None else im[i, k])


def same(c, label, s, n, m, fn, kind):
    """signal s holds fn(i, ch) (complex when kind == 'c')"""
    c.shape(label + " shape", s.time_data, (n, m))
    c.ensure(label + " complexity", s.is_complex_signal == (kind == "c"))
    re, im = cplx(c, s)
    if kind == "c":
        c.forall(label + " real", (n, m), lambda i, k: (re(i, k), fn(i, k).real))
        c.forall(label + " imaginary", (n, m), lambda i, k: (im(i, k), fn(i, k).imag))
    else:
        c.forall(label, (n, m), lambda i, k: (re(i, k), fn(i, k)))


# ------------------------------------------------------------------ C01
@contract("C01", [SI + "__init__", SI + "time_data", "classes.impulse_response:ImpulseResponse.__init__"])
def construct(c):
    n, m = c.dim("n", 1), c.dim("m", 1, typ=(1, 4))
    c.requires(m <= n)
    kind = c.choice("kind", ["f", "c"])
    how = c.choice("how", ["columns", "rows", "1d"])
    cls = c.choice("class", ["Signal", "ImpulseResponse", "from_time_data", "IR.from_time_data"])
    setter = c.bool("setter")
    x = c.array("x", (n,) if how == "1d" else (n, m), kind)
    if how == "1d":
        c.requires(m == 1)
    if how == "rows":
        c.requires(m < n)
    x0 = c.snap(x)
    arg = x.T if how == "rows" else x
    D = c.dsp
    make = {"Signal": lambda a: D.Signal(None, a, 1000, constrain_amplitude=False),
            "ImpulseResponse": lambda a: D.ImpulseResponse(None, a, 1000, constrain_amplitude=False),
            "from_time_data": lambda a: D.Signal.from_time_data(a, 1000, False),
            "IR.from_time_data": lambda a: D.ImpulseResponse.from_time_data(a, 1000, False)}[cls]
    if setter:
        s = make(c.np.ones(4))
        s.time_data = arg
    else:
        s = make(arg)
    same(c, "samples", s, n, m, (lambda i, k: x0[i]) if how == "1d" else (lambda i, k: x0[i, k]), kind)
    c.eq("scale", s.amplitude_scale_factor, 1.0)
    c.ensure("rate", s.sampling_rate_hz == 1000)
    c.ensure("channels", s.number_of_channels == m)
    c.ensure("length", s.length_samples == n)
    c.eq("duration", s.length_seconds, n / 1000)


@contract("C01", [SI + "time_data", SI + "constrain_amplitude", "classes.impulse_response:ImpulseResponse.from_time_data"])
def constrain(c):
    n, m = c.dim("n", 1), c.dim("m", 1, typ=(1, 4))
    c.requires(m <= n)
    kind = c.choice("kind", ["f", "c"])
    how = c.choice("how", ["Signal", "setter", "activate", "IR", "IR.from_time_data", "copy_with"])
    x = c.array("x", (n, m), kind)
    x0 = c.snap(x)
    D = c.dsp
    if how == "Signal":
        s = D.Signal(None, x, 1000, constrain_amplitude=True)
    elif how == "IR":
        s = D.ImpulseResponse(None, x, 1000)
    elif how == "IR.from_time_data":
        s = D.ImpulseResponse.from_time_data(x, 1000, True)
    elif how == "setter":
        s = D.Signal(None, c.np.ones(4), 1000, constrain_amplitude=True)
        s.time_data = x
    elif how == "copy_with":
        s = D.Signal(None, c.np.ones(4), 1000, constrain_amplitude=True).copy_with_new_time_data(x)
    else:
        s = D.Signal(None, x, 1000, constrain_amplitude=False)
        s.constrain_amplitude = True
    if kind == "c":
        pk = c.max(c.maxof(n, lambda i: c.maxof(m, lambda k: abs(x0[i, k].real))), c.maxof(n, lambda i: c.maxof(m, lambda k: abs(x0[i, k].imag))))
    else:
        pk = c.maxof(n, lambda i: c.maxof(m, lambda k: abs(x0[i, k])))
    g = 1 / pk if c.case(pk > 1) else 1.0
    same(c, "scaled", s, n, m, lambda i, k: x0[i, k] * g, kind)
    c.eq("scale factor", s.amplitude_scale_factor, g)
    c.unchanged("argument", x, x0)


# ------------------------------------------------------------------ C02
def chan_sig(c, maxch=None, name="x", **kw):
    kind = c.choice("kind", ["f", "c"])
    cls = c.choice("class", ["Signal", "ImpulseResponse"])
    s, x, n, m, fs = signal(c, name, kind=kind, cls=cls, maxch=maxch, **kw)
    return s, c.snap(x), n, m, fs, kind, cls


def meta(c, s, fs, cls):
    c.ensure("rate", s.sampling_rate_hz == fs)
    c.ensure("class", type(s) is getattr(c.dsp, cls))


@contract("C02", [SI + "add_channel", MC + "number_of_channels"])
def add_channel(c):
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    n2, m2 = c.dim("n2", 2), c.dim("m2", 1, typ=(1, 3))
    c.requires(m + m2 <= n, m2 <= n2)
    k2 = c.choice("kind2", ["f", "c"])
    oned = c.bool("oned")
    if oned:
        c.requires(m2 == 1)
    y = c.array("y", (n2,) if oned else (n2, m2), k2)
    y0 = c.snap(y)
    r = s.add_channel(None, y, fs)
    c.ensure("returns itself", r is s)
    out = "c" if "c" in (kind, k2) else "f"

    def new(i, k):
        v = y0[c.min(i, n2 - 1)] if oned else y0[c.min(i, n2 - 1), c.max(k - m, 0)]
        return c.where(i < n2, v, 0.0 * v)
    if out == "f":
        same(c, "channels", s, n, m + m2, lambda i, k: c.where(k < m, x0[i, c.min(k, m - 1)], new(i, k)), out)
    else:
        re = lambda i, k: c.where(k < m, x0[i, c.min(k, m - 1)].real if kind == "c" else x0[i, c.min(k, m - 1)], new(i, k).real if k2 == "c" else new(i, k))
        im = lambda i, k: c.where(k < m, x0[i, c.min(k, m - 1)].imag if kind == "c" else 0.0, new(i, k).imag if k2 == "c" else 0.0)
        c.shape("shape", s.time_data, (n, m + m2))
        c.ensure("complex", s.is_complex_signal)
        c.forall("real", (n, m + m2), lambda i, k: (s.time_data[i, k], re(i, k)))
        c.forall("imaginary", (n, m + m2), lambda i, k: (s.time_data_imaginary[i, k], im(i, k)))
    meta(c, s, fs, cls)
    c.unchanged("argument", y, y0)


@contract("C02", [SI + "add_channel"])
def add_channel_strict(c):
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    n2 = c.dim("n2", 1)
    y = c.array("y", (n2,))
    fs2 = c.int("fs2", 1, 200000, typ=(8, 10))
    ok = c.case(c.and_(n2 == n, fs2 == fs))
    c.requires(m + 1 <= n)
    if ok:
        s.add_channel(None, y, fs2, False)
        same(c, "old channels", s.get_channels(c.np.arange(m)), n, m, lambda i, k: x0[i, k] if kind == "f" else x0[i, k], kind)
    else:
        c.raises("refused", (AssertionError, AttributeError), lambda: s.add_channel(None, y, fs2, False))
        same(c, "kept", s, n, m, lambda i, k: x0[i, k], kind)


@contract("C02", [MC + "remove_channel", SI + "_get_data", SI + "_set_data"])
def remove_channel(c):
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    q = c.int("q", -1, typ=(-1, 3))
    good = c.case(c.and_(q < m, m > 1))
    if good:
        s.remove_channel(q)
        p = c.where(q == -1, m - 1, q)
        same(c, "rest", s, n, m - 1, lambda i, k: x0[i, c.min(c.where(k < p, k, k + 1), m - 1)], kind)
        meta(c, s, fs, cls)
    else:
        c.raises("refused", AssertionError, lambda: s.remove_channel(q))
        same(c, "kept", s, n, m, lambda i, k: x0[i, k], kind)


@contract("C02", [MC + "get_channels", SI + "copy_with_new_time_data"])
def get_channels(c):
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    d = c.dim("d", 1, typ=(1, 4))
    c.requires(d <= n)
    idx = c.array("idx", (d,), "i", lo=0, hi=m - 1)
    out = s.get_channels(idx)
    same(c, "selected", out, n, d, lambda i, k: x0[i, idx[k]], kind)
    meta(c, out, fs, cls)
    same(c, "source", s, n, m, lambda i, k: x0[i, k], kind)


@contract("C02", [MC + "get_channels"])
def get_channel_scalar(c):
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    q = c.int("q", 0, typ=(0, 3))
    c.requires(q < m)
    out = s.get_channels(q)
    same(c, "selected", out, n, 1, lambda i, k: x0[i, q], kind)
    c.ensure("settings", c.and_(out.constrain_amplitude == s.constrain_amplitude, out.calibrated_signal == s.calibrated_signal,
                                out.activate_cache == s.activate_cache))


@contract("C02", [MC + "sum_channels"])
def sum_channels(c):
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    out = s.sum_channels()
    c.shape("one channel", out.time_data, (n, 1))
    c.ensure("complexity", out.is_complex_signal == (kind == "c"))
    if kind == "c":
        c.forall("real", (n,), lambda i: (out.time_data[i, 0], c.sum(m, lambda k: x0[i, k].real)))
        c.forall("imaginary", (n,), lambda i: (out.time_data_imaginary[i, 0], c.sum(m, lambda k: x0[i, k].imag)))
    else:
        c.forall("sum", (n,), lambda i: (out.time_data[i, 0], c.sum(m, lambda k: x0[i, k])))
    meta(c, out, fs, cls)
    same(c, "source", s, n, m, lambda i, k: x0[i, k], kind)


@contract("C02", [MC + "swap_channels"])
def swap_channels(c):
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    rev = c.bool("reverse")
    p = c.np.arange(m)
    p = p[::-1] if rev else (p + 1) % m
    s.swap_channels(p)
    q = (lambda k: m - 1 - k) if rev else (lambda k: c.where(k == m - 1, 0, k + 1))
    same(c, "order", s, n, m, lambda i, k: x0[i, q(k)], kind)
    meta(c, s, fs, cls)


@contract("C02", [MC + "swap_channels"])
def swap_channels_any(c):
    """any permutation is applied; an order with repeated entries is refused"""
    s, x0, n, m, fs, kind, cls = chan_sig(c)
    o = c.array("o", (m,), "i", lo=0, hi=m - 1)
    if c.case(c.np.unique(o).shape[0] == m):
        s.swap_channels(o)
        same(c, "order", s, n, m, lambda i, k: x0[i, o[k]], kind)
        meta(c, s, fs, cls)
    else:
        c.raises("refused", AssertionError, lambda: s.swap_channels(o))
        same(c, "kept", s, n, m, lambda i, k: x0[i, k], kind)


@contract("C02", ["standard.appending:append_signals", "helpers.other:_pad_trim"], bounded="two signals appended (lengths, channels and contents unbounded)")
def append_two(c):
    cls = c.choice("class", ["Signal", "ImpulseResponse"])
    k1, k2 = c.choice("k1", ["f", "c"]), c.choice("k2", ["f", "c"])
    at_end = c.bool("at_end")
    s1, x, n, m, fs = signal(c, "x", kind=k1, cls=cls)
    s2, y, n2, m2, _ = signal(c, "y", kind=k2, cls=cls, fs=fs)
    c.requires(m + m2 <= n)
    x0, y0 = c.snap(x), c.snap(y)
    out = c.dsp.append_signals([s1, s2], True, at_end)
    cx = "c" in (k1, k2)
    c.shape("shape", out.time_data, (n, m + m2))
    c.ensure("complexity", out.is_complex_signal == cx)
    part = lambda v, k, w: v if k == "f" and w == "r" else 0.0 if k == "f" else (v.real if w == "r" else v.imag)

    def second(i, k, w):
        j = i if at_end else i - (n - n2)
        v = y0[c.min(c.max(j, 0), n2 - 1), c.max(k - m, 0)]
        return c.where(c.and_(j >= 0, j < n2), part(v, k2, w), 0.0)
    spec = lambda w: lambda i, k: c.where(k < m, part(x0[i, c.min(k, m - 1)], k1, w), second(i, k, w))
    c.forall("real", (n, m + m2), lambda i, k: (out.time_data[i, k], spec("r")(i, k)))
    if cx:
        c.forall("imaginary", (n, m + m2), lambda i, k: (out.time_data_imaginary[i, k], spec("i")(i, k)))
    meta(c, out, fs, cls)
    same(c, "first", s1, n, m, lambda i, k: x0[i, k], k1)
    same(c, "second", s2, n2, m2, lambda i, k: y0[i, k], k2)


@contract("C02", ["standard.appending:append_signals"], bounded="two multiband signals with two bands")
def append_multiband(c):
    a, xs, n, m, fs = multiband(c, 2, name="a")
    ys_n, ys_m = c.dim("n2", 2), c.dim("m2", 1, typ=(1, 3))
    c.requires(ys_m <= ys_n, m + ys_m <= n)
    ys = [c.array(f"y{k}", (ys_n, ys_m)) for k in range(2)]
    b = c.dsp.MultiBandSignal([c.dsp.Signal(None, c.snap(y), fs) for y in ys])
    out = c.dsp.append_signals([a, b])
    c.ensure("bands", out.number_of_bands == 2)
    for q in range(2):
        t = out.bands[q].time_data
        c.shape(f"band {q}", t, (n, m + ys_m))
        c.forall(f"band {q} samples", (n, m + ys_m), lambda i, k: (t[i, k], c.where(
            k < m, xs[q][i, c.min(k, m - 1)], c.where(i < ys_n, ys[q][c.min(i, ys_n - 1), c.max(k - m, 0)], 0.0))))


# ------------------------------------------------------------------ C04
def mb_case(c, nb=3, same_rate=True):
    kind = c.choice("kind", ["f", "c"])
    mb, xs, n, m, fs = multiband(c, nb, kind)
    return mb, [c.snap(x) for x in xs], n, m, fs, kind


def bands_are(c, label, mb, xs, order, n, m, kind):
    c.ensure(label + " count", c.and_(mb.number_of_bands == len(order), len(mb) == len(order)))
    for q, src in enumerate(order):
        same(c, f"{label} {q}", mb.bands[q], n, m, lambda i, k: xs[src][i, k], kind)


@contract("C04", [MB + "collapse"], bounded="three bands (length, channels and contents unbounded)")
def collapse(c):
    mb, xs, n, m, fs, kind = mb_case(c)
    out = mb.collapse()
    same(c, "sum", out, n, m, lambda i, k: xs[0][i, k] + xs[1][i, k] + xs[2][i, k], kind)
    c.ensure("rate", out.sampling_rate_hz == fs)
    bands_are(c, "bands", mb, xs, [0, 1, 2], n, m, kind)


@contract("C04", [MB + "bands", MB + "number_of_bands", MB + "number_of_channels", MB + "length_samples", MB + "sampling_rate_hz"], bounded="three bands")
def reports(c):
    mb, xs, n, m, fs, kind = mb_case(c)
    c.ensure("bands", mb.number_of_bands == 3)
    c.ensure("channels", mb.number_of_channels == m)
    c.ensure("length", mb.length_samples == n)
    c.eq("duration", mb.length_seconds, n / fs)
    c.ensure("rate", mb.sampling_rate_hz == fs)
    c.ensure("complex", mb.is_complex_signal == (kind == "c"))


@contract("C04", [MB + "bands"], bounded="two bands")
def multirate(c):
    m = c.dim("m", 1, typ=(1, 3))
    ns = [c.dim(f"n{k}", 2) for k in range(2)]
    fss = [c.int(f"fs{k}", 1, 200000, typ=(8, 10)) for k in range(2)]
    c.requires(m <= ns[0], m <= ns[1])
    xs = [c.array(f"x{k}", (ns[k], m)) for k in range(2)]
    bands = [c.dsp.Signal(None, c.snap(xs[k]), fss[k]) for k in range(2)]
    mb = c.dsp.MultiBandSignal(bands, same_sampling_rate=False)
    c.ensure("rates", c.and_(mb.sampling_rate_hz[0] == fss[0], mb.sampling_rate_hz[1] == fss[1]))
    c.ensure("lengths", c.and_(mb.length_samples[0] == ns[0], mb.length_samples[1] == ns[1]))
    td = mb.get_all_time_data()
    for k in range(2):
        c.eq(f"band {k}", td[k][0], xs[k])
        c.ensure(f"rate {k}", td[k][1] == fss[k])
    equal = c.case(c.and_(ns[0] == ns[1], fss[0] == fss[1]))
    if not equal:
        c.raises("mixed bands are refused", AssertionError, lambda: c.dsp.MultiBandSignal(bands, same_sampling_rate=True))


@contract("C04", [MB + "add_band", MB + "remove_band", MB + "swap_bands"], bounded="three bands")
def band_edits(c):
    mb, xs, n, m, fs, kind = mb_case(c)
    y = c.array("y", (n, m), kind)
    s = c.dsp.Signal(None, c.snap(y), fs)
    op = c.choice("op", ["append", "insert0", "insert1", "remove_last", "remove0", "remove1", "pop1", "swap_rot", "swap_rev", "swap1"])
    al = xs + [y]
    if op == "append":
        mb.add_band(s)
        order = [0, 1, 2, 3]
    elif op == "insert0":
        mb.add_band(s, 0)
        order = [3, 0, 1, 2]
    elif op == "insert1":
        mb.add_band(s, 1)
        order = [0, 3, 1, 2]
    elif op == "remove_last":
        mb.remove_band()
        order = [0, 1]
    elif op == "remove0":
        mb.remove_band(0)
        order = [1, 2]
    elif op == "remove1":
        mb.remove_band(1)
        order = [0, 2]
    elif op == "pop1":
        b = mb.remove_band(1, True)
        same(c, "returned", b, n, m, lambda i, k: xs[1][i, k], kind)
        order = [0, 2]
    elif op == "swap_rot":
        mb.swap_bands([1, 2, 0])
        order = [1, 2, 0]
    elif op == "swap_rev":
        mb.swap_bands(c.np.array([2, 1, 0]))
        order = [2, 1, 0]
    else:
        mb.swap_bands([0, 2, 1])
        order = [0, 2, 1]
    bands_are(c, "bands", mb, al, order, n, m, kind)


@contract("C04", [MB + "add_band", MB + "bands"], bounded="two bands")
def inconsistent_band(c):
    mb, xs, n, m, fs = multiband(c, 2)
    n2, m2 = c.dim("n2", 2), c.dim("m2", 1, typ=(1, 3))
    c.requires(m2 <= n2)
    fs2 = c.int("fs2", 1, 200000, typ=(8, 10))
    k2 = c.choice("kind2", ["f", "c"])
    y = c.array("y", (n2, m2), k2)
    s = c.dsp.Signal(None, c.snap(y), fs2)
    fits = c.case(c.and_(n2 == n, m2 == m, fs2 == fs))
    if fits and k2 == "f":
        mb.add_band(s)
        c.ensure("added", mb.number_of_bands == 3)
    else:
        c.raises("refused", AssertionError, lambda: mb.add_band(s))
        c.ensure("count kept", mb.number_of_bands == 2)
        c.ensure("channels kept", mb.number_of_channels == m)
        c.ensure("length kept", mb.length_samples == n)
        c.ensure("rate kept", mb.sampling_rate_hz == fs)
        for q in range(2):
            same(c, f"band {q}", mb.bands[q], n, m, lambda i, k: xs[q][i, k], "f")


@contract("C04", [MB + "get_all_bands", MB + "get_all_time_data"], bounded="two bands")
def all_bands(c):
    kind = c.choice("kind", ["f", "c"])
    mb, xs, n, m, fs = multiband(c, 2, kind)
    q = c.int("q", 0, typ=(0, 2))
    c.requires(q < m)
    s = mb.get_all_bands(q)
    same(c, "channel", s, n, 2, lambda i, k: c.where(k == 0, xs[0][i, q], xs[1][i, q]), kind)
    td, r = mb.get_all_time_data()
    c.shape("stack", td, (n, 2, m))
    c.ensure("rate", r == fs)
    for b in range(2):
        c.forall(f"stack {b}", (n, m), lambda i, k: (td[i, b, k], xs[b][i, k]))
