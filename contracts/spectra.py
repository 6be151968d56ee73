"""C05: Spectrum objects."""
from ._h import contract, signal

SP = "classes.spectrum:Spectrum."
MD = "classes._multichannel_data:MultichannelData."


def spectrum(c, kind, lo_n=2, maxch=None, name="d", fixed_spacing=True):
    """an arbitrary spectrum object: (spectrum, f, data, n bins, m channels)"""
    n = c.dim(name + "_n", lo_n)
    m = c.dim(name + "_ch", 1, maxch, typ=(1, 3))
    c.requires(m <= n)
    f = c.sorted(name + "_f", n, lo=0.0)
    if fixed_spacing:       # the classification of the spacing is irrelevant to what is asked here (stores_data runs the real one)
        E = c.dsp.standard.enums
        nm = "_Spectrum__check_frequency_vector_type"
        if c.symbolic and hasattr(c.dsp.Spectrum, nm):
            setattr(c.dsp.Spectrum, nm, staticmethod(lambda *a: E.FrequencySpacing.Other))
    d = c.array(name, (n, m), "c") if kind == "complex" else c.array(name, (n, m), "f", lo=0.0, hi=20.0 if not c.symbolic else None)
    return c.dsp.Spectrum(c.snap(f), c.snap(d)), f, d, n, m


def domains(c, kind, schemes=("Linear",), edges=("ZeroPad",), doms=("Power", "Magnitude", "Complex", "MagnitudePhase")):
    E = c.dsp.standard.enums
    dom = c.choice("domain", [x for x in doms if kind == "complex" or x in ("Power", "Magnitude")])
    sch = c.choice("scheme", list(schemes))
    edg = c.choice("edges", list(edges))
    return dom, sch, edg, (E.InterpolationDomain[dom], E.InterpolationScheme[sch], E.InterpolationEdgeHandling[edg])


@contract("C05", [SP + "__init__", SP + "spectral_data", SP + "frequency_vector_hz"])
def stores_data(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    form = c.choice("form", ["rows", "transposed", "single"])
    n = c.dim("n", 2)
    m = 1 if form == "single" else c.dim("ch", 1, typ=(1, 3))
    c.requires(m <= n if form != "transposed" else m < n)
    f = c.sorted("f", n, lo=0.0)
    d = c.array("d", (n, m), "c" if kind == "complex" else "f", lo=None if kind == "complex" else 0.0)
    given = c.snap(d)
    s = c.dsp.Spectrum(c.snap(f), given if form == "rows" else given.T if form == "transposed" else given[:, 0])
    c.eq("frequencies", s.frequency_vector_hz, f)
    c.eq("data", s.spectral_data, d)
    c.ensure("bins", s.number_frequency_bins == n)
    c.ensure("channels", s.number_of_channels == m)
    c.ensure("type", s.is_magnitude == (kind == "magnitude"))
    d2 = c.array("d2", (n, m), "c" if kind == "complex" else "f", lo=None if kind == "complex" else 0.0)
    s.spectral_data = c.snap(d2)
    c.eq("new data", s.spectral_data, d2)
    c.eq("frequencies kept", s.frequency_vector_hz, f)


def read_back(c, schemes, edges):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind)
    dom, sch, edg, P = domains(c, kind, schemes, edges)
    s.set_interpolator_parameters(*P)
    T = c.dsp.standard.enums.SpectrumType
    out = c.choice("out", ["Magnitude", "Power", "Db"] + (["Complex"] if kind == "complex" else []))
    got = s.get_interpolated_spectrum(c.snap(f), T[out])
    a = c.np.abs(d)
    if out == "Complex":
        c.eq("complex", got, d)
    elif out == "Magnitude":
        c.eq("magnitude", got, a)
    elif out == "Power":
        c.eq("power", got, a**2)
    else:
        w = c.dsp.tools.to_db(a**2, False) if dom == "Power" else c.dsp.tools.to_db(a, True)
        c.forall("decibel", [n, m], lambda i, j: (got[i, j], w[i, j]), when=lambda i, j: a[i, j] > 1e-9)
    c.unchanged("data", s.spectral_data, d)


@contract("C05", [SP + "get_interpolated_spectrum", SP + "set_interpolator_parameters"], sym_timeout=400)
def reads_back_linear(c):
    read_back(c, ("Linear",), ("ZeroPad", "Extend", "Error"))


@contract("C05", [SP + "get_interpolated_spectrum", SP + "set_interpolator_parameters"], sym_timeout=400)
def reads_back_splines(c):
    read_back(c, ("Cubic", "Pchip"), ("ZeroPad", "Extend"))


@contract("C05", [SP + "get_interpolated_spectrum"], sym_timeout=400)
def linear_on_the_chord(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind)
    dom, sch, edg, P = domains(c, kind, edges=("ZeroPad", "Extend"))
    s.set_interpolator_parameters(*P)
    k = c.int("k", 0)
    c.requires(k < n - 1)
    t = c.real("t", 0.0, 1.0, open=True)
    q = f[k] + t * (f[k + 1] - f[k])
    T = c.dsp.standard.enums.SpectrumType
    req = c.arr((1,), lambda i: q)

    def chord(v):
        return lambda j: v[k, j] + t * (v[k + 1, j] - v[k, j])
    a = c.np.abs(d)
    if dom == "Power":
        got = s.get_interpolated_spectrum(req, T.Power)
        c.forall("power", [m], lambda j: (got[0, j], chord(a**2)(j)))
    elif dom == "Magnitude":
        got = s.get_interpolated_spectrum(req, T.Magnitude)
        c.forall("magnitude", [m], lambda j: (got[0, j], chord(a)(j)))
    elif dom == "Complex":
        got = s.get_interpolated_spectrum(req, T.Complex)
        c.forall("complex", [m], lambda j: (got[0, j], chord(d)(j)))
    else:
        got = s.get_interpolated_spectrum(req, T.Complex)
        ph = c.np.unwrap(c.np.angle(d), axis=0)
        c.forall("magnitude and phase", [m], lambda j: (got[0, j], chord(a)(j) * c.np.exp(1j * chord(ph)(j))))
    c.shape("result", got, (1, m))


def edge(c, schemes):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind)
    dom, sch, edg, P = domains(c, kind, schemes, ("ZeroPad", "OnePad", "Extend", "Error"))
    s.set_interpolator_parameters(*P)
    side = c.choice("side", ["left", "right"])
    off = c.real("off", 0.01, 30.0)
    q = f[0] - off if side == "left" else f[n - 1] + off
    c.requires(q >= 0)
    req = c.arr((2,), lambda i: c.where(i == 0, q, f[1]))
    T = c.dsp.standard.enums.SpectrumType
    out = c.choice("out", ["Magnitude", "Power"] + (["Complex"] if kind == "complex" else []))
    if edg == "Error":
        c.raises("refused", AssertionError, lambda: s.get_interpolated_spectrum(req, T[out]))
        return
    got = s.get_interpolated_spectrum(req, T[out])
    if edg in ("ZeroPad", "OnePad"):
        v = 0.0 if edg == "ZeroPad" else 1.0
        c.forall("pad value", [m], lambda j: (got[0, j], v))
    else:
        e = 0 if side == "left" else n - 1
        a = c.np.abs(d)
        w = d if out == "Complex" else a if out == "Magnitude" else a**2
        c.forall("edge value", [m], lambda j: (got[0, j], w[e, j]))


@contract("C05", [SP + "get_interpolated_spectrum"], sym_timeout=400, max_paths=1200)
def edge_handling_linear(c):
    edge(c, ("Linear",))


@contract("C05", [SP + "get_interpolated_spectrum"], sym_timeout=400, max_paths=1200)
def edge_handling_splines(c):
    edge(c, ("Cubic", "Pchip"))


@contract("C05", [SP + "trim"])
def trim_keeps_range(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind, lo_n=4, maxch=2)
    lo, hi = c.int("lo", 0), c.int("hi", 1)
    c.requires(lo + 2 <= hi, hi < n, hi - lo + 1 >= 2)
    ends = c.choice("ends", ["both", "lower", "upper"])
    incl = c.bool("inclusive")
    fl = f[lo] if ends != "upper" else None
    fu = f[hi] if ends != "lower" else None
    a = lo if ends != "upper" else 0
    b = hi if ends != "lower" else n - 1
    if not incl:
        a = a + (1 if ends != "upper" else 0)
        b = b - (1 if ends != "lower" else 0)
    c.requires(b - a + 1 >= m, b - a >= 1)
    r = s.trim(fl, fu, incl)
    c.ensure("same object", r is s)
    c.eq("frequencies", s.frequency_vector_hz, f[a:b + 1])
    c.eq("data", s.spectral_data, d[a:b + 1])


@contract("C05", [SP + "trim"])
def trim_between_bins(c):
    """limits that fall between bins"""
    s, f, d, n, m = spectrum(c, "magnitude", lo_n=6, maxch=2)
    lo, hi = c.int("lo", 0), c.int("hi", 1)
    c.requires(lo + 3 <= hi, hi < n - 1)
    tl, tu = c.real("tl", 0.1, 0.9), c.real("tu", 0.1, 0.9)
    incl = c.bool("inclusive")
    fl = f[lo] + tl * (f[lo + 1] - f[lo])
    fu = f[hi] + tu * (f[hi + 1] - f[hi])
    s.trim(fl, fu, incl)
    g = s.frequency_vector_hz
    if incl:      # the range is covered
        a, b = lo, hi + 1
    else:         # only bins strictly inside
        a, b = lo + 1, hi
    c.eq("frequencies", g, f[a:b + 1])
    c.eq("data", s.spectral_data, d[a:b + 1])


@contract("C05", [MD + "get_channels", MD + "remove_channel", MD + "swap_channels", SP + "_create_copy_with_new_data"])
def channel_edits(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind, lo_n=3)
    c.requires(m >= 2)
    ch = c.int("ch", 0)
    c.requires(ch < m)
    op = c.choice("op", ["get", "remove", "remove_last", "get_two", "sum"])
    if op == "get":
        r = s.get_channels(ch)
        want = c.arr((n, 1), lambda i, j: d[i, ch])
    elif op == "get_two":
        ch2 = c.int("ch2", 0)
        c.requires(ch2 < m)
        r = s.get_channels([ch, ch2])
        want = c.arr((n, 2), lambda i, j: c.where(j == 0, d[i, ch], d[i, ch2]))
    elif op == "remove":
        r = s.remove_channel(ch)
        want = c.arr((n, m - 1), lambda i, j: d[i, c.where(j < ch, j, j + 1)])
    elif op == "remove_last":
        r = s.remove_channel()
        want = d[:, :m - 1]
    else:
        r = s.sum_channels(True)
        want = c.arr((n, 1), lambda i, j: c.np.sqrt(c.sum(m, lambda k: c.np.abs(d[i, k])**2)))
    c.eq("data", r.spectral_data, want)
    c.eq("frequencies", r.frequency_vector_hz, f)
    if op.startswith("remove"):
        c.ensure("in place", r is s)
    else:
        c.unchanged("argument", s.spectral_data, d)


@contract("C05", [SP + "sum_channels"])
def sum_of_channels(c):
    s, f, d, n, m = spectrum(c, c.choice("kind", ["complex", "magnitude"]))
    r = s.sum_channels(False)
    c.eq("data", r.spectral_data, c.arr((n, 1), lambda i, j: c.sum(m, lambda k: d[i, k])))
    c.eq("frequencies", r.frequency_vector_hz, f)


@contract("C05", [SP + "get_channels", SP + "remove_channel", SP + "swap_channels", SP + "trim"])
def coherence_follows_edits(c):
    s, f, d, n, m = spectrum(c, "complex", lo_n=5)
    c.requires(m >= 2)
    coh = c.array("coh", (n, m), "f", lo=0.0, hi=1.0)
    s.set_coherence(c.snap(coh))
    ch = c.int("ch", 0)
    c.requires(ch < m)
    op = c.choice("op", ["get", "remove", "swap", "trim"])
    if op == "get":
        r = s.get_channels([ch])
        pick = lambda v: c.arr((n, 1), lambda i, j: v[i, ch])
    elif op == "remove":
        r = s.remove_channel(ch)
        pick = lambda v: c.arr((n, m - 1), lambda i, j: v[i, c.where(j < ch, j, j + 1)])
    elif op == "swap":
        c.requires(m == 3)
        r = s.swap_channels([2, 0, 1])
        pick = lambda v: c.arr((n, 3), lambda i, j: v[i, c.where(j == 0, 2, j - 1)])
    else:
        lo = c.int("lo", 0)
        c.requires(lo <= n - m, lo < n - 1)
        r = s.trim(f[lo], None)
        pick = lambda v: v[lo:]
    c.eq("data", r.spectral_data, pick(d))
    c.eq("coherence", r.coherence, pick(coh))


@contract("C05", [SP + "from_signal", SP + "to_signal"])
def signal_round_trip(c):
    E = c.dsp.standard.enums
    x, xs, n, m, fs = signal(c, "x", lo_n=4, lo=-0.9, hi=0.9)
    c.requires(m <= n // 2 + 1)
    x.set_spectrum_parameters(E.SpectrumMethod.FFT, pad_to_fast_length=False, scaling=E.SpectrumScaling.FFTBackward)
    s = c.dsp.Spectrum.from_signal(x, True)
    c.eq("frequencies", s.frequency_vector_hz, x.get_spectrum()[0])
    c.eq("spectrum", s.spectral_data, x.get_spectrum()[1])
    dom = c.dsp.standard.enums.InterpolationDomain
    r = s.to_signal(fs)
    c.eq("samples", r.time_data, xs)
    c.ensure("rate", r.sampling_rate_hz == fs)


@contract("C05", [SP + "to_signal"], sym=False)
def to_signal_keeps_settings(c):
    s, f, d, n, m = spectrum(c, "complex")
    E = c.dsp.standard.enums
    s.set_interpolator_parameters(E.InterpolationDomain.Power, E.InterpolationScheme.Linear, E.InterpolationEdgeHandling.OnePad)
    c.requires(f[-1] < 1000)
    q = c.np.array([f[0] + 0.3 * (f[1] - f[0]), f[-1] + 1.0])
    before = s.get_interpolated_spectrum(q, E.SpectrumType.Power)
    s.to_signal(int(2 * f[-1]) + 7, 0.5)
    c.eq("interpolation", s.get_interpolated_spectrum(q, E.SpectrumType.Power), before)


@contract("C05", [SP + "apply_gain"])
def gain(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind)
    each = c.bool("each")
    if each:
        g = c.array("g", (m,), "f", lo=-40.0, hi=40.0)
        s.apply_gain(c.snap(g))
        want = c.arr((n, m), lambda i, j: d[i, j] * 10 ** (g[j] / 20))
    else:
        g = c.real("g", -40.0, 40.0)
        s.apply_gain(g)
        want = c.arr((n, m), lambda i, j: d[i, j] * 10 ** (g / 20))
    c.eq("data", s.spectral_data, want)
    c.eq("frequencies", s.frequency_vector_hz, f)


@contract("C05", [SP + "normalize"], sym_timeout=300)
def normalized_at_reference(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind)
    k = c.int("k", 0)
    c.requires(k < n)
    which = c.choice("reference", ["each", "one"])
    r = c.int("r", 0)
    c.requires(r < m)
    a = c.np.abs(d)
    if which == "each":
        c.requires(c.all_(m, lambda j: a[k, j] > 0.05))
    else:
        c.requires(a[k, r] > 0.05)
    s.normalize(f[k], None if which == "each" else r)
    c.forall("data", [n, m], lambda i, j: (s.spectral_data[i, j], d[i, j] / (a[k, j] if which == "each" else a[k, r])))
    c.eq("frequencies", s.frequency_vector_hz, f)


@contract("C05", ["standard.appending:append_spectra"], bounded="two spectra", sym_timeout=300)
def append_on_common_grid(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    n = c.dim("n", 4)
    m1, m2 = c.dim("m1", 1, typ=(1, 2)), c.dim("m2", 1, typ=(1, 2))
    c.requires(m1 + m2 <= n)
    f = c.sorted("f", n, lo=0.0)
    k = "c" if kind == "complex" else "f"
    lo = None if kind == "complex" else 0.0
    d1, d2 = c.array("d1", (n, m1), k, lo=lo), c.array("d2", (n, m2), k, lo=lo)
    s1, s2 = c.dsp.Spectrum(c.snap(f), c.snap(d1)), c.dsp.Spectrum(c.snap(f), c.snap(d2))
    r = c.dsp.append_spectra([s1, s2])
    c.eq("frequencies", r.frequency_vector_hz, f)
    c.eq("data", r.spectral_data, c.arr((n, m1 + m2), lambda i, j: c.where(j < m1, d1[i, c.where(j < m1, j, 0)], d2[i, c.where(j < m1, 0, j - m1)])))
    c.unchanged("first", s1.spectral_data, d1)
    c.unchanged("second", s2.spectral_data, d2)


@contract("C05", [SP + "resample"], sym_timeout=300)
def resample_own_grid(c):
    """resampling to a sub-grid of its own frequencies returns the stored values there"""
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind, lo_n=4, maxch=2)
    a, b = c.int("a", 0), c.int("b", 1)
    c.requires(a < b, b < n, b - a + 1 >= m)
    s.resample(f[a:b + 1])
    c.eq("frequencies", s.frequency_vector_hz, f[a:b + 1])
    c.eq("data", s.spectral_data, d[a:b + 1])


@contract("C05", [SP + "get_energy"])
def energy(c):
    kind = c.choice("kind", ["complex", "magnitude"])
    s, f, d, n, m = spectrum(c, kind, maxch=2)
    a = c.np.abs(d)
    got = s.get_energy()
    c.forall("trapezoid rule", [m], lambda j: (got[j], c.sum(n - 1, lambda k: (f[k + 1] - f[k]) * (a[k, j]**2 + a[k + 1, j]**2) / 2)))
