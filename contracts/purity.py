"""C06: operations leave their arguments alone and return independent objects"""
from ._h import contract, signal, multiband

G = "standard.gain_and_level:"
PT = "standard.pad_trim_methods:"


def state(c, s):
    """everything observable about a signal, snapshotted"""
    out = {"samples": c.snap(s.time_data), "rate": s.sampling_rate_hz, "constrain": s.constrain_amplitude, "factor": c.snap(s.amplitude_scale_factor),
           "spectrum settings": dict(s._spectrum_parameters), "spectrogram settings": dict(s._spectrogram_parameters), "is complex": s.is_complex_signal}
    if s.is_complex_signal:
        out["imaginary"] = c.snap(s.time_data_imaginary)
    return out


def same(c, label, s, st):
    for k, v in state(c, s).items():
        if k in ("samples", "imaginary", "factor"):
            c.unchanged(f"{label} {k}", v, st[k])
        else:
            c.ensure(f"{label} {k}", v == st[k])


def scribble(c, out):
    """overwrite everything reachable in a result in place"""
    for o in (out.bands if hasattr(out, "bands") else [out]):
        td = o.time_data
        td[...] = td + 1.0
        o._spectrum_parameters["smoothing"] = 77
        o._spectrogram_parameters["window_length_samples"] = 77


def check(c, s, op):
    st = state(c, s)
    out = op(s)
    same(c, "argument", s, st)
    if out is not None:
        c.ensure("new object", out is not s)
        scribble(c, out)
        same(c, "argument after changing the result", s, st)
    return out


SIMPLE = {
    "gain": lambda c, s: c.dsp.apply_gain(s, c.real("g", -20, 20)),
    "normalize peak": lambda c, s: c.dsp.normalize(s, c.real("g", -20, 0)),
    "normalize rms": lambda c, s: c.dsp.normalize(s, c.real("g", -20, 0), False),
    "normalize each": lambda c, s: c.dsp.normalize(s, c.real("g", -20, 0), True, True),
    "pad": lambda c, s: c.dsp.pad_trim(s, s.length_samples + c.int("k", 1, typ=(1, 5)), c.bool("end")),
    "same length": lambda c, s: c.dsp.pad_trim(s, s.length_samples, c.bool("end")),
    "delay": lambda c, s: c.dsp.delay(s, c.int("k", 0, typ=(0, 5))),
    "delay channel": lambda c, s: c.dsp.delay(s, c.int("k", 0, typ=(0, 5)), [0]),
    "copy": lambda c, s: s.copy(),
    "sum": lambda c, s: s.sum_channels() if hasattr(s, "sum_channels") else None,
}


def audible(c, s, x, n, m):
    c.requires(c.all_(m, lambda ch: c.maxof(n, lambda i: abs(x[i, ch])) > 0.001))


@contract("C06", [G + "apply_gain", G + "normalize", "standard.latency_delay:delay", PT + "pad_trim", "classes.signal:Signal.copy",
                  "classes.signal:Signal.copy_with_new_time_data", "classes.signal:Signal.sum_channels"], sym_timeout=400, max_paths=2000)
def signal_operations(c):
    name = c.choice("op", list(SIMPLE))
    s, x, n, m, fs = signal(c, lo=-0.9, hi=0.9)
    if name.startswith("normalize"):
        audible(c, s, x, n, m)
    check(c, s, lambda s: SIMPLE[name](c, s))


@contract("C06", [G + "fade", "helpers.gain_and_level:_fade"])
def fades(c):
    E = c.dsp.standard.enums
    s, x, n, m, fs = signal(c, lo_n=6, fs=8)
    k = c.choice("type", [E.FadeType.Linear, E.FadeType.Exponential, E.FadeType.Logarithmic])
    a, b = c.bool("start"), c.bool("end")
    c.requires(c.or_(a, b))
    check(c, s, lambda s: c.dsp.fade(s, k, 0.25, a, b))


@contract("C06", [PT + "modify_signal_length", PT + "trim_with_time_selection"])
def window_selection(c):
    s, x, n, m, fs = signal(c, lo_n=6, fs=10, maxch=2)
    if c.bool("modify"):
        check(c, s, lambda s: c.dsp.modify_signal_length(s, -0.1, 0.1))
    else:
        check(c, s, lambda s: c.dsp.trim_with_time_selection(s, 0.1, (n - 1) / fs))


@contract("C06", [PT + "trim_with_level_threshold"])
def level_trim(c):
    s, x, n, m, fs = signal(c, lo_n=4, lo=-0.9, hi=0.9)
    c.requires(c.maxof(n, lambda i: c.maxof(m, lambda ch: abs(x[i, ch]))) > 0.5)
    a, b = c.bool("start"), c.bool("end")
    c.requires(c.or_(a, b))
    st = state(c, s)
    try:
        out = c.dsp.trim_with_level_threshold(s, -30.0, a, b)[0]
    except ValueError:
        out = None
    same(c, "argument", s, st)
    if out is not None:
        scribble(c, out)
        same(c, "argument after changing the result", s, st)


@contract("C06", ["standard.appending:append_signals"], bounded="two signals")
def append(c):
    s, x, n, m, fs = signal(c)
    y = c.array("y", (n, m))
    t = c.dsp.Signal(None, c.snap(y), fs)
    lst = [s, t]
    a, b = state(c, s), state(c, t)
    out = c.dsp.append_signals(lst)
    c.ensure("list kept", len(lst) == 2 and lst[0] is s and lst[1] is t)
    same(c, "first", s, a)
    same(c, "second", t, b)
    scribble(c, out)
    same(c, "first after changing the result", s, a)
    same(c, "second after changing the result", t, b)


@contract("C06", [G + "rms", G + "crest_factor", G + "true_peak_level"])
def meters(c):
    what = c.choice("what", ["rms", "crest", "peak"])
    s, x, n, m, fs = signal(c, fs=48000 if what == "peak" else None)
    audible(c, s, x, n, m)
    st = state(c, s)
    out = {"rms": c.dsp.rms, "crest": c.dsp.crest_factor, "peak": c.dsp.true_peak_level}[what](s)
    same(c, "argument", s, st)


@contract("C06", [G + "lufs_integrated"], sym=False, trials=12)
def loudness(c):
    n = c.dim("n", 400, typ=(400, 700))
    x = c.array("x", (n, 2), lo=-0.9, hi=0.9)
    con = c.bool("constrain")
    s = c.dsp.Signal(None, c.snap(x) * (3.0 if c.bool("loud") else 1.0), 1000 * 4, constrain_amplitude=con)
    s = c.dsp.pad_trim(s, 1650)
    st = state(c, s)
    c.dsp.lufs_integrated(s)
    same(c, "argument", s, st)


@contract("C06", [G + "apply_gain", G + "normalize", "standard.latency_delay:delay", PT + "pad_trim", "classes.multibandsignal:MultiBandSignal.copy", "classes.multibandsignal:MultiBandSignal.collapse"],
          bounded="two bands", sym_timeout=400, max_paths=2000)
def multiband_operations(c):
    name = c.choice("op", ["gain", "delay", "pad", "copy", "collapse"])
    mb, xs, n, m, fs = multiband(c, 2)
    st = [state(c, b) for b in mb.bands]
    out = {"gain": lambda: c.dsp.apply_gain(mb, c.real("g", -20, 20)), "delay": lambda: c.dsp.delay(mb, c.int("k", 0, typ=(0, 5))),
           "pad": lambda: c.dsp.pad_trim(mb, n + c.int("k", 0, typ=(0, 5))), "copy": lambda: mb.copy(), "collapse": lambda: mb.collapse()}[name]()
    c.ensure("new object", out is not mb)
    c.ensure("bands", len(mb.bands) == 2)
    for k in range(2):
        same(c, "band", mb.bands[k], st[k])
    scribble(c, out)
    if hasattr(out, "bands"):
        out.bands.clear()
    c.ensure("bands after changing the result", len(mb.bands) == 2)
    for k in range(2):
        same(c, "band after changing the result", mb.bands[k], st[k])


F = "classes.filter:Filter."


def coefficients(c, name="f"):
    nb, na = c.dim(name + "_nb", 1), c.dim(name + "_na", 2)
    b, raw = c.array(name + "_b", (nb,), lo=-0.5, hi=0.5), c.array(name + "_a", (na,), lo=-0.1, hi=0.1)
    c.requires(raw[na - 1] != 0.0)
    return b, c.arr((na,), lambda i: c.where(i == 0, 1.0, raw[i]))


@contract("C06", [F + "filter_signal", F + "copy", "classes.filter_helpers:_filter_on_signal_ba", "classes.filter_helpers:_filter_on_signal"])
def filtering(c):
    kind = c.choice("kind", ["fir", "iir", "sos"])
    s, x, n, m, fs = signal(c)
    c.requires(m <= 3)
    if kind == "sos":
        ns = c.choice("sections", [1, 2])
        co = c.array("sos", (ns, 6), lo=-0.3, hi=0.3)
        sos = c.arr((ns, 6), lambda i, j: c.where(j == 3, 1.0, co[i, j]))
        f = c.dsp.Filter.from_sos(c.snap(sos), fs)
        get = lambda: [f.sos]
    else:
        b, a = coefficients(c)
        f = c.dsp.Filter.from_ba(c.snap(b), c.snap(a) if kind == "iir" else [1.0], fs)
        get = lambda: list(f.ba)
    co0 = [c.snap(k) for k in get()]
    ch = c.choice("channels", [None, 0])
    check(c, s, lambda s: f.filter_signal(s, ch))
    for p, q in zip(get(), co0):
        c.unchanged("coefficients", p, q)
    g = f.copy()
    c.ensure("filter copy", g is not f)
    for p, q in zip(([g.sos] if kind == "sos" else g.ba), co0):
        c.eq("copied coefficients", p, q)
        p[...] = p + 1.0
    for p, q in zip(get(), co0):
        c.unchanged("coefficients after changing the copy", p, q)


@contract("C06", [F + "from_ba", F + "ba", F + "get_coefficients", F + "get_ir"])
def filter_coefficients(c):
    b, a = coefficients(c)
    g = c.real("a0", 0.5, 2.0)
    one = c.bool("fir")
    a = c.arr((1,), lambda i: g) if one else a
    b0, a0 = c.snap(b), c.snap(a)
    f = c.dsp.Filter.from_ba(b, a, 100)
    if one:
        f.get_ir(b.shape[0] + 2)
    out = f.get_coefficients(c.dsp.FilterCoefficientsType.Ba)
    c.unchanged("numerator", b, b0)
    c.unchanged("denominator", a, a0)
    for o in out:
        o[...] = o + 1.0
    n0, n1 = f.get_coefficients(c.dsp.FilterCoefficientsType.Ba)
    c.eq("stored numerator", n0, b0 / g if one else b0)
    c.eq("stored denominator", n1, a0 / g if one else a0)


TF = "transfer_functions.transfer_functions:"


@contract("C06", [TF + "window_ir", TF + "window_centered_ir", TF + "ir_to_filter", TF + "average_irs"])
def ir_operations(c):
    name = c.choice("op", ["to filter", "average", "mid side", "hilbert"])
    s, x, n, m, fs = signal(c, cls="ImpulseResponse", lo=-0.9, hi=0.9)
    tf, tr = c.dsp.transfer_functions, c.dsp.transforms
    if name == "mid side":
        c.requires(m == 2)
    if name == "average":
        c.requires(m >= 2)
    op = {"to filter": lambda s: tf.ir_to_filter(s, 0), "average": lambda s: tf.average_irs(s, False), "mid side": lambda s: tr.stereo_mid_side(s, c.bool("forward")), "hilbert": lambda s: tr.hilbert(s)}[name]
    st = state(c, s)
    out = op(s)
    same(c, "argument", s, st)
    if name == "to filter":
        b = out.ba[0]
        b[...] = b + 1.0
    else:
        scribble(c, out)
    same(c, "argument after changing the result", s, st)


@contract("C06", [TF + "harmonic_distortion_analysis"], sym=False, trials=6)
def harmonic_distortion_keeps_irs(c):
    n = c.dim("n", 60, 200)
    x = [c.array(f"x{k}", (n, 1), lo=-0.9, hi=0.9) for k in range(3)]
    irs = [c.dsp.ImpulseResponse(None, c.snap(v), 1000) for v in x]
    lst = list(irs)
    st = [state(c, i) for i in irs]
    c.dsp.transfer_functions.harmonic_distortion_analysis(lst)
    c.ensure("list", len(lst) == 3 and all(a is b for a, b in zip(lst, irs)))
    for i, t in zip(irs, st):
        same(c, "impulse response", i, t)


HG = "helpers.gain_and_level:"


@contract("C06", [HG + "_normalize", HG + "_rms", HG + "_amplify_db", HG + "to_db", HG + "from_db", "helpers.other:_pad_trim"])
def array_helpers(c):
    what = c.choice("what", ["to_db", "from_db", "rms", "normalize", "amplify", "pad", "same"])
    n, m = c.dim("n", 2), c.dim("m", 1, typ=(1, 3))
    x = c.array("x", (n, m), lo=0.01, hi=0.9)
    x0 = c.snap(x)
    H = c.dsp.helpers.gain_and_level
    P = c.dsp.helpers.other._pad_trim
    out = {"to_db": lambda: H.to_db(x, True), "from_db": lambda: H.from_db(x, True), "rms": lambda: H._rms(x), "normalize": lambda: H._normalize(x, -3.0, c.bool("peak"), c.bool("each")),
           "amplify": lambda: H._amplify_db(x, 3.0), "pad": lambda: P(x, n + 1), "same": lambda: P(x, n)}[what]()
    c.unchanged("array", x, x0)
    if what != "same":
        out[...] = out + 1.0
        c.unchanged("array after changing the result", x, x0)


def _rest(c):
    d = c.dsp
    tf, tr, E, ds = d.transfer_functions, d.transforms, d.standard.enums, d.distances
    f2 = lambda f: (lambda s, t: f(s, t))
    fr = [100.0, 1800.0]
    return {
        "fractional delay": lambda s, t: d.fractional_delay(s, 0.0103), "fractional delay channel": lambda s, t: d.fractional_delay(s, 0.0103, [1], True),
        "latency": lambda s, t: d.latency(s, t), "latency channels": lambda s, t: d.latency(s), "resample": lambda s, t: d.resample(s, 2000), "resample same": lambda s, t: d.resample(s, 4000),
        "detrend": lambda s, t: d.detrend(s, 2), "envelope": lambda s, t: d.envelope(s), "dither": lambda s, t: d.dither(s), "activity": lambda s, t: d.activity_detector(s.get_channels(0)),
        "deconvolve": lambda s, t: tf.spectral_deconvolve(s, t, threshold_db=-30.0), "transfer function": lambda s, t: tf.compute_transfer_function(s, t, 64, tf.TransferFunctionType.H1),
        "transfer function H3": lambda s, t: tf.compute_transfer_function(s, t, 64, tf.TransferFunctionType.H3), "cepstrum": lambda s, t: tr.cepstrum(s), "laguerre": lambda s, t: tr.laguerre(s, 0.3),
        "lpc": lambda s, t: tr.lpc(s, 5, 64), "dft": lambda s, t: tr.dft(s, c.np.array([100.0, 200.0])), "log spectral": lambda s, t: ds.log_spectral(s, t, f_range_hz=fr), "itakura": lambda s, t: ds.itakura_saito(s, t, f_range_hz=fr),
        "snr": lambda s, t: ds.snr(s, t), "si sdr": lambda s, t: ds.si_sdr(s, t), "mel": lambda s, t: tr.log_mel_spectrogram(s, generate_plot=False, range_hz=fr, n_bands=4, stft_parameters={"window_length_samples": 128}),
        "mfcc": lambda s, t: tr.mfcc(s, generate_plot=False, stft_parameters={"window_length_samples": 128}), "spectrum": lambda s, t: s.get_spectrum(), "csm": lambda s, t: s.get_csm(), "spectrogram": lambda s, t: s.get_spectrogram(),
    }


def _rest_ir(c):
    d = c.dsp
    tf, tr = d.transfer_functions, d.transforms
    return {
        "window": lambda s: tf.window_ir(s, 300), "window centered": lambda s: tf.window_centered_ir(s, 300), "average time": lambda s: tf.average_irs(s, True), "min phase": lambda s: tf.min_phase_ir(s),
        "group delay": lambda s: tf.group_delay(s), "minimum group delay": lambda s: tf.minimum_group_delay(s), "excess group delay": lambda s: tf.excess_group_delay(s), "minimum phase": lambda s: tf.minimum_phase(s),
        "frequency dependent window": lambda s: tf.window_frequency_dependent(s, 5), "dirac": lambda s: tf.combine_ir_with_dirac(s, 500, True), "latency": lambda s: tf.find_ir_latency(s),
        "trim": lambda s: tf.trim_ir(s.get_channels(0)), "smoothing": lambda s: tf.complex_smoothing(s, 3, tf.SmoothingDomain.RealImaginary), "warp": lambda s: tr.warp(s, 0.3, True), "start": lambda s: d.room_acoustics.find_ir_start(s),
        "harmonics": lambda s: tf.harmonics_from_chirp_ir(s.get_channels(0), [20, 1800], 0.1, 2), "spectral difference": lambda s: d.spectral_difference(s, s.copy()),
    }


@contract("C06", [TF + "compute_transfer_function", TF + "spectral_deconvolve", "standard.other:detrend", "standard.other:envelope", "transforms.transforms:laguerre"], sym=False, trials=300,
          note="not proved: arguments compared before and after on sampled inputs")
def further_signal_operations(c):
    ops = _rest(c)
    name = c.choice("op", sorted(ops))
    n = c.dim("n", 300, 500)
    s, t = [c.dsp.Signal(None, c.array(k, (n, 2), lo=-0.9, hi=0.9), 4000) for k in "xy"]
    s.set_spectrogram_parameters(window_length_samples=64)
    s.set_spectrum_parameters(window_length_samples=128)
    t.set_spectrum_parameters(window_length_samples=128)
    a, b = state(c, s), state(c, t)
    ops[name](s, t)
    same(c, "first argument", s, a)
    same(c, "second argument", t, b)


@contract("C06", [TF + "window_ir", TF + "window_centered_ir", TF + "min_phase_ir", TF + "group_delay", TF + "combine_ir_with_dirac", TF + "trim_ir"], sym=False, trials=250,
          note="not proved: arguments compared before and after on sampled inputs")
def further_ir_operations(c):
    ops = _rest_ir(c)
    name = c.choice("op", sorted(ops))
    n = c.dim("n", 500, 700)
    x = c.array("x", (n, 2), lo=-0.9, hi=0.9)
    w = c.np.exp(-c.np.arange(n) / 40.0)[:, None]
    td = x * w * 0.5
    td[60] = 0.9
    s = c.dsp.ImpulseResponse(None, td, 4000)
    a = state(c, s)
    ops[name](s)
    same(c, "argument", s, a)


FX = "effects.effects:"


@contract("C06", [FX + "Compressor.apply", FX + "Distortion.apply", FX + "Tremolo.apply", FX + "DigitalDelay.apply", FX + "Chorus.apply", FX + "SpectralSubtractor.apply"], sym=False, trials=100,
          note="not proved: arguments compared before and after on sampled inputs")
def effects(c):
    fx = c.dsp.effects
    mk = {"distortion": lambda: fx.Distortion(), "compressor": lambda: fx.Compressor(-20.0, 4.0), "delay": lambda: fx.DigitalDelay(0.01, 0.5), "tremolo": lambda: fx.Tremolo(0.5), "chorus": lambda: fx.Chorus()}
    name = c.choice("effect", sorted(mk))
    n = c.dim("n", 300, 600)
    s = c.dsp.Signal(None, c.array("x", (n, 2), lo=-0.9, hi=0.9), 4000)
    a = state(c, s)
    e = mk[name]()
    out = e.apply(s)
    same(c, "argument", s, a)
    scribble(c, out)
    same(c, "argument after changing the result", s, a)
