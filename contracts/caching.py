"""C03: queries never return stale data.

Induction over histories: whatever caches an earlier part of the history left filled, they
hold what a fresh computation returned at that time (any subset of the three queries); after
any one operation, every query must equal the query of a fresh signal with the same samples
and settings.  The spectral kernels are put under the assumed contract "a function of the
values of their arguments"."""
from ._h import contract

SI = "classes.signal:Signal."

OPS = ["nothing", "time_data", "add_channel", "remove_channel", "swap_channels", "sampling_rate", "method", "scaling", "smoothing",
       "spectrum_parameters", "spectrogram_parameters", "activate_constrain", "cache_off", "force", "mutate_result"]


def kernels(c):
    F = lambda L: L // 2 + 1
    c.opaque("classes.signal:_welch", lambda a: [((F(a["window_length_samples"]), a["x"].shape[1]), "f")])
    c.opaque("classes.signal:_csm_welch", lambda a: [((F(a["window_length_samples"]),), "f"),
                                                     ((F(a["window_length_samples"]), a["time_data"].shape[1], a["time_data"].shape[1]), "c")])
    c.opaque("classes.signal:_csm_fft", lambda a: [((a["spectrum"].shape[0], a["spectrum"].shape[1], a["spectrum"].shape[1]), "c")])
    c.opaque("classes.signal:_stft", lambda a: [((7,), "f"), ((5,), "f"), ((5, 7, a["x"].shape[1]), "c")])
    c.opaque("classes.signal:_fractional_octave_smoothing", lambda a: [(a["vector"].shape, "f")])
    c.opaque("classes.signal:_scale_spectrum", lambda a: [(a["spectrum"].shape, "c")])
    c.opaque("classes.signal:_get_normalized_spectrum", lambda a: [(a["f"].shape, "f"), (a["spectra"].shape, "f")])
    c.opaque("classes.signal:_group_delay_direct", lambda a: [(a["phase"].shape, "f")])
    for m in ("signal", "impulse_response"):
        for p in ("general_plot", "general_subplots_line", "general_matrix_plot", "_csm_plot", "general_plot_two_axes"):
            try:
                c.stub(f"classes.{m}:{p}", lambda *a, **k: (None, [None, _Ax(), _Ax()]))
            except Exception:
                pass


class _Ax:
    def __getattr__(self, n):
        return lambda *a, **k: None


def close_plots(c):
    if not c.symbolic:
        import matplotlib.pyplot as plt
        plt.close("all")


def settings(c, name):
    E = c.dsp.standard.enums
    k = c.choice(name, ["welch", "fft", "fft_phys", "fft_smooth"])
    return dict(method=E.SpectrumMethod.WelchPeriodogram if k == "welch" else E.SpectrumMethod.FFT, window_length_samples=16,
                smoothing=3.0 if k == "fft_smooth" else 0, pad_to_fast_length=False,
                scaling=E.SpectrumScaling.AmplitudeSpectrum if k == "fft_phys" else E.SpectrumScaling.FFTBackward)


def query(s, which):
    return {"spectrum": s.get_spectrum, "csm": s.get_csm, "spectrogram": s.get_spectrogram}[which]()


def fill(s, pre):
    if pre == "all":
        for q in ("spectrum", "csm", "spectrogram"):
            query(s, q)
    elif pre != "none":
        query(s, pre)


def fresh_of(c, s, P, G, window=None):
    t = type(s)(None, c.snap(s.time_data), s.sampling_rate_hz, constrain_amplitude=False)
    t.set_spectrum_parameters(**P)
    t.set_spectrogram_parameters(**G)
    if window is not None:
        t.set_window(c.snap(window))
    return t


def agree(c, label, a, b):
    for j, (x, y) in enumerate(zip(a, b)):
        c.eq(f"{label} [{j}]", x, y)


def setup(c, cls, m=None):
    n = c.dim("n", 40, typ=(40, 80))
    m = c.dim("m", 3, typ=(3, 4)) if m is None else m
    c.requires(m <= n - 2)
    fs = c.int("fs", 100, 200000, typ=(1000, 2000))
    x = c.array("x", (n, m))
    s = getattr(c.dsp, cls)(None, c.snap(x), fs, constrain_amplitude=False, activate_cache=True)
    P, G = settings(c, "settings"), dict(window_length_samples=16)
    s.set_spectrum_parameters(**P)
    s.set_spectrogram_parameters(**G)
    kernels(c)
    return s, x, n, m, fs, P, G


@contract("C03", [SI + "get_spectrum", SI + "get_csm", SI + "get_spectrogram", SI + "set_spectrum_parameters", SI + "set_spectrogram_parameters",
                  SI + "spectrum_smoothing", SI + "spectrum_scaling", SI + "spectrum_method", SI + "time_data"],
          max_paths=6000, trials=120, note="spectral kernels under an assumed functional contract")
def never_stale(c):
    cls = c.choice("class", ["Signal", "ImpulseResponse"])
    s, x, n, m, fs, P, G = setup(c, cls)
    E = c.dsp.standard.enums
    fill(s, c.choice("pre", ["none", "spectrum", "csm", "spectrogram", "all"]))
    op = c.choice("op", OPS)
    np = c.np
    if op == "time_data":
        s.time_data = c.array("y", (n, m))
    elif op == "add_channel":
        s.add_channel(None, c.array("y", (n, 1)), fs)
    elif op == "remove_channel":
        s.remove_channel(0)
    elif op == "swap_channels":
        p = np.arange(m)[::-1]
        s.swap_channels(p)
    elif op == "sampling_rate":
        s.sampling_rate_hz = c.int("fs2", 100, 200000, typ=(1000, 2000))
    elif op == "method":
        P["method"] = E.SpectrumMethod.FFT if P["method"] == E.SpectrumMethod.WelchPeriodogram else E.SpectrumMethod.WelchPeriodogram
        s.spectrum_method = P["method"]
    elif op == "scaling":
        P["scaling"] = E.SpectrumScaling.PowerSpectralDensity
        s.spectrum_scaling = P["scaling"]
    elif op == "smoothing":
        P["smoothing"] = 6.0
        s.spectrum_smoothing = 6.0
    elif op == "spectrum_parameters":
        P.update(detrend=False, window_length_samples=32, pad_to_fast_length=True)
        s.set_spectrum_parameters(**P)
    elif op == "spectrogram_parameters":
        G.update(detrend=True, overlap_percent=75.0)
        s.set_spectrogram_parameters(**G)
    elif op == "activate_constrain":
        s.constrain_amplitude = True
    elif op == "cache_off":
        s.activate_cache = False
        s.time_data = c.array("y", (n, m))
        fill(s, "all")
    elif op == "force":
        s.get_spectrum(force_computation=True)
        s.get_csm(force_computation=True)
        s.get_spectrogram(force_computation=True)
    elif op == "mutate_result":
        for q in ("spectrum", "csm", "spectrogram"):
            for a in query(s, q):
                a *= 2.0
    q = c.choice("query", ["spectrum", "csm", "spectrogram"])
    got = query(s, q)
    want = query(fresh_of(c, s, P, G), q)
    agree(c, q, got, want)
    agree(c, q + " again", query(s, q), want)


@contract("C03", [SI + "plot_magnitude", SI + "plot_phase", SI + "plot_group_delay", SI + "plot_csm", SI + "plot_spectrogram"], max_paths=3000, trials=25, bounded="three channels",
          note="plotting replaced by stubs in the proof")
def plots_keep_settings(c):
    s, x, n, m, fs, P, G = setup(c, "Signal", 3)
    E = c.dsp.standard.enums
    c.requires(P["scaling"] == E.SpectrumScaling.FFTBackward)
    fill(s, c.choice("pre", ["none", "all"]))
    op = c.choice("op", ["magnitude", "phase", "group_delay"])
    if op == "magnitude":
        s.plot_magnitude(range_hz=None)
    elif op == "phase":
        c.requires(P["method"] == E.SpectrumMethod.FFT)
        s.plot_phase(range_hz=None)
    else:
        s.plot_group_delay(range_hz=None)
    close_plots(c)
    c.ensure("settings", c.and_(s.spectrum_method == P["method"], s.spectrum_scaling == P["scaling"], s.spectrum_smoothing == P["smoothing"]))
    q = c.choice("query", ["spectrum", "csm"])
    agree(c, q, query(s, q), query(fresh_of(c, s, P, G), q))


@contract("C03", [SI + "clear_time_window", "classes.impulse_response:ImpulseResponse.set_window"], max_paths=3000)
def window_changes(c):
    s, x, n, m, fs, P, G = setup(c, "ImpulseResponse")
    w1, w2 = c.array("w1", (n, m), lo=0.1, hi=1.0), c.array("w2", (n, m), lo=0.1, hi=1.0)
    had = c.bool("had")
    if had:
        s.set_window(c.snap(w1))
    phys = P["scaling"] != c.dsp.standard.enums.SpectrumScaling.FFTBackward
    fill(s, c.choice("pre", ["none", "spectrum" if phys else "all"]))
    clear = c.bool("clear")
    s.clear_time_window() if clear else s.set_window(c.snap(w2))
    q = c.choice("query", ["spectrum", "csm"])
    if q == "csm":
        c.requires(not phys)
    agree(c, q, query(s, q), query(fresh_of(c, s, P, G, None if clear else w2), q))
