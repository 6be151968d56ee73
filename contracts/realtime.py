"""F01-F04, F08: real-time processors, sample by sample and block by block"""
from ._h import contract, signal

FIR = "classes.fir_filter_realtime:"


# ------------------------------------------------------------------ F01 FIR filter
def fir_with_history(c):
    """a FIR filter at an arbitrary point of its life: any taps, any ring position per channel, any contents"""
    k = c.dim("order", 1, typ=(1, 6))
    m = c.dim("channels", 1, typ=(1, 3))
    b = c.array("b", (k + 1,), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.FIRFilter(c.snap(b))
    f.set_n_channels(m)
    st = c.array("ring", (k, m), lo=-1.0, hi=1.0)
    pos = c.array("position", (m,), "i", lo=0, hi=k - 1)
    f.state = c.snap(st)
    f.current_state_ind = c.snap(pos)
    return f, b, k, m, st, pos


@contract("F01", [FIR + "FIRFilter.process_sample"], observed_by=["fir_sequence", "fir_history"])
def fir_step(c):
    f, b, k, m, st, pos = fir_with_history(c)
    ch = c.int("ch", 0, m - 1)
    x = c.real("x", -1.0, 1.0)
    past = lambda i, j: st[(pos[j] - i) % k, j]
    y = f.process_sample(x, ch)
    c.eq("output is the convolution", y, b[0] * x + c.sum(k, lambda i: b[i + 1] * past(i, ch)))
    st2, pos2 = f.state, f.current_state_ind
    c.forall("ring position stays valid", [m], lambda j: c.and_(pos2[j] >= 0, pos2[j] < k))
    c.forall("new sample is the latest of its channel", [m], lambda j: (st2[pos2[j] % k, j], x), when=lambda j: j == ch)
    c.forall("older samples move back by one", [k - 1, m],
             lambda i, j: (st2[(pos2[j] - i - 1) % k, j], past(i, j)), when=lambda i, j: j == ch)
    c.forall("other channels keep their history", [k, m],
             lambda i, j: (st2[i, j], st[i, j]), when=lambda i, j: j != ch)
    c.forall("other channels keep their position", [m], lambda j: (pos2[j], pos[j]), when=lambda j: j != ch)
    c.unchanged("taps", f.b, b)


@contract("F01", [FIR + "FIRFilter.__init__", FIR + "FIRFilter.set_n_channels", FIR + "FIRFilter.reset_state"], observed_by=["fir_sequence", "fir_history"])
def fir_silence(c):
    k = c.dim("order", 1, typ=(1, 6))
    m = c.dim("channels", 1, typ=(1, 3))
    b = c.array("b", (k + 1,), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.FIRFilter(c.snap(b))
    c.eq("order", f.order, k)
    c.shape("one channel to begin with", f.state, (k, 1))
    f.set_n_channels(m)
    c.shape("state", f.state, (k, m))
    c.forall("silence", [k, m], lambda i, j: (f.state[i, j], 0.0))
    c.forall("ring position valid", [m], lambda j: c.and_(f.current_state_ind[j] >= 0, f.current_state_ind[j] < k))


@contract("F01", [FIR + "FIRFilter.reset_state"], observed_by=["fir_sequence", "fir_history"])
def fir_reset(c):
    f, b, k, m, st, pos = fir_with_history(c)
    f.reset_state()
    c.shape("state", f.state, (k, m))
    c.forall("silence", [k, m], lambda i, j: (f.state[i, j], 0.0))
    c.forall("ring position valid", [m], lambda j: c.and_(f.current_state_ind[j] >= 0, f.current_state_ind[j] < k))


@contract("F01", [FIR + "FIRFilter.process_sample"])
def fir_single_tap(c):
    m = c.dim("channels", 1, typ=(1, 3))
    b = c.array("b", (1,), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.FIRFilter(c.snap(b))
    f.set_n_channels(m)
    ch = c.int("ch", 0, m - 1)
    x = c.real("x", -1.0, 1.0)
    c.eq("gain", f.process_sample(x, ch), b[0] * x)
    c.eq("gain again", f.process_sample(x, ch), b[0] * x)


@contract("F01", [FIR + "FIRFilter.from_filter"])
def fir_from_filter(c):
    k = c.dim("taps", 1, typ=(1, 6))
    b = c.array("b", (k,), lo=-1.0, hi=1.0)
    flt = c.dsp.Filter.from_ba(c.snap(b), c.arr((1,), lambda i: 1.0), 100)
    f = c.dsp.filterbanks.FIRFilter.from_filter(flt)
    c.shape("taps", f.b, (k,))
    c.forall("tap values", [k], lambda i: (f.b[i], b[i]))
    c.eq("order", f.order, k - 1)


@contract("F01", [FIR + "FIRFilter.process_sample"], sym=True, bounded="taps<=4, 3 samples on two interleaved channels")
def fir_sequence(c):
    k = c.choice("taps", [1, 2, 3, 4])
    b = c.array("b", (k,), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.FIRFilter(c.snap(b))
    f.set_n_channels(2)
    x = c.array("x", (3, 2), lo=-1.0, hi=1.0)
    for n in range(3):
        for ch in (1, 0):
            y = f.process_sample(x[n, ch], ch)
            c.eq("output", y, sum(b[q] * x[n - q, ch] for q in range(k) if q <= n))


def histories(c, make, expected, nch_max=3, n_max=60, resets=True):
    """arbitrary interleaved histories, observed through calls only (concrete): expected(x) is the output for one channel's input since the last reset"""
    f = make()
    m = c.int("channels", 1, nch_max)
    n = c.int("samples", 1, n_max)
    f.set_n_channels(m)
    x = c.array("x", (n, m), lo=-1.0, hi=1.0)
    order = c.array("order_of_calls", (n, m), lo=0.0, hi=1.0)
    gone = c.array("skipped", (n, m), lo=0.0, hi=1.0)
    rs = c.int("reset_at", 0, 2 * n)
    np = c.np
    seen = [[] for _ in range(m)]
    got = [[] for _ in range(m)]
    for i in range(n):
        if resets and i == rs:
            f.reset_state()
            for ch in range(m):
                if seen[ch]:
                    c.eq("outputs until the reset", np.array(got[ch]), expected(np.array(seen[ch])))
            seen, got = [[] for _ in range(m)], [[] for _ in range(m)]
        for ch in np.argsort(order[i]):
            ch = int(ch)
            if gone[i, ch] < 0.2:
                continue
            seen[ch].append(x[i, ch])
            got[ch].append(f.process_sample(x[i, ch], ch))
    for ch in range(m):
        if seen[ch]:
            c.eq("outputs", np.array(got[ch]), expected(np.array(seen[ch])))


@contract("F01", [FIR + "FIRFilter.process_sample", FIR + "FIRFilter.reset_state"], sym=False, bounded="up to 8 taps, 60 samples, 3 channels, one reset", trials=150)
def fir_history(c):
    k = c.int("taps", 1, 8)
    b = c.array("b", (k,), lo=-1.0, hi=1.0)
    histories(c, lambda: c.dsp.filterbanks.FIRFilter(c.snap(b)), lambda x: c.np.convolve(x, b)[: len(x)])


# ------------------------------------------------------------------ F03 IIR and state-space filters
IIR = "classes.iir_filter_realtime:IIRFilter"
SSF = "classes.state_space_filter:StateSpaceFilter"


def iir_coefficients(c, lo=1):
    """arbitrary numerator and denominator, not normalised: ((b, a), normalised coefficient functions, order)"""
    nb = c.dim("nb", 1, typ=(1, 5))
    na = c.dim("na", 1, typ=(1, 5))
    b = c.array("b", (nb,), lo=-1.0, hi=1.0)
    raw = c.array("a", (na,), lo=-0.3, hi=0.3)
    a0 = c.real("a0", 0.5, 2.0)
    a = c.snap(c.arr((na,), lambda i: c.where(i == 0, a0, raw[c.max(0, c.min(i, na - 1))])))
    k = c.max(nb, na) - 1
    c.requires(k >= lo)
    B = c.arr((k + 1,), lambda i: c.where(i < nb, b[c.min(i, nb - 1)] / a0, 0.0))
    A = c.arr((k + 1,), lambda i: c.where(i < na, a[c.min(i, na - 1)] / a0, 0.0))
    return b, a, B, A, k


@contract("F03", [IIR + ".process_sample", IIR + ".__init__", IIR + ".set_n_channels"], observed_by=["iir_history"])
def iir_step(c):
    b, a, B, A, k = iir_coefficients(c)
    m = c.dim("channels", 1, typ=(1, 3))
    f = c.dsp.filterbanks.IIRFilter(b, a)
    f.set_n_channels(m)
    c.shape("state", f.state, (k, m))
    c.forall("silence", [k, m], lambda i, j: (f.state[i, j], 0.0))
    st = c.array("state", (k, m), lo=-1.0, hi=1.0)
    f.state = c.snap(st)
    ch = c.int("ch", 0, m - 1)
    x = c.real("x", -1.0, 1.0)
    y = f.process_sample(x, ch)
    c.eq("output", y, B[0] * x + st[0, ch])
    c.forall("state moves up", [k - 1], lambda i: (f.state[i, ch], B[i + 1] * x - A[i + 1] * y + st[i + 1, ch]))
    c.eq("last state", f.state[k - 1, ch], B[k] * x - A[k] * y)
    c.forall("other channels", [k, m], lambda i, j: (f.state[i, j], st[i, j]), when=lambda i, j: j != ch)


@contract("F03", [IIR + ".process_sample"], observed_by=["iir_history"])
def iir_difference_equation(c):
    """the state that belongs to the last inputs X and outputs Y (latest first) leads to the difference equation and to the state of the next instant"""
    b, a, B, A, k = iir_coefficients(c)
    X = c.array("X", (k,), lo=-1.0, hi=1.0)
    Y = c.array("Y", (k,), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.IIRFilter(b, a)
    state = lambda i, X, Y: c.sum(k - i, lambda r: B[i + 1 + r] * X[r] - A[i + 1 + r] * Y[r])
    f.state = c.snap(c.arr((k, 1), lambda i, j: state(i, X, Y)))
    x = c.real("x", -1.0, 1.0)
    y = f.process_sample(x, 0)
    c.eq("difference equation", y, B[0] * x + c.sum(k, lambda r: B[1 + r] * X[r] - A[1 + r] * Y[r]))
    c.forall("state of the next instant", [k - 1],
             lambda i: (f.state[i, 0], B[i + 1] * x - A[i + 1] * y + c.sum(k - 1 - i, lambda r: B[i + 2 + r] * X[r] - A[i + 2 + r] * Y[r])))
    c.eq("last state of the next instant", f.state[k - 1, 0], B[k] * x - A[k] * y)


@contract("F03", [IIR + ".__init__", IIR + ".from_filter"])
def iir_caller_coefficients(c):
    b, a, B, A, k = iir_coefficients(c, 0)
    b0, a0 = c.snap(b), c.snap(a)
    f = c.dsp.filterbanks.IIRFilter(b, a)
    for x in (1.0, -0.5, 0.25):
        f.process_sample(x, 0)
    c.unchanged("numerator", b, b0)
    c.unchanged("denominator", a, a0)


@contract("F03", [IIR + ".process_sample"])
def iir_order_zero(c):
    b, a0 = c.array("b", (1,), lo=-1.0, hi=1.0), c.real("a0", 0.5, 2.0)
    f = c.dsp.filterbanks.IIRFilter(b, c.snap(c.arr((1,), lambda i: a0)))
    x = c.real("x", -1.0, 1.0)
    c.eq("gain", f.process_sample(x, 0) * a0, b[0] * x)
    c.eq("gain again", f.process_sample(2 * x, 0) * a0, b[0] * 2 * x)


@contract("F03", [IIR + ".reset_state"], observed_by=["iir_history"])
def iir_reset(c):
    b, a, B, A, k = iir_coefficients(c)
    m = c.dim("channels", 1, typ=(1, 3))
    f = c.dsp.filterbanks.IIRFilter(b, a)
    f.state = c.array("state", (k, m), lo=-1.0, hi=1.0)
    f.reset_state()
    c.shape("state", f.state, (k, m))
    c.forall("silence", [k, m], lambda i, j: (f.state[i, j], 0.0))


@contract("F03", [SSF + ".process_sample", SSF + ".set_n_channels", SSF + ".reset_state"], observed_by=["state_space_history"])
def state_space_step(c):
    N = c.dim("order", 1, typ=(1, 5))
    m = c.dim("channels", 1, typ=(1, 3))
    A = c.array("A", (N, N), lo=-0.3, hi=0.3)
    B = c.array("B", (N, 1), lo=-1.0, hi=1.0)
    C = c.array("C", (1, N), lo=-1.0, hi=1.0)
    D = c.array("D", (1, 1), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.StateSpaceFilter(c.snap(A), c.snap(B), c.snap(C), c.snap(D))
    f.set_n_channels(m)
    c.shape("state", f.x, (N, m))
    c.forall("silence", [N, m], lambda i, j: (f.x[i, j], 0.0))
    st = c.array("state", (N, m), lo=-1.0, hi=1.0)
    f.x = c.snap(st)
    ch = c.int("ch", 0, m - 1)
    u = c.real("u", -1.0, 1.0)
    y = f.process_sample(u, ch)
    c.eq("output", y, c.sum(N, lambda i: C[0, i] * st[i, ch]) + D[0, 0] * u)
    c.forall("next state", [N], lambda i: (f.x[i, ch], c.sum(N, lambda q: A[i, q] * st[q, ch]) + B[i, 0] * u))
    c.forall("other channels", [N, m], lambda i, j: (f.x[i, j], st[i, j]), when=lambda i, j: j != ch)
    f.reset_state()
    c.forall("silence after the reset", [N, m], lambda i, j: (f.x[i, j], 0.0))


def lfilter_np(c, b, a, x):
    """difference equation, written out"""
    y = c.np.zeros(len(x))
    for n in range(len(x)):
        y[n] = (sum(b[q] * x[n - q] for q in range(len(b)) if q <= n) - sum(a[q] * y[n - q] for q in range(1, len(a)) if q <= n)) / a[0]
    return y


@contract("F03", [IIR + ".process_sample", IIR + ".from_filter"], sym=False, bounded="up to 5 coefficients, 60 samples, 3 channels, one reset", trials=150)
def iir_history(c):
    nb, na = c.int("nb", 1, 5), c.int("na", 1, 5)
    b = c.array("b", (nb,), lo=-1.0, hi=1.0)
    a = c.array("a", (na,), lo=-0.2, hi=0.2)
    a = a.copy()
    a[0] = c.real("a0", 0.8, 2.0)
    F = c.dsp.filterbanks.IIRFilter
    if c.choice("from_filter", [0, 1]) and na > 1:
        c.requires(abs(a[-1]) > 1e-3)
        make = lambda: F.from_filter(c.dsp.Filter.from_ba(b.copy(), a.copy(), 100))
    else:
        make = lambda: F(b, a)
    histories(c, make, lambda x: lfilter_np(c, b, a, x))


@contract("F03", [SSF + ".process_sample", SSF + ".from_filter"], sym=False, bounded="order up to 4, 60 samples, 3 channels, one reset", trials=150)
def state_space_history(c):
    na = c.int("na", 2, 5)
    nb = c.int("nb", 1, 5)
    b = c.array("b", (nb,), lo=-1.0, hi=1.0).copy()
    a = c.array("a", (na,), lo=-0.2, hi=0.2).copy()
    a[0] = 1.0
    c.requires(abs(a[-1]) > 1e-3)
    c.requires(abs(b[0]) > 1e-3)
    flt = c.dsp.Filter.from_ba(b.copy(), a.copy(), 100)
    histories(c, lambda: c.dsp.filterbanks.StateSpaceFilter.from_filter(flt), lambda x: lfilter_np(c, b, a, x))


@contract("F03", [SSF + ".from_filter_as_sos_list"], sym=False, bounded="up to 3 sections, 60 samples, 3 channels, one reset")
def state_space_sections(c):
    ns = c.int("sections", 1, 3)
    sos = c.array("sos", (ns, 6), lo=-0.3, hi=0.3).copy()
    sos[:, 3] = 1.0
    sos[:, 0] = 1.0 + c.np.abs(sos[:, 0])
    flt = c.dsp.Filter.from_sos(sos.copy(), 100)
    secs = c.dsp.filterbanks.StateSpaceFilter.from_filter_as_sos_list(flt)
    c.eq("one filter per section", len(secs), ns)

    def ref(x):
        for s in sos:
            x = lfilter_np(c, s[:3], s[3:], x)
        return x
    histories(c, lambda: c.dsp.filterbanks.FilterChain(secs), ref)


# ------------------------------------------------------------------ F04 smoothing, state variable filter, chains
EAF = "classes.exponential_average_filter:ExponentialAverageFilter"
SVF = "classes.sv_filter:StateVariableFilter"
CHN = "classes.filter_chain:FilterChain"


@contract("F04", [EAF + ".process_sample", EAF + ".set_n_channels"])
def averager_step(c):
    m = c.dim("channels", 1, typ=(1, 3))
    fs = c.int("fs", 1, 100000, typ=(10, 1000))
    up, down = c.real("up", 0.001, 1.0), c.real("down", 0.001, 1.0)
    acc = c.real("accuracy", 0.05, 0.99)
    f = c.dsp.filterbanks.ExponentialAverageFilter(up, down, fs, acc)
    f.set_n_channels(m)
    c.shape("state", f.state, (1, m))
    c.forall("silence", [m], lambda j: (f.state[0, j], 0.0))
    # smoothing coefficient from its definition: the step response reaches the accuracy after the time
    factor = lambda t: 1.0 - c.np.exp(c.np.log(1.0 - acc) / t / fs)
    au, ad = f.increase_coefficient, f.decrease_coefficient
    c.eq("increase coefficient", au, factor(up))
    c.eq("decrease coefficient", ad, factor(down))
    st = c.array("state", (1, m), lo=-1.0, hi=1.0)
    f.state = c.snap(st)
    ch = c.int("ch", 0, m - 1)
    x = c.real("x", -1.0, 1.0)
    y = f.process_sample(x, ch)
    s = st[0, ch]
    k = c.where(x > s, au, ad)
    c.eq("moves towards the input", y, s + k * (x - s))
    c.forall("states", [m], lambda j: (f.state[0, j], c.where(j == ch, y, st[0, j])))
    f.reset_state()
    c.forall("silence after the reset", [m], lambda j: (f.state[0, j], 0.0))


@contract("F04", [EAF + ".process_sample"], sym=False, bounded="60 samples, 3 channels, one reset", trials=150)
def averager_history(c):
    fs = c.int("fs", 1, 1000)
    up, down = c.real("up", 0.001, 1.0), c.real("down", 0.001, 1.0)
    f = c.dsp.filterbanks.ExponentialAverageFilter(up, down, fs)
    au, ad = 1 - c.np.exp(c.np.log(0.05) / up / fs), 1 - c.np.exp(c.np.log(0.05) / down / fs)

    def ref(x):
        y, s = [], 0.0
        for v in x:
            s += (au if v > s else ad) * (v - s)
            y.append(s)
        return c.np.array(y)
    histories(c, lambda: f, ref)


@contract("F04", [SVF + ".process_sample", SVF + ".set_parameters"])
def svf_step(c):
    m = c.dim("channels", 1, typ=(1, 3))
    fs = c.int("fs", 4, 100000, typ=(100, 1000))
    fc = c.real("fc", 0.0, None, open=True, typ=(1.0, 40.0))
    c.requires(fc < fs // 2)
    R = c.real("R", 0.01, 4.0)
    f = c.dsp.filterbanks.StateVariableFilter(fc, R, fs)
    f.set_n_channels(m)
    c.shape("state", f.state, (2, m))
    c.forall("silence", [2, m], lambda i, j: (f.state[i, j], 0.0))
    g = f.g
    c.eq("integrator gain", g, c.np.tan(c.np.pi * fc / fs))
    st = c.array("state", (2, m), lo=-1.0, hi=1.0)
    f.state = c.snap(st)
    ch = c.int("ch", 0, m - 1)
    x = c.real("x", -1.0, 1.0)
    c.requires(1 + R * g + g * g > 0)
    yl, yh, yb, ya = f.process_sample(x, ch)
    c.eq("outputs recombine to the input", yh + R * yb + yl, x)
    c.eq("first integrator", yb, g * yh + st[0, ch])
    c.eq("second integrator", yl, g * yb + st[1, ch])
    c.eq("allpass", ya, yl - R * yb + yh)
    c.eq("state of the first integrator", f.state[0, ch], 2 * g * yh + st[0, ch])
    c.eq("state of the second integrator", f.state[1, ch], 2 * g * yb + st[1, ch])
    c.forall("other channels", [2, m], lambda i, j: (f.state[i, j], st[i, j]), when=lambda i, j: j != ch)
    f.reset_state()
    c.forall("silence after the reset", [2, m], lambda i, j: (f.state[i, j], 0.0))


@contract("F04", [SVF + ".filter_signal"], bounded="3 samples, 2 channels")
def svf_filter_signal(c):
    s, x, n, m, fs = signal(c, n=3, m=2, fs=100, lo=-0.5, hi=0.5)
    fc, R = c.real("fc", 1.0, 40.0), c.real("R", 0.1, 4.0)
    f = c.dsp.filterbanks.StateVariableFilter(fc, R, fs)
    f.set_n_channels(2)
    mb = f.filter_signal(s)
    g = c.dsp.filterbanks.StateVariableFilter(fc, R, fs)
    g.set_n_channels(2)
    for i in range(3):
        for ch in range(2):
            y = g.process_sample(x[i, ch], ch)
            for band in range(4):
                c.eq("band output", mb.bands[band].time_data[i, ch], y[band])


@contract("F04", [SVF + ".filter_signal"], sym=False, bounded="signals up to 60 samples", trials=100)
def svf_bands(c):
    cls = c.choice("cls", ["Signal", "ImpulseResponse"])
    s, x, n, m, fs = signal(c, fs=100, cls=cls, lo=-2.0, hi=2.0)
    fc, R = c.real("fc", 1.0, 40.0), c.real("R", 0.2, 4.0)
    mb = c.dsp.filterbanks.StateVariableFilter(fc, R, fs).filter_signal(s)
    c.eq("bands", len(mb.bands), 4)
    lo, hi, bp, ap = [b.time_data for b in mb.bands]
    c.eq("outputs recombine to the input", lo + R * bp + hi, x)
    c.eq("allpass", ap, lo - R * bp + hi)
    g = c.np.tan(c.np.pi * fc / fs)
    # trapezoidal integration from silence
    c.eq("bandpass integrates the highpass", bp - c.np.vstack([0 * bp[:1], bp[:-1]]), g * (hi + c.np.vstack([0 * hi[:1], hi[:-1]])))
    c.eq("lowpass integrates the bandpass", lo - c.np.vstack([0 * lo[:1], lo[:-1]]), g * (bp + c.np.vstack([0 * bp[:1], bp[:-1]])))


@contract("F04", [CHN + ".process_sample", CHN + ".set_n_channels", CHN + ".reset_state"], bounded="chains of up to 3 members")
def chain_order(c):
    """members are called once per sample, in order, each with the previous output and the same channel"""
    k = c.choice("members", [1, 2, 3])
    g = [c.real(f"g{i}", -2.0, 2.0) for i in range(3)]
    o = [c.real(f"o{i}", -2.0, 2.0) for i in range(3)]
    log = []

    class Member:
        def __init__(self, i): self.i = i
        def process_sample(self, x, channel):
            log.append(("p", self.i, channel))
            return g[self.i] * x * x + o[self.i]
        def set_n_channels(self, n): log.append(("n", self.i, n))
        def reset_state(self): log.append(("r", self.i))
    f = c.dsp.filterbanks.FilterChain([Member(i) for i in range(k)])
    f.set_n_channels(2)
    f.reset_state()
    x = c.real("x", -1.0, 1.0)
    y = f.process_sample(x, 1)
    for i in range(k):
        x = g[i] * x * x + o[i]
    c.eq("output", y, x)
    c.ensure("calls", log == [("n", i, 2) for i in range(k)] + [("r", i) for i in range(k)] + [("p", i, 1) for i in range(k)])
    c.eq("number of filters", f.n_filters, k)


@contract("F04", [CHN + ".process_sample"], sym=False, bounded="chains of up to 3 members, 60 samples, 3 channels, one reset", trials=100)
def chain_history(c):
    k = c.choice("members", [1, 2, 3])
    bs = [c.array(f"b{i}", (3,), lo=-1.0, hi=1.0) for i in range(k)]
    F = c.dsp.filterbanks

    def ref(x):
        for b in bs:
            x = c.np.convolve(x, b)[: len(x)]
        return x
    histories(c, lambda: F.FilterChain([F.FIRFilter(b.copy()) for b in bs]), ref)


# ------------------------------------------------------------------ F02 block convolution
@contract("F02", [FIR + "FIRFilterOverlapSave.process_block", FIR + "FIRFilterOverlapSave.prepare"], observed_by=["blocks_history"])
def overlap_save_step(c):
    N = c.dim("taps", 1, typ=(1, 9))
    B = c.dim("block", 1, typ=(1, 6))
    m = c.dim("channels", 1, typ=(1, 3))
    b = c.array("b", (N,), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.FIRFilterOverlapSave(c.snap(b))
    f.prepare(B, m)
    L = f.buffer.shape[0]
    c.ensure("room for one block and the filter", L >= N + B - 1)
    c.shape("buffer", f.buffer, (L, m))
    c.forall("silence", [L, m], lambda i, j: (f.buffer[i, j], 0.0))
    past = c.array("past", (L, m), lo=-1.0, hi=1.0)
    f.buffer = c.snap(past)
    x = c.array("x", (B,), lo=-1.0, hi=1.0)
    ch = c.int("ch", 0, m - 1)
    y = f.process_block(c.snap(x), ch)
    # the last N - 1 samples before the block end at L - B in the buffer
    time = c.arr((L,), lambda i: c.where(i >= L - B, x[c.max(0, i - (L - B))], past[i, ch]))
    c.shape("output", y, (B,))
    c.forall("direct convolution", [B], lambda t: (y[t], c.sum(N, lambda q: b[q] * time[L - B + t - q])))
    c.forall("history moves by one block", [L - B], lambda i: (f.buffer[i, ch], time[i + B]))
    c.forall("other channels", [L, m], lambda i, j: (f.buffer[i, j], past[i, j]), when=lambda i, j: j != ch)


@contract("F02", [FIR + "FIRUniformPartitioned.prepare"], observed_by=["blocks_history"])
def partitions_prepared(c):
    """partition p holds the spectrum of the taps pB .. (p+1)B - 1, zero-padded to two blocks"""
    N, B, m = c.dim("taps", 1, typ=(1, 9)), c.dim("block", 1, typ=(1, 6)), c.dim("channels", 1, typ=(1, 3))
    b = c.array("b", (N,), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.FIRUniformPartitioned(c.snap(b))
    f.prepare(B, m)
    P = f.n_partitions
    c.ensure("partitions cover the filter", P * B >= N)
    c.shape("spectra of the past windows", f.buffer_spectra, (B + 1, P, m))
    c.forall("silence", [B + 1, P, m], lambda i, p, j: (f.buffer_spectra[i, p, j], 0.0))
    c.forall("silence of the input", [2 * B, m], lambda i, j: (f.input_buffer[i, j], 0.0))
    c.forall("slot is valid", [m], lambda j: c.and_(f.buffer_ind[j] >= 0, f.buffer_ind[j] < P))
    c.shape("partitions", f.partitioned_spectrum, (B + 1, P))
    p = c.int("p", 0, P - 1)
    tap = c.arr((B,), lambda q: c.where(p * B + q < N, b[c.min(p * B + q, N - 1)], 0.0))
    ref = c.np.fft.rfft(c.snap(tap), n=2 * B)
    c.forall("taps of the partition", [B + 1], lambda i: (f.partitioned_spectrum[i, p], ref[i]))


@contract("F02", [FIR + "FIRUniformPartitioned.process_block"], observed_by=["blocks_history"])
def partitioned_step(c):
    """any taps in any number of partitions, any past windows, any ring position per channel"""
    P, B, m = c.dim("partitions", 1, typ=(1, 4)), c.dim("block", 1, typ=(1, 6)), c.dim("channels", 1, typ=(1, 3))
    f = c.dsp.filterbanks.FIRUniformPartitioned(c.snap(c.array("b", (1,))))
    f.prepare(B, m)
    taps = c.array("partition_taps", (B, P), lo=-1.0, hi=1.0)
    win = c.array("windows", (2 * B, P, m), lo=-1.0, hi=1.0)
    last = c.array("last", (2 * B, m), lo=-1.0, hi=1.0)
    pos = c.array("position", (m,), "i", lo=0, hi=P - 1)
    spectra = c.np.fft.rfft(c.snap(win), axis=0)
    f.n_partitions = P
    f.partitioned_spectrum = c.np.fft.rfft(c.snap(taps), n=2 * B, axis=0)
    f.buffer_index_helper = c.np.arange(P)
    f.buffer_spectra = c.snap(spectra)
    f.input_buffer = c.snap(last)
    f.buffer_ind = c.snap(pos)
    x = c.array("x", (B,), lo=-1.0, hi=1.0)
    ch = c.int("ch", 0, m - 1)
    y = f.process_block(c.snap(x), ch)
    new = c.arr((2 * B,), lambda i: c.where(i < B, last[c.min(i + B, 2 * B - 1), ch], x[c.max(i - B, 0)]))
    slot = lambda p: c.where(pos[ch] - p < 0, pos[ch] - p + P, pos[ch] - p)
    w = lambda p, i: c.where(p == 0, new[i], win[i, slot(p), ch])
    c.shape("output", y, (B,))
    c.forall("convolution of every partition with its window", [B],
             lambda t: (y[t], c.sum(P, lambda p: c.sum(B, lambda q: taps[q, p] * w(p, B + t - q)))))
    c.forall("input window", [2 * B], lambda i: (f.input_buffer[i, ch], new[i]))
    c.eq("next slot", f.buffer_ind[ch], c.where(pos[ch] + 1 == P, 0, pos[ch] + 1))
    nsp = c.np.fft.rfft(c.snap(new))
    c.forall("spectra", [B + 1, P, m], lambda i, p, j: (f.buffer_spectra[i, p, j], c.where(c.and_(p == pos[ch], j == ch), nsp[i], spectra[i, p, j])))
    c.forall("other channels: input", [2 * B, m], lambda i, j: (f.input_buffer[i, j], last[i, j]), when=lambda i, j: j != ch)
    c.forall("other channels: position", [m], lambda j: (f.buffer_ind[j], pos[j]), when=lambda j: j != ch)


FIRM = FIR + "FIRUniformPartitionedMultichannel"


@contract("F02", [FIRM + ".prepare", FIRM + ".__init__"], observed_by=["blocks_history_multichannel"])
def multichannel_prepared(c):
    N, B, m = c.dim("taps", 2, typ=(2, 9)), c.dim("block", 1, typ=(1, 6)), c.dim("channels", 1, typ=(1, 3))
    c.requires(m <= N)
    b = c.array("b", (N, m), lo=-2.0, hi=2.0)
    f = c.dsp.filterbanks.FIRUniformPartitionedMultichannel(c.snap(b))
    f.prepare(B)
    P = f.n_partitions
    c.ensure("partitions cover the filter", P * B >= N)
    c.shape("spectra of the past windows", f.buffer_spectra, (B + 1, P, m))
    c.forall("silence", [B + 1, P, m], lambda i, p, j: (f.buffer_spectra[i, p, j], 0.0))
    c.forall("silence of the input", [2 * B, m], lambda i, j: (f.input_buffer[i, j], 0.0))
    c.ensure("slot is valid", c.and_(f.buffer_ind >= 0, f.buffer_ind < P))
    c.shape("partitions", f.partitioned_spectrum, (B + 1, P, m))
    p, j = c.int("p", 0, P - 1), c.int("j", 0, m - 1)
    tap = c.arr((B,), lambda q: c.where(p * B + q < N, b[c.min(p * B + q, N - 1), j], 0.0))
    ref = c.np.fft.rfft(c.snap(tap), n=2 * B)
    c.forall("taps of the partition", [B + 1], lambda i: (f.partitioned_spectrum[i, p, j], ref[i]))


@contract("F02", [FIRM + ".process_block", FIRM + ".reset_state"], observed_by=["blocks_history_multichannel"])
def multichannel_step(c):
    P, B, m = c.dim("partitions", 1, typ=(1, 4)), c.dim("block", 1, typ=(1, 6)), c.dim("channels", 1, typ=(1, 3))
    f = c.dsp.filterbanks.FIRUniformPartitionedMultichannel(c.snap(c.array("b", (1,))))
    f.prepare(B)
    taps = c.array("partition_taps", (B, P, m), lo=-1.0, hi=1.0)
    win = c.array("windows", (2 * B, P, m), lo=-1.0, hi=1.0)
    last = c.array("last", (2 * B, m), lo=-1.0, hi=1.0)
    pos = c.int("position", 0, P - 1)
    spectra = c.np.fft.rfft(c.snap(win), axis=0)
    f.n_partitions, f.n_channels = P, m
    f.partitioned_spectrum = c.np.fft.rfft(c.snap(taps), n=2 * B, axis=0)
    f.buffer_index_helper = c.np.arange(P)
    f.buffer_spectra = c.snap(spectra)
    f.input_buffer = c.snap(last)
    f.buffer_ind = pos
    x = c.array("x", (B, m), lo=-1.0, hi=1.0)
    y = f.process_block(c.snap(x))
    new = c.arr((2 * B, m), lambda i, ch: c.where(i < B, last[c.min(i + B, 2 * B - 1), ch], x[c.max(i - B, 0), ch]))
    slot = lambda p: c.where(pos - p < 0, pos - p + P, pos - p)
    w = lambda p, i, ch: c.where(p == 0, new[i, ch], win[i, slot(p), ch])
    c.shape("output", y, (B, m))
    c.forall("convolution of every partition with its window", [B, m],
             lambda t, ch: (y[t, ch], c.sum(P, lambda p: c.sum(B, lambda q: taps[q, p, ch] * w(p, B + t - q, ch)))))
    c.forall("input window", [2 * B, m], lambda i, ch: (f.input_buffer[i, ch], new[i, ch]))
    c.eq("next slot", f.buffer_ind, c.where(pos + 1 == P, 0, pos + 1))
    nsp = c.np.fft.rfft(c.snap(new), axis=0)
    c.forall("spectra", [B + 1, P, m], lambda i, p, j: (f.buffer_spectra[i, p, j], c.where(p == pos, nsp[i, j], spectra[i, p, j])))
    f.reset_state()
    c.forall("silence after the reset", [B + 1, P, m], lambda i, p, j: (f.buffer_spectra[i, p, j], 0.0))
    c.forall("silent input after the reset", [2 * B, m], lambda i, j: (f.input_buffer[i, j], 0.0))


@contract("F02", [FIR + "FIRFilterOverlapSave.reset_state", FIR + "FIRUniformPartitioned.reset_state"], observed_by=["blocks_history"])
def block_reset(c):
    B, m = c.dim("block", 1, typ=(1, 6)), c.dim("channels", 1, typ=(1, 3))
    N = c.dim("taps", 1, typ=(1, 9))
    F = c.dsp.filterbanks
    f = F.FIRFilterOverlapSave(c.snap(c.array("b", (N,))))
    f.prepare(B, m)
    L = f.buffer.shape[0]
    f.buffer = c.array("past", (L, m), lo=-1.0, hi=1.0)
    f.reset_state()
    c.forall("silence", [L, m], lambda i, j: (f.buffer[i, j], 0.0))
    P = c.dim("partitions", 1, typ=(1, 4))
    g = F.FIRUniformPartitioned(c.snap(c.array("b1", (1,))))
    g.prepare(B, m)
    g.buffer_spectra = c.array("spectra", (B + 1, P, m), "c")
    g.input_buffer = c.array("last", (2 * B, m))
    g.reset_state()
    c.forall("silence of the spectra", [B + 1, P, m], lambda i, p, j: (g.buffer_spectra[i, p, j], 0.0))
    c.forall("silence of the input", [2 * B, m], lambda i, j: (g.input_buffer[i, j], 0.0))


def block_history(c, f, m, B, taps, step):
    """interleaved blocks per channel, one reset: the concatenated outputs are the direct convolution"""
    np = c.np
    n = c.int("blocks", 1, 12)
    x = c.array("x", (n, B, m), lo=-1.0, hi=1.0)
    order, gone = c.array("order_of_calls", (n, m), lo=0.0, hi=1.0), c.array("skipped", (n, m), lo=0.0, hi=1.0)
    rs = c.int("reset_at", 0, 2 * n)
    seen, got = [[] for _ in range(m)], [[] for _ in range(m)]

    def check():
        for ch in range(m):
            if seen[ch]:
                v = np.concatenate(seen[ch])
                c.eq("direct convolution", np.concatenate(got[ch]), np.convolve(v, taps(ch))[: len(v)])
    for i in range(n):
        if i == rs:
            check()
            f.reset_state()
            seen, got = [[] for _ in range(m)], [[] for _ in range(m)]
        for ch in np.argsort(order[i]):
            ch = int(ch)
            if gone[i, ch] < 0.2 and step is not None:
                continue
            seen[ch].append(x[i, :, ch])
            if step is not None:
                got[ch].append(step(x[i, :, ch].copy(), ch))
        if step is None:
            y = f.process_block(x[i].copy())
            for ch in range(m):
                got[ch].append(y[:, ch])
    check()


@contract("F02", [FIR + "FIRFilterOverlapSave.process_block", FIR + "FIRUniformPartitioned.process_block"], sym=False,
          bounded="up to 40 taps, blocks of up to 12 samples, 12 blocks, 3 channels, one reset", trials=200)
def blocks_history(c):
    kind = c.choice("kind", ["FIRFilterOverlapSave", "FIRUniformPartitioned"])
    N, B, m = c.int("taps", 1, 40), c.int("block", 1, 12), c.int("channels", 1, 3)
    b = c.array("b", (N,), lo=-1.0, hi=1.0)
    f = getattr(c.dsp.filterbanks, kind)(b.copy())
    f.prepare(B, m)
    block_history(c, f, m, B, lambda ch: b, f.process_block)


@contract("F02", [FIRM + ".process_block"], sym=False, bounded="up to 40 taps, blocks of up to 12 samples, 12 blocks, 3 channels, one reset", trials=200)
def blocks_history_multichannel(c):
    N, B, m = c.int("taps", 3, 40), c.int("block", 1, 12), c.int("channels", 1, 3)
    b = c.array("b", (N, m), lo=-2.0, hi=2.0)
    f = c.dsp.filterbanks.FIRUniformPartitionedMultichannel(b.copy())
    f.prepare(B)
    block_history(c, f, m, B, lambda ch: b[:, ch], None)


@contract("F02", [FIR + "FIRFilterOverlapSave.from_filter", FIR + "FIRUniformPartitioned.from_filter"])
def block_filters_from_filter(c):
    k = c.dim("taps", 1, typ=(1, 6))
    b = c.array("b", (k,), lo=-1.0, hi=1.0)
    flt = c.dsp.Filter.from_ba(c.snap(b), c.arr((1,), lambda i: 1.0), 100)
    for F in (c.dsp.filterbanks.FIRFilterOverlapSave, c.dsp.filterbanks.FIRUniformPartitioned):
        f = F.from_filter(flt)
        c.shape("taps", f.fir, (k,))
        c.forall("tap values", [k], lambda i: (f.fir[i], b[i]))
