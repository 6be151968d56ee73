"""T01 padding/trimming, T02 trimming by time/level, T03 delay, T05 polyphase, T06 fades"""
from ._h import contract, signal, multiband


def padded(c, x0, n, L, m, end):
    if end:
        return c.arr((L, m), lambda i, ch: c.where(i < n, x0[c.min(i, n - 1), ch], 0.0))
    return c.arr((L, m), lambda i, ch: c.where(i - (L - n) >= 0, x0[c.max(i - (L - n), 0), ch], 0.0))


# ------------------------------------------------------------------ T01
@contract("T01", ["standard.pad_trim_methods:pad_trim", "helpers.other:_pad_trim", "classes.signal:Signal.copy_with_new_time_data"])
def pad_trim_signal(c):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    L = c.dim("L", 2)
    c.requires(m <= L)
    end = c.bool("in_the_end")
    out = c.dsp.pad_trim(s, L, end)
    c.shape("length", out.time_data, (L, m))
    c.eq("samples", out.time_data, padded(c, x0, n, L, m, end))
    c.eq("fs", out.sampling_rate_hz, fs)
    c.unchanged("input", s.time_data, x0)


@contract("T01", ["standard.pad_trim_methods:pad_trim", "classes.impulse_response:ImpulseResponse.copy_with_new_time_data"])
def pad_trim_ir(c):
    s, x, n, m, fs = signal(c, cls="ImpulseResponse", lo=-1.0, hi=1.0)
    x0 = c.snap(x)
    L = c.dim("L", 2)
    c.requires(m <= L)
    end = c.bool("in_the_end")
    out = c.dsp.pad_trim(s, L, end)
    c.ensure("class", isinstance(out, c.dsp.ImpulseResponse))
    c.shape("length", out.time_data, (L, m))
    c.eq("samples", out.time_data, padded(c, x0, n, L, m, end))


@contract("T01", ["helpers.other:_pad_trim"])
def pad_trim_array(c):
    n, m = c.dim("n", 1), c.dim("m", 1, typ=(1, 3))
    L = c.dim("L", 1)
    end = c.bool("in_the_end")
    layout = c.choice("layout", ["1d", "axis0", "axis1"])
    f = c.dsp.helpers.other._pad_trim
    if layout == "1d":
        x = c.array("x", (n,))
        out = f(x, L, in_the_end=end)
        c.shape("length", out, (L,))
        sh = 0 if end else L - n
        c.forall("samples", (L,), lambda i: (out[i], c.where(c.and_(i - sh >= 0, i - sh < n), x[c.min(c.max(i - sh, 0), n - 1)], 0.0)))
    elif layout == "axis0":
        x = c.array("x", (n, m))
        out = f(x, L, 0, end)
        c.eq("samples", out, padded(c, x, n, L, m, end))
    else:
        x = c.array("x", (m, n))
        out = f(x, L, 1, end)
        c.eq("samples", out, padded(c, x.T, n, L, m, end).T)
    c.ensure("independent", out is not x)


@contract("T01", ["standard.pad_trim_methods:pad_trim"], bounded="two bands")
def pad_trim_multiband(c):
    mb, xs, n, m, fs = multiband(c, 2)
    x0 = [c.snap(x) for x in xs]
    L = c.dim("L", 2)
    c.requires(m <= L)
    end = c.bool("in_the_end")
    out = c.dsp.pad_trim(mb, L, end)
    c.ensure("bands", len(out.bands) == 2)
    for k in range(2):
        c.eq("samples", out.bands[k].time_data, padded(c, x0[k], n, L, m, end))
        c.unchanged("input", mb.bands[k].time_data, x0[k])


def secs(c, name, fs):
    """a duration, positive or negative, and the number of samples it stands for"""
    k = c.int(name + "_samples", -60, 60)
    frac = c.real(name + "_frac", -0.4, 0.4)
    c.requires(c.or_(k != 0, frac == 0))
    return (k + frac) / fs, k


@contract("T01", ["standard.pad_trim_methods:modify_signal_length"])
def modify_length(c):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    mode = c.choice("mode", ["both", "start", "end"])
    a = b = None
    ka = kb = 0
    if mode != "end":
        a, ka = secs(c, "start", fs)
    if mode != "start":
        b, kb = secs(c, "end", fs)
    c.requires(n + c.min(ka, 0) + c.min(kb, 0) >= 2, m <= n + c.min(ka, 0) + c.min(kb, 0))
    out = c.dsp.modify_signal_length(s, a, b)
    L = n + ka + kb
    c.shape("length", out.time_data, (L, m))
    c.forall("samples", (L, m), lambda i, ch: (out.time_data[i, ch], c.where(
        c.and_(i - ka >= 0, i - ka < n), x0[c.min(c.max(i - ka, 0), n - 1), ch], 0.0)))
    c.unchanged("input", s.time_data, x0)


# ------------------------------------------------------------------ T02
@contract("T02", ["standard.pad_trim_methods:trim_with_time_selection"])
def trim_time(c):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    incl = c.bool("inclusive")
    mode = c.choice("mode", ["both", "start", "end"])
    a = b = None
    ka, kb = 0, n - 1
    if mode != "end":
        ka = c.int("ka", 1)
        a = (ka + c.real("fa", 0.05, 0.95)) / fs
    if mode != "start":
        kb = c.int("kb", 1)
        b = (kb + c.real("fb", 0.05, 0.95)) / fs
    c.requires(ka < n, kb < n)
    lo = ka if (incl or mode == "end") else ka + 1
    hi = n if mode == "start" else (kb + 1 if incl else kb)
    c.requires(hi - lo >= 2, m <= hi - lo)
    out = c.dsp.trim_with_time_selection(s, a, b, incl)
    c.shape("length", out.time_data, (hi - lo, m))
    c.forall("samples", (hi - lo, m), lambda i, ch: (out.time_data[i, ch], x0[i + lo, ch]))
    c.unchanged("input", s.time_data, x0)


def level_case(c, at):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    db = c.real("threshold_db", -30.0, 6.0)
    thr = c.dsp.tools.from_db(db, True)
    hot, hch = c.int("hot", 0, typ=(0, 4)), c.int("hotch", 0, typ=(0, 1))
    c.requires(hot < n, hch < m)
    c.requires(abs(x0[hot, hch]) >= thr)
    out, a, b = c.dsp.trim_with_level_threshold(s, db, at != "end", at != "start")
    return s, x0, n, m, thr, hot, out, a, b


def mk_level(at):
    def level(c):
        s, x0, n, m, thr, hot, out, a, b = level_case(c, at)
        c.ensure("range", c.and_(0 <= a, a <= hot, hot < b, b <= n))
        if at == "end":
            c.ensure("start kept", a == 0)
        else:
            c.forall("quiet before start", (n, m), lambda i, ch: abs(x0[i, ch]) < thr, when=lambda i, ch: i < a)
            c.ensure("start reaches threshold", c.not_(c.all_(m, lambda ch: abs(x0[a, ch]) < thr)))
        if at == "start":
            c.ensure("end kept", b == n)
        else:
            c.forall("quiet after stop", (n, m), lambda i, ch: abs(x0[i, ch]) < thr, when=lambda i, ch: i >= b)
            c.ensure("last reaches threshold", c.not_(c.all_(m, lambda ch: abs(x0[b - 1, ch]) < thr)))
    level.__name__ = "trim_level_" + at
    contract("T02", ["standard.pad_trim_methods:trim_with_level_threshold"], trials=100, sym_timeout=300)(level)

    def samples(c):
        s, x0, n, m, thr, hot, out, a, b = level_case(c, at)
        c.requires(0 <= a, a < b, b <= n, m <= b - a)
        c.shape("length", out.time_data, (b - a, m))
        c.forall("samples", (b - a, m), lambda i, ch: (out.time_data[i, ch], x0[i + a, ch]))
        c.unchanged("input", s.time_data, x0)
    samples.__name__ = "trim_level_samples_" + at
    contract("T02", ["standard.pad_trim_methods:trim_with_level_threshold"], trials=100, sym_timeout=300)(samples)


for _at in ("both", "start", "end"):
    mk_level(_at)


# ------------------------------------------------------------------ T03
@contract("T03", ["standard.latency_delay:delay", "helpers.other:_pad_trim"])
def delay_samples(c):
    s, x, n, m, fs = signal(c)
    x0 = c.snap(x)
    d = c.int("delay", 0, typ=(0, 12))
    keep = c.bool("keep_length")
    if keep:
        c.requires(d < n)
    sel = c.choice("channels", ["all", "one", "two", "array"])
    if sel == "all":
        chs, hit = None, lambda ch: True
    elif sel == "one":
        c1 = c.int("c1", 0)
        c.requires(c1 < m)
        chs, hit = c1, lambda ch: ch == c1
    else:
        c1, c2 = c.int("c1", 0), c.int("c2", 0)
        c.requires(c1 < m, c2 < m, c1 != c2)
        chs, hit = [c1, c2], lambda ch: c.or_(ch == c1, ch == c2)
        if sel == "array":
            chs = c.np.array(chs)
    out = c.dsp.delay(s, d, chs, keep)
    L = n if keep else n + d
    c.shape("length", out.time_data, (L, m))

    def spec(i, ch):
        t = c.where(hit(ch), i - d, i)
        return c.where(c.and_(t >= 0, t < n), x0[c.min(c.max(t, 0), n - 1), ch], 0.0)
    c.eq("samples", out.time_data, c.arr((L, m), spec))
    c.eq("fs", out.sampling_rate_hz, fs)
    c.unchanged("input", s.time_data, x0)


@contract("T03", ["standard.latency_delay:delay"], bounded="two bands")
def delay_multiband(c):
    mb, xs, n, m, fs = multiband(c, 2)
    x0 = [c.snap(x) for x in xs]
    d = c.int("delay", 1, typ=(1, 12))
    out = c.dsp.delay(mb, d)
    for k in range(2):
        c.forall("samples", (n + d, m), lambda i, ch: (out.bands[k].time_data[i, ch], c.where(i >= d, x0[k][c.max(i - d, 0), ch], 0.0)))
        c.shape("length", out.bands[k].time_data, (n + d, m))
        c.unchanged("input", mb.bands[k].time_data, x0[k])


@contract("T03", ["standard.latency_delay:delay"])
def delay_rejects(c):
    s, x, n, m, fs = signal(c)
    bad = c.int("bad", 0)
    c.requires(bad >= m)
    c.raises("invalid channel", AssertionError, lambda: c.dsp.delay(s, 1, bad))
    d = c.int("delay", 1)
    c.requires(d >= n)
    c.raises("too long", AssertionError, lambda: c.dsp.delay(s, d, None, True))


# ------------------------------------------------------------------ T05
@contract("T05", ["helpers.polyphase:_polyphase_decomposition", "helpers.polyphase:_polyphase_reconstruction"])
def polyphase(c):
    n, m = c.dim("n", 1), c.dim("m", 1, typ=(1, 3))
    M = c.dim("M", 1, typ=(1, 9))
    x = c.array("x", (n, m))
    x0 = c.snap(x)
    P = c.dsp.helpers.polyphase
    poly, pad = P._polyphase_decomposition(x, M)
    K = c.ceil_div(n, M)
    c.shape("components", poly, (K, M, m))
    z = K * M - n
    c.eq("padding", pad, z)
    c.forall("placement", (K, M, m), lambda r, k, ch: (poly[r, k, ch], c.where(r * M + k >= z, x0[c.max(r * M + k - z, 0), ch], 0.0)))
    back = P._polyphase_reconstruction(poly)
    c.shape("length", back, (K * M, m))
    c.forall("round trip", (K * M, m), lambda i, ch: (back[i, ch], c.where(i >= z, x0[c.max(i - z, 0), ch], 0.0)))
    c.unchanged("input", x, x0)


@contract("T05", ["helpers.polyphase:_polyphase_decomposition"])
def polyphase_flip_1d(c):
    n, M = c.dim("n", 1), c.dim("M", 1, typ=(1, 9))
    x = c.array("x", (n,))
    P = c.dsp.helpers.polyphase
    a, _ = P._polyphase_decomposition(x, M)
    b, _ = P._polyphase_decomposition(x, M, flip=True)
    K = c.ceil_div(n, M)
    c.shape("components", b, (K, M, 1))
    c.forall("flipped", (K, M), lambda r, k: (b[r, k, 0], a[r, M - 1 - k, 0]))


@contract("T05", ["helpers.polyphase:_polyphase_reconstruction"])
def polyphase_reconstruct(c):
    K, M, m = c.dim("K", 1), c.dim("M", 1, typ=(1, 6)), c.dim("m", 1, typ=(1, 3))
    p = c.array("poly", (K, M, m))
    back = c.dsp.helpers.polyphase._polyphase_reconstruction(p)
    c.shape("length", back, (K * M, m))
    c.forall("placement", (K, M, m), lambda r, k, ch: (back[r * M + k, ch], p[r, k, ch]))
