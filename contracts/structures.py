"""F08: Kautz, parallel, warped and lattice filters"""
from ._h import contract, signal
from .realtime import lfilter_np

KF = "classes.kautz_filter:KautzFilter"
PF = "classes.parallel_filter:ParallelFilter"
WF = "classes.warped_filters:"
LF = "classes.lattice_ladder_filter:"


def samplewise(c, f, x):
    """the real-time path, channels interleaved"""
    n, m = x.shape
    f.set_n_channels(m)
    f.reset_state()
    y = c.np.zeros((n, m))
    for i in range(n):
        for ch in reversed(range(m)):
            y[i, ch] = f.process_sample(x[i, ch], ch)
    return y


def poles(c, nmax=3):
    k = c.int("real_poles", 0, nmax)
    q = c.int("complex_poles", 0, nmax)
    c.requires(k + q > 0)
    np = c.np
    pr = c.array("pr", (max(k, 1),), lo=-0.8, hi=0.8)[:k]
    r = c.array("radius", (max(q, 1),), lo=0.1, hi=0.8)[:q]
    w = c.array("angle", (max(q, 1),), lo=0.1, hi=3.0)[:q]
    return k, q, np.hstack([pr + 0j, r * np.exp(1j * w)])


@contract("F08", [KF + ".process_sample", KF + ".filter_signal"], sym=False, bounded="up to 3 real and 3 complex poles, signals up to 60 samples", trials=100)
def kautz_paths(c):
    k, q, p = poles(c)
    s, x, n, m, fs = signal(c, fs=100, lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.KautzFilter(p, fs)
    f.set_filter_coefficients(c.array("cr", (max(k, 1),), lo=-1.0, hi=1.0)[:k], c.array("cc", (2 * max(q, 1),), lo=-1.0, hi=1.0)[: 2 * q])
    y = f.filter_signal(s).time_data
    c.eq("sample by sample equals block", samplewise(c, f, x), y)


@contract("F08", [KF + ".filter_signal"], sym=False, bounded="up to 3 real and 3 complex poles", trials=60)
def kautz_orthonormal(c):
    """the tap outputs of the impulse response are orthonormal"""
    k, q, p = poles(c)
    np = c.np
    d = c.dsp.Signal(None, np.eye(1, 400).T, 100)
    f = c.dsp.filterbanks.KautzFilter(p, 100)
    t = []
    for i in range(k + 2 * q):
        e = np.eye(k + 2 * q)[i]
        f.set_filter_coefficients(e[:k], e[k:])
        t.append(f.filter_signal(d).time_data[:, 0])
    t = np.array(t)
    c.eq("orthonormal", t @ t.T, np.eye(k + 2 * q), tol=1e-4)


@contract("F08", [PF + ".process_sample", PF + ".filter_signal", PF + ".set_coefficients"], sym=False, bounded="up to 3 complex poles, signals up to 60 samples", trials=100)
def parallel_paths(c):
    np = c.np
    q = c.int("complex_poles", 1, 3)
    r = c.array("radius", (q,), lo=0.2, hi=0.8)
    w = np.linspace(0.4, 2.5, q) + c.array("angle", (q,), lo=-0.05, hi=0.05)
    nf = c.int("fir", 0, 4)
    delay = c.int("delay", 0, 3)
    ir = c.array("ir", (64, 1), lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.ParallelFilter(r * np.exp(1j * w), nf, 100)
    f.set_parameters(delay, c.choice("offset", [0.0, 20.0]))
    f.fit_to_ir(c.dsp.ImpulseResponse(None, ir * np.exp(-np.arange(64)[:, None] / 8), 100))
    if c.choice("own_coefficients", [0, 1]):
        fc = c.array("new_fir", (3,), lo=-1.0, hi=1.0)
        f.set_coefficients(c.array("new_iir", (q, 2), lo=-1.0, hi=1.0), [None, fc, fc[:1]][c.choice("with_fir", [0, 1, 2])])
    # an ill-conditioned fit cancels large terms, which leaves only rounding noise to compare
    c.requires(all(np.max(np.abs(g.b)) < 1e4 for g in f.iir) and (f.n_fir < 2 or np.max(np.abs(f.fir.b)) < 1e4))
    s, x, n, m, fs = signal(c, fs=100, lo=-1.0, hi=1.0)
    y = f.filter_signal(s).time_data
    c.eq("sample by sample equals block", samplewise(c, f, x), y)
    c.eq("again after a reset", samplewise(c, f, x), y)


def warped(c, v, lam, order):
    """coefficients of sum v_k D^k over the common denominator (1 - lam z^-1)^order"""
    np = c.np
    out = np.zeros(order + 1)
    for k in range(len(v)):
        p = np.array([v[k]])
        for _ in range(k):
            p = np.convolve(p, [-lam, 1.0])
        for _ in range(order - k):
            p = np.convolve(p, [1.0, -lam])
        out += p
    return out


@contract("F08", [WF + "WarpedFIR.process_sample", WF + "WarpedFIR.filter_signal"], sym=False, bounded="up to 6 coefficients, signals up to 60 samples", trials=100)
def warped_fir_paths(c):
    k = c.int("taps", 1, 6)
    b = c.array("b", (k,), lo=-1.0, hi=1.0)
    lam = c.real("lam", -0.8, 0.8)
    s, x, n, m, fs = signal(c, fs=100, lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.WarpedFIR(b.copy(), lam, fs)
    y = f.filter_signal(s).time_data
    den = warped(c, [1.0], lam, k - 1)
    ref = c.np.array([lfilter_np(c, warped(c, b, lam, k - 1), den, x[:, ch]) for ch in range(m)]).T
    c.eq("warped transfer function", y, ref)
    c.eq("sample by sample equals block", samplewise(c, f, x), y)


@contract("F08", [WF + "WarpedIIR.process_sample", WF + "WarpedIIR.filter_signal"], sym=False, bounded="up to 5 coefficients, signals up to 60 samples", trials=100)
def warped_iir_paths(c):
    kb, ka = c.int("nb", 1, 5), c.int("na", 2, 5)
    b = c.array("b", (kb,), lo=-1.0, hi=1.0)
    a = c.array("a", (ka,), lo=-0.1, hi=0.1).copy()
    a[0] = c.real("a0", 0.8, 2.0)
    lam = c.real("lam", -0.7, 0.7)
    s, x, n, m, fs = signal(c, fs=100, lo=-1.0, hi=1.0)
    f = c.dsp.filterbanks.WarpedIIR(b.copy(), a.copy(), lam, fs)
    y = f.filter_signal(s).time_data
    K = max(ka, kb) - 1
    ref = c.np.array([lfilter_np(c, warped(c, b, lam, K), warped(c, a, lam, K), x[:, ch]) for ch in range(m)]).T
    c.eq("warped transfer function", y, ref, tol=1e-5)
    c.eq("sample by sample equals block", samplewise(c, f, x), y)


@contract("F08", [LF + "LatticeLadderFilter.filter_signal", LF + "LatticeLadderFilter.process_sample", LF + "LatticeLadderFilter.from_filter"], sym=False,
          bounded="order up to 5 or 3 sections, signals up to 60 samples", trials=150)
def lattice_paths(c):
    kind = c.choice("kind", ["iir", "sos", "fir"])
    np = c.np
    F = c.dsp.Filter
    s, x, n, m, fs = signal(c, fs=100, lo=-1.0, hi=1.0)
    if kind == "sos":
        ns = c.int("sections", 1, 3)
        sos = c.array("sos", (ns, 6), lo=-0.3, hi=0.3).copy()
        sos[:, 3] = c.choice("a0", [1.0, 2.0])
        flt = F.from_sos(sos.copy(), fs)
        secs = [(v[:3], v[3:]) for v in sos]
    else:
        nb = c.int("order", 1, 5) + 1
        b = c.array("b", (nb,), lo=-0.15, hi=0.15).copy()
        b[0] = c.choice("b0", [1.0, 0.5])
        a = c.array("a", (c.int("na", 2, 6),), lo=-0.15, hi=0.15).copy() if kind == "iir" else np.zeros(1)
        a[0] = c.choice("a_0", [1.0, 2.0])
        if kind == "fir":
            b[1:] *= b[0]
        c.requires(abs(a[-1]) > 1e-3)
        c.requires(abs(b[-1]) > 1e-3)
        flt = F.from_ba(b.copy(), a.copy(), fs)
        secs = [(b, a)]
    f = c.dsp.filterbanks.LatticeLadderFilter.from_filter(flt)
    f.set_n_channels(m)
    y = f.filter_signal(s).time_data
    c.eq("sample by sample equals block", samplewise(c, f, x), y)
    ref = x
    for bb, aa in secs:
        ref = np.array([lfilter_np(c, bb, aa, ref[:, ch]) for ch in range(m)]).T
    c.eq("the original filter", y, ref)
    if kind != "sos" or flt.sos[0, 3] == 1.0:
        c.eq("the original filter is unchanged", flt.filter_signal(s).time_data, ref)
