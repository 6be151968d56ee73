"""R01: room acoustics."""
from ._h import contract

RM = "room_acoustics._room_acoustics:"
RA = "room_acoustics.room_acoustics:"


@contract("R01", [RM + "Room.__init__", RM + "ShoeboxRoom.__init__", RM + "Room.modal_density", RM + "ShoeboxRoom.get_mixing_time"])
def room_quantities(c):
    """volume, area, reverberation time, absorption, Schroeder frequency, critical distance, modal density and mixing time equal
    their defining formulas, whichever of reverberation time and absorption is given"""
    np = c.np
    given = c.choice("given", ["absorption", "reverberation time"])
    a = c.real("absorption", 0.01, 0.99)
    d = c.array("dimensions", (3,), lo=0.5, hi=30)
    V, S = d[0] * d[1] * d[2], 2 * (d[0] * d[1] + d[0] * d[2] + d[1] * d[2])
    T = c.real("t60", 0.05, 8)
    if given == "absorption":
        T = 0.161 * V / S / a
    else:
        a = 0.161 * V / S / T
        c.requires(c.and_(a > 0.001, a <= 0.999))
    kw = dict(absorption_coefficient=a) if given == "absorption" else dict(t60_s=T)
    R = c.dsp.room_acoustics
    r = R.ShoeboxRoom(d.copy(), **kw)
    c.eq("volume", r.volume, V)
    c.eq("area", r.area, S)
    c.eq("reverberation time", r.t60_s, T)
    c.eq("absorption", r.absorption_coefficient, a)
    c.eq("Schroeder frequency", r.schroeders_frequency, 2000 * np.sqrt(T / V))
    c.eq("critical distance", r.critical_distance_m, 0.057 * np.sqrt(V / T))
    f, v = c.real("f", 1, 5000), c.real("speed of sound", 300, 400)
    c.eq("modal density", r.modal_density(f, v), 4 * np.pi * f ** 2 * V / v ** 3 + np.pi * f * S / (2 * v ** 2))
    c.eq("perceptual mixing time", r.get_mixing_time("perceptual"), (0.58 * np.sqrt(V) + 21.2) / 1000)
    k = c.int("reflections", 1, 10000)
    c.eq("physical mixing time", r.get_mixing_time("physical", k, v), np.sqrt(k * V / (4 * np.pi * v ** 3)))


@contract("R01", [RM + "Room.__init__"])
def impossible_rooms(c):
    """an absorption outside of ]0, 1], given or following from the reverberation time, is refused"""
    d = c.array("dimensions", (3,), lo=0.5, hi=30)
    V, S = d[0] * d[1] * d[2], 2 * (d[0] * d[1] + d[0] * d[2] + d[1] * d[2])
    R = c.dsp.room_acoustics
    kind = c.choice("kind", ["absorption", "time", "dimensions"])
    a = c.real("absorption", -1, 3)
    if kind != "dimensions":
        c.requires(c.or_(a < -0.001, a > 1.001))
    if kind == "absorption":
        c.raises("absorption", AssertionError, lambda: R.ShoeboxRoom(d, absorption_coefficient=a))
    elif kind == "time":
        c.raises("reverberation time", AssertionError, lambda: R.ShoeboxRoom(d, t60_s=0.161 * V / S / a))
    else:
        i, v = c.int("axis", 0, 2), c.real("size", -3, 0)
        e = c.arr((3,), lambda k: c.where(c.and_(k >= i, k <= i), v, d[k]))
        c.raises("dimensions", AssertionError, lambda: R.ShoeboxRoom(e, absorption_coefficient=0.5))


@contract("R01", [RM + "ShoeboxRoom.check_if_in_room"])
def inside(c):
    """a point is in the room exactly when all of its coordinates lie between zero and the dimensions"""
    d = c.array("dimensions", (3,), lo=0.5, hi=30)
    p = c.array("point", (3,), lo=-10, hi=40)
    r = c.dsp.room_acoustics.ShoeboxRoom(d.copy(), absorption_coefficient=0.3)
    got = r.check_if_in_room(p)
    want = c.and_(*[c.and_(p[i] >= 0, p[i] <= d[i]) for i in range(3)])
    if got:
        c.ensure("reported inside", want)
    else:
        c.ensure("reported outside", c.not_(want))


@contract("R01", [RM + "ShoeboxRoom.get_room_modes"], sym=False, bounded="orders up to 6")
def room_modes_sorted(c):
    np = c.np
    d = c.array("dimensions", (3,), lo=0.5, hi=30)
    k, v = c.int("order", 0, 6), c.real("speed of sound", 300, 400)
    m = c.dsp.room_acoustics.ShoeboxRoom(d.copy(), absorption_coefficient=0.3).get_room_modes(k, v)
    c.shape("shape", m, ((k + 1) ** 3 - 1, 4))
    c.eq("eigenfrequency", m[:, 0], v / 2 * np.sqrt(np.sum((m[:, 1:] / d) ** 2, axis=1)))
    c.ensure("sorted", bool((np.diff(m[:, 0]) >= 0).all()))
    orders = set(map(tuple, m[:, 1:].astype(int)))
    c.ensure("every order once", orders == {(a, b, e) for a in range(k + 1) for b in range(k + 1) for e in range(k + 1)} - {(0, 0, 0)})


@contract("R01", [RM + "ShoeboxRoom.get_analytical_transfer_function"], sym=False, bounded="orders up to 3")
def modal_sum(c):
    """the analytical transfer function is the sum over the modes of the room"""
    np = c.np
    d = c.array("dimensions", (3,), lo=1, hi=10)
    k, v = c.int("order", 1, 3), c.real("speed of sound", 300, 400)
    s, r = c.array("source", (3,), lo=0, hi=1), c.array("receiver", (3,), lo=0, hi=1)
    T = c.real("t60", 0.5, 3)
    f = np.sort(c.array("f", (7,), lo=5, hi=500))
    room = c.dsp.room_acoustics.ShoeboxRoom(d.copy(), absorption_coefficient=0.3)
    room.t60_s = T
    p, modes, _ = room.get_analytical_transfer_function(s, r, f, k, False, v)
    eta = np.log(1000) / T
    want = np.zeros(7, complex)
    for nx in range(k + 1):
        for ny in range(k + 1):
            for nz in range(k + 1):
                o = np.array([nx, ny, nz])
                if not o.any():
                    continue
                ks = o * np.pi / d
                wn = v * np.sqrt(np.sum(ks ** 2))
                norm = 8 / 2 ** np.count_nonzero(o)
                want += np.prod(np.cos(ks * s) * np.cos(ks * r)) / (norm * (wn ** 2 + 2j * eta * wn - (2 * np.pi * f) ** 2))
    c.eq("sum over the modes", p, want * 8 * v ** 2 / np.prod(d))
    c.shape("modes", modes, ((k + 1) ** 3 - 1, 4))


@contract("R01", [RM + "ShoeboxRoom.add_detailed_absorption"], sym=False, bounded="up to eight bands")
def wall_absorption(c):
    """the absorption area per band is the sum over the walls, missing bands take the last value, single values hold for all bands"""
    np = c.np
    d = c.array("dimensions", (3,), lo=1, hi=10)
    names = ["north", "south", "east", "west", "floor", "ceiling"]
    k = {w: c.int("bands " + w, 1, 8) for w in names}
    vals = {w: c.array(w, (k[w],), lo=0.02, hi=0.98) for w in names}
    given = {w: (float(vals[w][0]) if k[w] == 1 else vals[w].copy()) for w in names}
    kept = {w: (v if isinstance(v, float) else v.copy()) for w, v in given.items()}
    room = c.dsp.room_acoustics.ShoeboxRoom(d.copy(), absorption_coefficient=0.3)
    room.add_detailed_absorption(given)
    c.ensure("dictionary unchanged", set(given) == set(names) and all(np.array_equal(given[w], kept[w]) for w in names))
    B = max(k.values())
    full = {w: np.concatenate([vals[w], np.repeat(vals[w][-1], B - k[w])]) for w in names}
    area = d[0] * d[1] * (full["floor"] + full["ceiling"]) + d[0] * d[2] * (full["north"] + full["south"]) \
        + d[1] * d[2] * (full["east"] + full["west"])
    D = room.detailed_absorption
    V, S = np.prod(d), 2 * (d[0] * d[1] + d[0] * d[2] + d[1] * d[2])
    c.eq("absorption area", D["absorption_area"], area)
    c.eq("centre frequencies", D["center_frequencies"], 125.0 * 2 ** np.arange(B))
    c.eq("mean absorption", D["mean_absorption_coefficients_per_frequency"], area / S)
    c.eq("reverberation time per band", D["t60_s_per_frequency"], 0.161 * V / area)
    for w in names:
        c.eq("matrix", D["absorption_matrix"][D["index_wall_dictionary"][w]], full[w])
    wt = 2.0 ** np.arange(B) / (2 ** B - 1)
    c.eq("absorption", room.absorption_coefficient, np.sum(wt * area / S))
    c.eq("reverberation time", room.t60_s, 0.161 * V / S / np.sum(wt * area / S))


@contract("R01", [RA + "generate_synthetic_rir", RM + "_generate_rir"], sym=False, bounded="rooms from 3 to 6 m, responses of 30 ms (order 4)")
def image_sources(c):
    """a synthetic response is the sum over the image sources, each damped by the walls it was reflected at and by its distance"""
    np = c.np
    d = c.array("dimensions", (3,), lo=3, hi=6)
    s, r = c.array("source", (3,), lo=0.1, hi=1.9), c.array("receiver", (3,), lo=0.1, hi=1.9)
    c.requires(np.sum((s - r) ** 2) > 0.04)
    fs, L = 8000, 0.03
    a = c.real("absorption", 0.1, 0.6)
    R = c.dsp.room_acoustics
    room = R.ShoeboxRoom(d.copy(), absorption_coefficient=a)
    detailed = c.choice("walls", ["equal", "different"])
    n = int(L * fs)
    alpha = np.ones((3, 2)) * a
    if detailed == "equal":
        got = R.generate_synthetic_rir(room, s, r, fs, L, max_order=4).time_data[:, 0]
    else:
        gen = getattr(R._room_acoustics, "_generate_rir", None)
        c.requires(gen is not None)
        names = [["west", "east"], ["south", "north"], ["floor", "ceiling"]]
        alpha = np.array([[c.real(w, 0.1, 0.9) for w in pair] for pair in names])
        order = ["north", "south", "east", "west", "floor", "ceiling"]
        vec = np.array([alpha[i][j] for w in order for i in range(3) for j in range(2) if names[i][j] == w])
        got = gen(d.copy(), vec, s, r, room.t60_s, 4, fs)[:n]
    beta = np.sqrt(1 - alpha)
    k = 4
    l = np.arange(-k, k + 1)
    want = np.zeros(n + 1)
    # along every axis: position of the image, and its damping by the wall at the origin and the wall at the end
    ax = []
    for i in range(3):
        ax.append([((1 - 2 * u) * s[i] + 2 * m * d[i] - r[i], beta[i, 0] ** abs(m - u) * beta[i, 1] ** abs(m)) for m in l for u in (0, 1)])
    P = [np.array([e[0] for e in x]) for x in ax]
    G = [np.array([e[1] for e in x]) for x in ax]
    dist = np.sqrt(P[0][:, None, None] ** 2 + P[1][None, :, None] ** 2 + P[2][None, None, :] ** 2)
    damp = G[0][:, None, None] * G[1][None, :, None] * G[2][None, None, :]
    t = dist / 343 * fs + 0.5
    keep = t < n
    c.requires(np.abs(t[keep] - np.round(t[keep])).min() > 1e-9)
    np.add.at(want, t[keep].astype(int), (damp / (4 * np.pi * dist))[keep])
    c.shape("shape", got, (n,))
    c.requires(343 * 1.1 * room.t60_s / 2 > 343 * L)
    c.eq("image sources", got, want[:n], 1e-6)


def _start(c, ir):
    """first sample of the response, as found by the library (of its own contract)"""
    return c.dsp.room_acoustics.find_ir_start(ir)[0]


def _response(c, window):
    n, fs = c.dim("n", 40), c.int("fs", 100, 400)
    x = c.array("x", (n, 1), lo=-0.9, hi=0.9)
    i0 = c.int("start", 0, n - 1)
    c.stub("room_acoustics._room_acoustics:_find_ir_start", lambda *a, **k: i0)
    c.stub("room_acoustics.room_acoustics:_find_ir_start", lambda *a, **k: i0)
    ir = c.dsp.ImpulseResponse(None, x.copy(), fs, constrain_amplitude=False)
    start = _start(c, ir)
    w = c.toint(window * fs)
    c.requires(start + w < n)
    if not c.symbolic:
        c.requires(abs(window * fs - round(window * fs)) > 1e-6)
    return ir, x[:, 0], n, fs, start, w


@contract("R01", [RA + "descriptors", RM + "_d50_from_rir"])
def definition(c):
    """D50 is the share of the energy in the first 50 ms from the start of the response"""
    ir, x, n, fs, i0, w = _response(c, 0.05)
    total = c.sum(n - i0, lambda i: x[i0 + i] ** 2)
    c.requires(total > 0.01)
    got = c.dsp.room_acoustics.descriptors(ir, c.dsp.room_acoustics.RoomAcousticsDescriptor.D50, False)
    c.shape("shape", got, (1,))
    c.eq("energy ratio", got[0], c.sum(w, lambda i: x[i0 + i] ** 2) / total)
    c.unchanged("response", ir.time_data[:, 0], x)


@contract("R01", [RA + "descriptors", RM + "_c80_from_rir"])
def clarity(c):
    """C80 is the level of the energy in the first 80 ms relative to the later energy"""
    ir, x, n, fs, i0, w = _response(c, 0.08)
    early, late = c.sum(w, lambda i: x[i0 + i] ** 2), c.sum(n - i0 - w, lambda i: x[i0 + w + i] ** 2)
    c.requires(c.and_(early > 0.01, late > 0.01))
    c.requires(early / late > 1e-5)
    got = c.dsp.room_acoustics.descriptors(ir, c.dsp.room_acoustics.RoomAcousticsDescriptor.C80, False)
    c.eq("level", got[0], 10 * c.np.log10(early / late))
    c.unchanged("response", ir.time_data[:, 0], x)


@contract("R01", [RA + "descriptors", RM + "_ts_from_rir"])
def centre_time(c):
    """the centre time is the first moment of the energy after the start of the response"""
    ir, x, n, fs, i0, w = _response(c, 0.01)
    total = c.sum(n - i0, lambda i: x[i0 + i] ** 2)
    c.requires(total > 0.01)
    got = c.dsp.room_acoustics.descriptors(ir, c.dsp.room_acoustics.RoomAcousticsDescriptor.CenterTime, False)
    c.eq("first moment", got[0], c.sum(n - i0, lambda i: x[i0 + i] ** 2 * (i / fs)) / total)
    c.unchanged("response", ir.time_data[:, 0], x)


@contract("R01", [RA + "descriptors", RM + "_d50_from_rir", RM + "_c80_from_rir", RM + "_ts_from_rir"], sym=False,
          bounded="responses up to 600 samples, up to 3 channels and bands")
def descriptors(c):
    """descriptors are computed per channel and band and do not depend on the gain"""
    np = c.np
    n, m, fs = c.int("n", 150, 600), c.int("ch", 1, 3), 1000
    x = c.array("x", (n, m), lo=-1, hi=1) * 10 ** (-np.arange(n) / n)[:, None]
    x[c.int("first", 0, 40)] = 1.0
    D = c.dsp.room_acoustics.RoomAcousticsDescriptor
    kind = c.choice("kind", [D.D50, D.C80, D.CenterTime])
    f = c.dsp.room_acoustics.descriptors

    def ir(v):
        return c.dsp.ImpulseResponse(None, v.copy(), fs, constrain_amplitude=False)
    got = f(ir(x), kind, False)
    c.shape("shape", got, (m,))
    for j in range(m):
        c.eq("channel by channel", got[j], f(ir(x[:, j:j + 1]), kind, False)[0])
        i0 = int(c.dsp.room_acoustics.find_ir_start(ir(x[:, j:j + 1]))[0])
        e = x[i0:, j] ** 2
        want = {D.D50: e[:50].sum() / e.sum(), D.C80: 10 * np.log10(e[:80].sum() / e[80:].sum()),
                D.CenterTime: (e * np.arange(len(e))).sum() / fs / e.sum()}[kind]
        c.eq("definition", got[j], want)
    c.eq("independent of the gain", f(ir(x * 0.3), kind, False), got)
    mb = c.dsp.MultiBandSignal([ir(x), ir(x * 0.5), ir(x[::-1])])
    b = f(mb, kind, False)
    c.shape("shape of bands", b, (3, m))
    c.eq("band by band", b, np.array([got, got, f(ir(x[::-1]), kind, False)]))


@contract("R01", [RA + "find_ir_start", RM + "_find_ir_start"], sym=False, bounded="responses up to 400 samples, 1 to 3 channels")
def ir_start(c):
    """the start is the last sample before the peak that lies below the threshold (relative to the peak), or the first sample"""
    np = c.np
    n, m = c.int("n", 10, 400), c.int("ch", 1, 3)
    x = c.array("x", (n, m), lo=-1, hi=1) ** 5
    thr = c.choice("threshold", [-20.0, -6.0, -1.0, -40.0])
    got = c.dsp.room_acoustics.find_ir_start(c.dsp.ImpulseResponse(None, x.copy(), 48000, constrain_amplitude=False), thr)
    c.shape("shape", got, (m,))
    for j in range(m):
        a = np.abs(x[:, j])
        p = int(np.argmax(a))
        below = np.where(a[:p] < a[p] * 10 ** (thr / 20))[0]
        c.eq("start", int(got[j]), int(below[-1]) if len(below) else 0)


@contract("R01", [RA + "convolve_rir_on_signal"], sym=False, bounded="signals up to 500 samples, 1 to 3 channels")
def auralization(c):
    """every channel is convolved with the response; length and peak level are kept on request"""
    np = c.np
    n, k, m = c.int("n", 2, 500), c.int("k", 1, 300), c.int("ch", 1, 3)
    x, h = c.array("x", (n, m), lo=-1, hi=1), c.array("h", (k, 1), lo=-1, hi=1)
    h[0] = 1.0
    c.requires(np.abs(x).max(axis=0).min() > 1e-2 and m <= n)
    peak, length = c.choice("keep peak", [True, False]), c.choice("keep length", [True, False])
    s = c.dsp.Signal(None, x.copy(), 1000, constrain_amplitude=False)
    y = c.dsp.room_acoustics.convolve_rir_on_signal(s, c.dsp.ImpulseResponse(None, h, 1000, constrain_amplitude=False), peak, length)
    want = np.array([np.convolve(x[:, j], h[:, 0]) for j in range(m)]).T
    want = want[:n] if length else want
    if peak:
        want = want * (np.abs(x).max(axis=0) / np.abs(want).max(axis=0))
    c.eq("convolution", y.time_data, want)
    c.unchanged("signal", s.time_data, x)


@contract("R01", [RA + "reverb_time", RM + "_reverb", RM + "_compute_energy_decay_curve"], sym=False, tol=1e-6,
          bounded="exponential decays with reverberation times between 0.2 and 1.5 s, within 5 percent")
def decay(c):
    """the reverberation time of an exponential decay is its decay time, in every channel and band, whatever the gain and the delay"""
    np = c.np
    fs = c.choice("fs", [4000, 8000])
    T = [c.real("T", 0.2, 1.5), c.real("other T", 0.2, 1.5)]
    pre = c.int("delay", 10, 300)
    n = int(1.5 * max(T) * fs)
    t = np.arange(n) / fs
    sign = np.where(np.arange(n) * 0.61803398875 % 1 > 0.5, 1, -1)
    x = np.zeros((n + pre, 2))
    for j in range(2):
        x[pre:, j] = sign * 10 ** (-3 * t / T[j])
    g = c.real("gain", 0.05, 1)
    M = c.dsp.room_acoustics.ReverbTime
    mode = c.choice("mode", [M.T20, M.T30, M.T60])
    ir = c.dsp.ImpulseResponse(None, x * g, fs, constrain_amplitude=False)
    f = c.dsp.room_acoustics.reverb_time
    got, corr = f(ir, mode, automatic_trimming=False)
    c.shape("shape", got, (2,))
    c.ensure("reverberation time", bool((np.abs(got / np.array(T) - 1) < 0.05).all()))
    c.ensure("correlation", bool((np.abs(corr) <= 1 + 1e-12).all()))
    b, _ = f(c.dsp.MultiBandSignal([ir, c.dsp.ImpulseResponse(None, x[:, ::-1] * g, fs, constrain_amplitude=False)]), mode, automatic_trimming=False)
    c.eq("band by band", b, np.array([got, got[::-1]]))
    c.unchanged("response", ir.time_data, x * g)


@contract("R01", [RA + "find_modes"], sym=False, bounded="responses of one or two modes, rates up to 2 kHz")
def modes_found(c):
    """well separated resonances are found at their frequencies, and the response keeps its settings"""
    np = c.np
    fs = c.choice("fs", [1000, 1600])
    f1, f2 = c.int("f1", 60, 90), c.int("f2", 120, 180)
    t = np.arange(fs) / fs
    x = (np.sin(2 * np.pi * f1 * t) + 0.8 * np.sin(2 * np.pi * f2 * t)) * np.exp(-6 * t)
    m = c.int("ch", 1, 2)
    ir = c.dsp.ImpulseResponse(None, np.repeat(x[:, None], m, axis=1), fs, constrain_amplitude=False)
    ir.spectrum_method = c.dsp.SpectrumMethod.WelchPeriodogram
    got = c.dsp.room_acoustics.find_modes(ir, [50, 200], 5, 10.0)
    c.ensure("modes", len(got) == 2 and abs(got[0] - f1) <= 1 and abs(got[1] - f2) <= 1)
    c.ensure("settings kept", ir.spectrum_method == c.dsp.SpectrumMethod.WelchPeriodogram)
