"""B01: beamforming geometry."""
import numpy as _np
from ._h import contract

BP = "beamforming._beamforming:BasePoints."
BM = "beamforming.beamforming:"


def points(c, name, n, cls="Grid", lo=-20, hi=20, spread=True):
    """a grid or microphone array with n free points, and its coordinates"""
    x, y, z = (c.array(f"{name}_{k}", (n,), lo=lo, hi=hi) for k in "xyz")
    r = c.arr((n, 3), lambda i, k: c.where(k <= 0, x[i], c.where(k <= 1, y[i], z[i])))
    if spread:          # keeps one case of the number of dimensions, which plays no role for the caller
        c.requires(c.and_(n >= 2, c.not_(c.and_(r[0, 0] <= r[1, 0], r[0, 0] >= r[1, 0])), c.not_(c.and_(r[0, 1] <= r[1, 1], r[0, 1] >= r[1, 1])),
                          c.not_(c.and_(r[0, 2] <= r[1, 2], r[0, 2] >= r[1, 2]))))
    return getattr(c.dsp.beamforming, cls)(dict(x=x.copy(), y=y.copy(), z=z.copy())), r


def dist(c, r, i, q, j):
    np = c.np
    return np.sqrt((r[i, 0] - q[j, 0]) ** 2 + (r[i, 1] - q[j, 1]) ** 2 + (r[i, 2] - q[j, 2]) ** 2)


@contract("B01", [BP + "__init__", BP + "coordinates", BP + "number_of_points"])
def coordinates(c):
    """coordinates are kept as one (x, y, z) row per given point, in order, and are handed out as a copy"""
    n = c.int("n", 1, 12)
    g, r = points(c, "r", n, spread=False)
    c.eq("coordinates", g.coordinates, r)
    c.eq("number of points", g.number_of_points, n)
    q = g.coordinates
    q[0, 0] = q[0, 0] + 1
    c.eq("handed out as a copy", g.coordinates, r)


@contract("B01", [BP + "extent", BP + "coordinates"])
def extent(c):
    """the extent of every axis is the range of its coordinates, and the axes listed as dimensions are exactly those in which points differ"""
    n = c.int("n", 2, 12)
    g, r = points(c, "r", n)
    e = g.extent
    for k, d in enumerate("xyz"):
        c.forall("bounds " + d, [n], lambda i: c.and_(e[d][0] <= r[i, k], r[i, k] <= e[d][1]))
        c.eq("attained above " + d, e[d][1], c.maxof(n, lambda i: r[i, k]))
        c.eq("attained below " + d, e[d][0], c.minof(n, lambda i: r[i, k]))


@contract("B01", [BP + "coordinates"], trials=200)
def dimensions(c):
    """an axis counts as a dimension of the points exactly when the points differ along it"""
    n = c.int("n", 1, 6)
    flat = [c.bool("flat " + d) for d in "xyz"]
    v = [c.array(d, (n,), lo=-5, hi=5) for d in "xyz"]
    step = [c.real("step " + d, 0.1, 3) for d in "xyz"]
    base = [c.real("base " + d, -5, 5) for d in "xyz"]
    p = {d: (c.arr((n,), lambda i, k=k: base[k] + 0 * v[k][i]) if c.case(flat[k]) else c.arr((n,), lambda i, k=k: base[k] + step[k] * i)) for k, d in enumerate("xyz")}
    g = c.dsp.beamforming.Grid(p)
    expected = [d for k, d in enumerate("xyz") if not (c.case(flat[k]) or c.case(n <= 1))]
    c.ensure("dimensions", list(g.dim) == expected)
    c.ensure("number of dimensions", g.ndim == len(expected))


@contract("B01", [BP + "get_distances_to_point", "helpers.other:_euclidean_distance_matrix"])
def distances(c):
    """distances to a list of points are the Euclidean ones with shape (points, new points); to a single point, one per own point"""
    n, m = c.int("n", 2, 8), c.int("m", 1, 8)
    g, r = points(c, "r", n)
    q = c.array("q", (m, 3), lo=-20, hi=20)
    d = g.get_distances_to_point(q)
    c.shape("one row per own point", d, (n, m))
    c.forall("Euclidean", [n, m], lambda i, j: (d[i, j], dist(c, r, i, q, j)))
    p = c.array("p", (3,), lo=-20, hi=20)
    e = g.get_distances_to_point(p)
    c.shape("one distance per own point", e, (n,))
    c.forall("Euclidean to a single point", [n], lambda i: (e[i], dist(c, r, i, p[None, :], 0)))
    own = g.get_distances_to_point(r)
    c.forall("zero to itself", [n], lambda i: (own[i, i], 0))
    c.forall("symmetric", [n, n], lambda i, j: (own[i, j], own[j, i]))


@contract("B01", [BP + "find_nearest_point"])
def nearest(c):
    """the nearest point has no larger distance than any other, and its coordinates are those of its index"""
    n = c.int("n", 2, 8)
    g, r = points(c, "r", n)
    p = c.array("p", (3,), lo=-20, hi=20)
    if c.case(c.bool("on a point")):
        k = c.int("k", 0, n - 1)
        p = c.arr((3,), lambda i: r[k, i])
    i, q = g.find_nearest_point(p)
    c.ensure("index", c.and_(i >= 0, i < n))
    c.forall("nearest", [n], lambda j: dist(c, r, i, p[None, :], 0) <= dist(c, r, j, p[None, :], 0) + (0 if c.symbolic else 1e-9))
    c.forall("coordinates", [3], lambda k: (q[k], r[i, k]))


@contract("B01", [BM + "LineGrid.__init__"])
def line_grid(c):
    """a line grid extends along its dimension; the two fixed values go to the following axes in the cyclic order x, y, z"""
    n = c.int("n", 1, 12)
    d = c.choice("dimension", ["x", "y", "z", "X"])
    line = c.array("line", (n,), lo=-20, hi=20)
    a, b = c.real("value2", -20, 20), c.real("value3", -20, 20)
    g = c.dsp.beamforming.LineGrid(line.copy(), d, a, b)
    k = "xyz".index(d.lower())
    r = g.coordinates
    c.shape("one point per entry", r, (n, 3))
    c.forall("along the dimension", [n], lambda i: (r[i, k], line[i]))
    c.forall("second value on the next axis", [n], lambda i: (r[i, (k + 1) % 3], a))
    c.forall("third value on the remaining axis", [n], lambda i: (r[i, (k + 2) % 3], b))


@contract("B01", [BM + "Regular2DGrid.__init__", BM + "Regular2DGrid.reconstruct_map_shape"])
def plane_grid(c):
    """a plane grid holds every combination of the two lines exactly once, whatever order the axes are given in, and a map over the
    points takes at (i, j) the value of the point (line1[i], line2[j])"""
    n, m = c.int("n", 1, 6), c.int("m", 1, 6)
    d1, d2 = c.choice("axes", ["xy", "yx", "xz", "zx", "yz", "zy"])
    l1, l2 = c.array("line1", (n,), lo=-20, hi=20), c.array("line2", (m,), lo=-20, hi=20)
    v = c.real("value3", -20, 20)
    g = c.dsp.beamforming.Regular2DGrid(l1.copy(), l2.copy(), [d1, d2], v)
    r = g.coordinates
    c.shape("number of points", r, (n * m, 3))
    k1, k2 = "xyz".index(d1), "xyz".index(d2)
    k3 = 3 - k1 - k2
    x = c.array("map", (n * m,), lo=0, hi=10)
    M = g.reconstruct_map_shape(x)
    c.shape("shape of the map", M, (n, m))
    c.forall("first line", [n, m], lambda i, j: (r[i * m + j, k1], l1[i]))
    c.forall("second line", [n, m], lambda i, j: (r[i * m + j, k2], l2[j]))
    c.forall("third value", [n, m], lambda i, j: (r[i * m + j, k3], v))
    c.forall("map", [n, m], lambda i, j: (M[i, j], x[i * m + j]))


@contract("B01", [BM + "Regular3DGrid.__init__", BM + "Regular3DGrid.reconstruct_map_shape"])
def space_grid(c):
    """a three-dimensional grid holds every combination of the three lines exactly once, and a map over the points takes at (i, j, k)
    the value of the point (x[i], y[j], z[k])"""
    n, m, p = c.int("n", 2, 5), c.int("m", 2, 5), c.int("p", 2, 5)
    lx, ly, lz = c.array("x", (n,), lo=-20, hi=20), c.array("y", (m,), lo=-20, hi=20), c.array("z", (p,), lo=-20, hi=20)
    for v in (lx, ly, lz):      # the number of dimensions plays no role here
        c.requires(c.not_(c.and_(v[0] <= v[1], v[0] >= v[1])))
    g = c.dsp.beamforming.Regular3DGrid(lx.copy(), ly.copy(), lz.copy())
    r = g.coordinates
    c.shape("number of points", r, (n * m * p, 3))
    x = c.array("map", (n * m * p,), lo=0, hi=10)
    M = g.reconstruct_map_shape(x)
    c.shape("shape of the map", M, (n, m, p))
    at = lambda i, j, k: i * (m * p) + j * p + k
    c.forall("x", [n, m, p], lambda i, j, k: (r[at(i, j, k), 0], lx[i]))
    c.forall("y", [n, m, p], lambda i, j, k: (r[at(i, j, k), 1], ly[j]))
    c.forall("z", [n, m, p], lambda i, j, k: (r[at(i, j, k), 2], lz[k]))
    c.forall("map", [n, m, p], lambda i, j, k: (M[i, j, k], x[at(i, j, k)]))


@contract("B01", [BM + "MicArray.aperture", BM + "MicArray.min_distance", BM + "MicArray.he_to_hz", BM + "MicArray.hz_to_he", BM + "MicArray.get_maximum_frequency_range"], sym=False)
def aperture(c):
    """aperture and smallest distance are the extreme distances between two different microphones, and the Helmholtz number and the
    recommended frequency range follow from them"""
    n = c.int("n", 2, 8)
    g, r = points(c, "r", n, "MicArray")
    d = [float(_np.linalg.norm(r[i] - r[j])) for i in range(n) for j in range(n) if i != j]
    c.requires(min(d) > 1e-3)
    he, f, v = c.real("he", 0.5, 20), c.real("f", 20, 20000), c.real("speed", 300, 400)
    for again in ("", " (asked again)"):
        c.eq("aperture" + again, g.aperture, max(d))
        c.eq("smallest distance" + again, g.min_distance, min(d))
    c.eq("frequency of a Helmholtz number", g.he_to_hz(he, v), he * v / max(d))
    c.eq("Helmholtz number of a frequency", g.hz_to_he(f, v), f * max(d) / v)
    lo, hi = g.get_maximum_frequency_range(he, v)
    c.eq("lower limit", lo, he * v / max(d))
    c.eq("upper limit", hi, v / min(d) / 2)


@contract("B01", [BM + "MicArray.array_center_coordinates", BM + "MicArray.array_center_channel_number"])
def array_center(c):
    """the array center is the microphone nearest to the mean position"""
    np = c.np
    n = c.int("n", 2, 8)
    g, r = points(c, "r", n, "MicArray")
    mean = c.arr((1, 3), lambda _, k: c.sum(n, lambda i: r[i, k]) / n)
    q = g.array_center_coordinates
    i = g.array_center_channel_number
    c.ensure("channel", c.and_(i >= 0, i < n))
    c.forall("coordinates of the channel", [3], lambda k: (q[k], r[i, k]))
    c.forall("nearest to the mean", [n], lambda j: dist(c, r, i, mean, 0) <= dist(c, r, j, mean, 0) + (0 if c.symbolic else 1e-9))


@contract("B01", [BM + "classic_steering", BM + "inverse_steering", BM + "true_power_steering", BM + "true_location_steering", BM + "SteeringVector.__init__"])
def steering(c):
    """steering vectors have the shape (frequency, microphone, point) and equal their published formulation for the distances between
    points, microphones and array center"""
    np = c.np
    K, n, m = c.int("wave numbers", 1, 4), c.int("points", 2, 5), c.int("mics", 2, 5)
    grid, r = points(c, "grid", n, "Grid", 1, 9)
    mics, q = points(c, "mics", m, "MicArray", -9, -1)
    k = c.array("k", (K,), lo=0.1, hi=50)
    name = c.choice("formulation", ["Classic", "Inverse", "TruePower", "TrueLocation"])
    B = c.dsp.beamforming
    h = B.SteeringVector(getattr(B.SteeringVectorType, name)).get_vector(k, grid=grid, mic=mics)
    c.shape("shape", h, (K, m, n))
    p = mics.array_center_coordinates[None, :]
    r0 = c.arr((n,), lambda g: dist(c, r, g, p, 0))
    ri = c.arr((n, m), lambda g, i: dist(c, r, g, q, i))
    S = c.arr((n,), lambda g: c.sum(m, lambda i: 1 / ri[g, i] ** 2))
    amp = dict(Classic=lambda i, g: 1 / m, Inverse=lambda i, g: ri[g, i] / m / r0[g],
               TruePower=lambda i, g: 1 / r0[g] / ri[g, i] / S[g],
               TrueLocation=lambda i, g: 1 / ri[g, i] / np.sqrt(m * S[g]))[name]
    c.forall("formulation", [K, m, n], lambda f, i, g: (h[f, i, g], amp(i, g) * np.exp(-1j * k[f] * (ri[g, i] - r0[g]))))


def noise(c, n, m=1, fs=16000, constrain=False):
    """a deterministic broadband signal; its values are uninteresting, the contract compares operations on it"""
    seed = c.int("seed", 0, 10 ** 6)
    x = _np.random.default_rng(seed).uniform(-1, 1, (n, m))
    return c.dsp.Signal(None, x, fs, constrain_amplitude=constrain)


@contract("B01", [BM + "MonopoleSource.get_signals_on_array"], sym=False, trials=25)
def monopole(c):
    """every microphone receives the emitted signal delayed by its distance over the speed of sound, one over one plus the distance in level"""
    s = noise(c, c.int("length", 900, 2000))
    x = s.time_data
    n = c.int("mics", 1, 4)
    mics, q = points(c, "mics", n, "MicArray", -2, 2, spread=False)
    p = c.array("source", (3,), lo=-2, hi=2)
    v = c.real("speed", 300, 400)
    o = c.dsp.beamforming.MonopoleSource(s, p).get_signals_on_array(mics, v)
    c.shape("one channel per microphone", o.time_data, (x.shape[0], n))
    d = _np.linalg.norm(q - p[None, :], axis=1)
    for i in range(n):
        e = c.dsp.fractional_delay(s, d[i] / v, keep_length=True).time_data[:, 0] / (1 + d[i])
        c.eq(f"channel {i}", o.time_data[:, i], e)
    c.eq("emitted signal unchanged", s.time_data, x)


@contract("B01", [BM + "mix_sources_on_array"], sym=False, trials=25)
def mixed_sources(c):
    """the mix is the sum of what every source alone delivers (up to one common factor when it has to be normalised), trimmed to the
    shortest emitted signal, and neither the list nor the sources change"""
    k = c.int("sources", 1, 4)
    mics, q = points(c, "mics", c.int("mics", 2, 3), "MicArray", -2, 2)
    constrain = c.bool("constrain")
    seed = c.int("seed", 0, 10 ** 6)
    rng = _np.random.default_rng(seed)
    same = c.bool("same length")
    level = c.real("level", 0.1, 0.9)
    B = c.dsp.beamforming
    src, x = [], []
    for j in range(k):
        x.append(rng.uniform(-1, 1, (1200 if same else int(rng.integers(900, 1300)), 1)) * level)
        src.append(B.MonopoleSource(c.dsp.Signal(None, x[-1], 16000, constrain_amplitude=bool(constrain)), rng.uniform(-2, 2, 3)))
    keep = list(src)
    L = min(len(y) for y in x)
    o = B.mix_sources_on_array(src, mics).time_data
    c.ensure("list unchanged", len(src) == k and all(a is b for a, b in zip(src, keep)))
    for j in range(k):
        c.eq(f"source {j} unchanged", keep[j].emitted_signal.time_data, x[j])
    c.shape("trimmed to the shortest", o, (L, mics.number_of_points))
    e = 0
    for j in range(k):
        y = c.dsp.Signal(None, x[j][:L] if j else x[j], 16000, constrain_amplitude=bool(constrain))
        e = e + B.MonopoleSource(y, keep[j].coordinates).get_signals_on_array(mics).time_data[:L]
    f = float(_np.max(_np.abs(e)))
    c.eq("sum of the sources", o, e / f if constrain and f > 1 and k > 1 else e, tol=1e-6)


@contract("B01", [BM + "BeamformerDASTime.get_beamformer_output"], sym=False, trials=15)
def focus_in_time(c):
    """the output for every grid point is the mean over the microphones of their signals, each delayed by what is missing to the
    longest distance and weighted with its own distance"""
    n, m, g = c.int("length", 900, 1500), c.int("mics", 2, 4), c.int("points", 1, 3)
    s = noise(c, n, m)
    mics, q = points(c, "mics", m, "MicArray", -2, 2)
    grid, r = points(c, "grid", g, "Grid", 2.5, 4, spread=False)
    v = c.real("speed", 300, 400)
    x = s.time_data
    o = c.dsp.beamforming.BeamformerDASTime(s, mics, grid, v).get_beamformer_output()
    d = _np.linalg.norm(q[:, None] - r[None], axis=2)
    L = n + int((d.max() - d.min()) / v * s.sampling_rate_hz + 2)
    c.shape("one channel per point", o.time_data, (L, g))
    for j in range(g):
        e = _np.zeros(L)
        for i in range(m):
            y = c.dsp.fractional_delay(s.get_channels(i), (d.max() - d[i, j]) / v).time_data[:, 0] * d[i, j] / m
            e[:min(L, len(y))] += y[:L]
        c.eq(f"point {j}", o.time_data[:, j], e)
    c.eq("signals unchanged", s.time_data, x)


@contract("B01", [BM + "BeamformerDASFrequency.get_beamformer_map", BM + "BeamformerMVDR.get_beamformer_map", BM + "BeamformerFunctional.get_beamformer_map",
                  BM + "BeamformerOrthogonal.get_beamformer_map"], sym=False, trials=15)
def focus_in_frequency(c):
    """the maps equal their published expressions of cross-spectral matrix and steering vectors, integrated over the band, with every
    value at its grid point"""
    from scipy.integrate import simpson
    B = c.dsp.beamforming
    m, n1, n2 = c.int("mics", 3, 4), c.int("n1", 2, 3), c.int("n2", 2, 3)
    s = noise(c, 20000, m, 16000)
    mics, q = points(c, "mics", m, "MicArray", -1, 1)
    l1, l2 = _np.arange(n1) * 0.7 + c.real("a", -2, 0), _np.arange(n2) * 0.4 + c.real("b", -2, 0)
    grid = B.Regular2DGrid(l1, l2, ["x", "y"], c.real("z", 2, 4))
    name = c.choice("formulation", ["Classic", "Inverse", "TruePower", "TrueLocation"])
    V = B.SteeringVector(getattr(B.SteeringVectorType, name))
    kind = c.choice("beamformer", ["DASFrequency", "MVDR", "Functional", "Orthogonal"])
    fc, v = c.real("centre", 500, 4000), c.real("speed", 300, 400)
    diag = bool(c.bool("without diagonal")) and kind == "DASFrequency"
    f, C = s.get_csm()
    b = getattr(B, "Beamformer" + kind)(s, mics, grid, V, v)
    kw = dict(DASFrequency=dict(remove_csm_diagonal=diag), MVDR={}, Functional=dict(gamma=3), Orthogonal=dict(number_eigenvalues=2))[kind]
    M = b.get_beamformer_map(fc, 3, **kw)
    i1, i2 = (int(_np.argmin(_np.abs(f - fc * 2 ** e))) for e in (-1 / 6, 1 / 6))
    i2 = max(i2, i1 + 1)
    f, C = f[i1:i2], C[i1:i2]
    h = V.get_vector(2 * _np.pi * f / v, grid=grid, mic=mics)
    hh = _np.conjugate(_np.swapaxes(h, 1, 2))
    form = lambda A: _np.real(_np.einsum("fgi,fij,fjg->gf", hh, A, h))
    if kind == "DASFrequency":
        if diag:
            C = C * (1 - _np.eye(m)) * m / (m - 1)
        e = form(C)
        e = _np.maximum(e, 0) if diag else e
    elif kind == "MVDR":
        e = 1 / form(_np.linalg.inv(C))
    elif kind == "Functional":
        w, u = _np.linalg.eigh(C)
        R = _np.einsum("fij,fj,fkj->fik", u, _np.sign(w) * _np.abs(w) ** (1 / 3), u.conj())
        H = _np.real(_np.einsum("fgi,fig->gf", hh, h))
        e = (form(R) / H) ** 3 * H
    else:
        e = _np.zeros((grid.number_of_points, len(f)))
        w, u = _np.linalg.eigh(C)
        for k in range(len(f)):
            for j in (1, 2):
                P = _np.abs(hh[k] @ u[k][:, -j]) ** 2
                g = int(_np.argmax(P))
                e[g, k] = P[g] * w[k, -j]
    e = simpson(e, dx=f[1] - f[0], axis=1) if len(f) > 1 else e[:, 0]
    c.eq("map", M, e.reshape(n1, n2), tol=1e-6)
    c.eq("band", b.f_range_hz, _np.array([f[0], f[-1]]))


@contract("B01", [BM + "BeamformerDASFrequency.get_beamformer_map", BM + "BeamformerDASTime.get_beamformer_output", BM + "MonopoleSource.get_signals_on_array"],
          sym=False, trials=8)
def localisation(c):
    """a single broadband source on a grid point gives the largest focused output at that point"""
    B = c.dsp.beamforming
    k = _np.arange(16)
    a = k * 2.4
    mics = B.MicArray(dict(x=0.12 * _np.sqrt(k) * _np.cos(a), y=0.12 * _np.sqrt(k) * _np.sin(a), z=0 * a))
    grid = B.Regular2DGrid(_np.arange(-2, 3) * 0.5, _np.arange(-1, 2) * 0.5, ["x", "y"], 1.2)
    g = c.int("point", 0, grid.number_of_points - 1)
    src = B.MonopoleSource(noise(c, 12000, 1, 24000), grid.coordinates[g])
    s = src.get_signals_on_array(mics)
    kind = c.choice("beamformer", ["frequency", "time"])
    if kind == "frequency":
        M = B.BeamformerDASFrequency(s, mics, grid, B.SteeringVector(B.SteeringVectorType.TrueLocation)).get_beamformer_map(4000, 1, False).reshape(-1)
        c.ensure("largest at the source", int(_np.argmax(M)) == g)
    else:
        o = B.BeamformerDASTime(s, mics, grid).get_beamformer_output().time_data
        c.ensure("largest at the source", int(_np.argmax(_np.sum(o ** 2, axis=0))) == g)
