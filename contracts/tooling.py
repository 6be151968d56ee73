"""M01: sample formats and small tools."""
import numpy as _np
from ._h import contract

TL = "tools:"
BC = "helpers.bytes_conversion:"
OT = "helpers.other:"
INTS = ["i8", "i16", "i24", "i32", "u8", "u16", "u24", "u32"]


@contract("M01", [TL + "convert_sample_representation"])
def to_integers(c):
    """a sample v in [-1, 1] becomes equilibrium + v * span, truncated to an integer; samples outside are clipped; equilibrium and span
    describe the format"""
    n = c.int("n", 1, 12)
    x = c.array("x", (n,), lo=-2, hi=2)
    f = c.choice("format", INTS)
    src = c.choice("source", ["f32", "f64", "F64"])
    bits, span = int(f[1:]), 2 ** (int(f[1:]) - 1) - 1
    eq = span if f[0] == "u" else 0
    if not c.symbolic and src == "f32":
        x = x.astype(_np.float32).astype(float)
    out, e, s = c.dsp.tools.convert_sample_representation(x.copy(), src, f, False)
    c.eq("equilibrium", e, eq)
    c.eq("span", s, span)
    c.shape("one value per sample", out, (n,))
    v = c.arr((n,), lambda i: c.max(c.min(x[i], 1.0), -1.0))
    c.forall("within one step", [n], lambda i: c.and_(out[i] - eq - v[i] * span < 1, out[i] - eq - v[i] * span > -1))
    c.forall("never beyond full scale", [n], lambda i: c.and_(out[i] <= eq + span, out[i] >= eq - span))
    c.forall("sign", [n], lambda i: c.and_(c.implies(v[i] * span >= 1, out[i] > eq), c.implies(v[i] * span <= -1, out[i] < eq)))
    i, j = c.int("i", 0, n - 1), c.int("j", 0, n - 1)
    c.ensure("order", c.implies(v[i] <= v[j], out[i] <= out[j]))


@contract("M01", [TL + "convert_sample_representation"])
def from_integers(c):
    """integer samples become (sample - equilibrium) / span, clipped to full scale, exactly 0 and +-1 at equilibrium and full scale"""
    n = c.int("n", 1, 12)
    f = c.choice("format", INTS)
    span = 2 ** (int(f[1:]) - 1) - 1
    eq = span if f[0] == "u" else 0
    lo, hi = (0, 2 * span + 1) if f[0] == "u" else (-span - 1, span)
    x = c.array("x", (n,), kind="i", lo=lo, hi=hi)
    given = x.copy() if c.symbolic else _np.asarray(x, dtype=_np.int64)
    out, e, s = c.dsp.tools.convert_sample_representation(given, f, "f64")
    c.eq("equilibrium", e, 0)
    c.eq("span", s, 1)
    c.forall("value", [n], lambda i: (out[i], c.max(c.min((x[i] - eq) / span, 1.0), -1.0)))
    c.forall("full scale", [n], lambda i: c.and_(c.implies(x[i] >= eq + span, out[i] >= 1), c.implies(x[i] <= eq - span, out[i] <= -1)))
    c.unchanged("input", given, x)


@contract("M01", [TL + "convert_sample_representation", BC + "_array_to_bytes_24bits", BC + "_bytes_to_array_24bits"], sym=False, trials=400)
def bytes_and_casts(c):
    """casting delivers the data type of the format with full scale at full scale, bytes hold the same samples (three bytes each for 24 bits),
    and converting there and back keeps every sample within a step"""
    C = c.dsp.tools.convert_sample_representation
    n = c.int("n", 1, 20)
    seed = c.int("seed", 0, 10 ** 6)
    x = _np.concatenate([[1.0, -1.0, 0.0, 0.5, -0.5, 1.2, -1.2], _np.random.default_rng(seed).uniform(-1, 1, n)])
    src = c.choice("source", ["f32", "f64", "F32"])
    x = x.astype(_np.float32 if src.lower() == "f32" else _np.float64)
    v = _np.clip(x.astype(_np.float64), -1, 1)
    f = c.choice("format", INTS)
    bits = int(f[1:])
    span = 2.0 ** (bits - 1) - 1
    eq = span if f[0] == "u" else 0.0
    given = x.tobytes() if c.bool("bytes in") else x
    want = v * span + eq
    if bits != 24:
        y = C(given, src, f, True)[0]
        c.ensure("data type", y.dtype == _np.dtype(f"{'u' if f[0] == 'u' else ''}int{bits}"))
        c.ensure("full scale", [float(q) for q in y[:3]] == [eq + span, eq - span, eq])
        c.ensure("within one step", bool(_np.all(_np.abs(y.astype(_np.float64) - want) < 1)))
    else:
        c.raises("24 bits only as bytes", AssertionError, lambda: C(given, src, f, True))
    b = C(given, src, f, True, True)[0]
    c.ensure("length in bytes", type(b) is bytes and len(b) == len(x) * bits // 8)
    back = C(b, f, "f64")[0]
    c.ensure("there and back", bool(_np.all(_np.abs(back - v) < 1 / span + 1e-12)))
    c.ensure("full scale there and back", list(back[:3]) == [1.0, -1.0, 0.0])
    g = c.choice("other", INTS)
    if g != f and int(g[1:]) != 24:
        z = C(b, f, g, True)[0]
        sp = 2.0 ** (int(g[1:]) - 1) - 1
        e2 = sp if g[0] == "u" else 0.0
        c.ensure("between integer formats", bool(_np.all(_np.abs((z.astype(_np.float64) - e2) / sp - v) < 1 / span + 1 / sp + 1e-12)))
        c.ensure("full scale between integer formats", [float(q) for q in z[:3]] == [e2 + sp, e2 - sp, e2])
    d = C(given, src, "f64" if src.lower() == "f32" else "f32")[0]
    c.ensure("floating-point type", d.dtype == (_np.float64 if src.lower() == "f32" else _np.float32))
    c.eq("floating-point values", d, v.astype(d.dtype))


@contract("M01", [OT + "_get_next_power_2"], sym=False, trials=400)
def power_of_two(c):
    """floor, ceil and closest (in octaves) power of two of a number"""
    P = c.dsp.tools.next_power_2
    n = c.int("n", 1, 10 ** 9)
    if c.bool("exact power"):
        n = 2 ** c.int("exponent", 0, 40)
    a, b, d = (P(n, m) for m in ("floor", "ceil", "closest"))
    c.ensure("floor", a <= n < 2 * a and a & (a - 1) == 0)
    c.ensure("ceil", b >= n > b / 2 and b & (b - 1) == 0)
    c.ensure("closest", d in (a, b) and (n == a == d or (d == b) == (n >= a * 2 ** 0.5)))


@contract("M01", [TL + "get_exact_value_at_frequency"])
def value_at_frequency(c):
    """the value at a frequency is the linear interpolation between its neighbouring bins"""
    n = c.int("n", 2, 12)
    f = c.sorted("f", n, lo=1)
    y = c.array("y", (n,), lo=-50, hi=50)
    k = c.int("k", 0, n - 2)
    t = c.real("t", 0, 1)
    q = f[k] + t * (f[k + 1] - f[k])
    if c.case(c.bool("on the last bin")):
        c.eq("last bin", c.dsp.tools.get_exact_value_at_frequency(f, y, f[n - 1]), y[n - 1])
        return
    c.eq("interpolated", c.dsp.tools.get_exact_value_at_frequency(f, y, q), y[k] + (q - f[k]) / (f[k + 1] - f[k]) * (y[k + 1] - y[k]), tol=1e-6)


@contract("M01", [OT + "_get_fractional_octave_bandwidth", TL + "fractional_octave_frequencies", "standard._standard_backend:_exact_center_frequencies_fractional_octaves",
                  "standard._standard_backend:_center_frequencies_fractional_octaves_iec"], sym=False, trials=150)
def fractional_octaves(c):
    """exact centre frequencies are geometric around 1 kHz, next to the nominal ones, and the cut-off frequencies lie half a band to either side"""
    k = c.choice("fraction", [1, 2, 3, 4, 6, 12])
    lo, hi = c.real("low", 20, 400), c.real("high", 2000, 20000)
    nom, ex, (a, b) = c.dsp.tools.fractional_octave_frequencies(k, (lo, hi), True)
    ratio = 10 ** 0.3
    base = ratio if k in (1, 3) else 2.0
    c.ensure("some bands", len(ex) > 1)
    c.eq("geometric", ex[1:] / ex[:-1], _np.full(len(ex) - 1, base ** (1 / k)), tol=1e-9)
    step = k * _np.log(ex / 1000) / _np.log(base)
    c.eq("around 1 kHz", step, _np.round(step), tol=1e-6)
    c.eq("upper", b, ex * ratio ** (0.5 / k))
    c.eq("lower", a, ex * ratio ** (-0.5 / k))
    if k in (1, 3):
        c.ensure("nominal in range", bool(_np.all((nom >= lo) & (nom <= hi))) and len(nom) == len(ex))
        c.ensure("exact next to nominal", bool(_np.all(_np.abs(nom / ex - 1) < 0.03)))
    else:
        c.ensure("range reached", ex[0] <= lo * 2 ** (0.5 / k) * 1.001 and ex[-1] >= hi / 2 ** (0.5 / k) / 1.001)
    two = c.dsp.tools.fractional_octave_frequencies(k, (lo, hi))
    c.ensure("without cut-offs", len(two) == 2)
    c.eq("same centres", two[1], ex)


@contract("M01", [TL + "log_frequency_vector"], sym=False, trials=150)
def log_vector(c):
    """a logarithmic frequency vector starts at the first frequency, grows by the same factor and covers the range without leaving it"""
    a = c.real("low", 1, 200)
    b = a * c.real("ratio", 1.2, 1000)
    k = c.int("per octave", 1, 48)
    f = c.dsp.tools.log_frequency_vector([a, b], k)
    c.eq("start", f[0], a)
    c.eq("geometric", f[1:] / f[:-1], _np.full(len(f) - 1, 2 ** (1 / k)), tol=1e-9)
    c.ensure("inside", f[-1] < b * (1 + 1e-9))
    c.ensure("covers the range", f[-1] * 2 ** (1 / k) >= b * (1 - 1e-9))


@contract("M01", [TL + "erb_frequencies"], sym=False, trials=150)
def erb(c):
    """frequencies are equally spaced on the ERB scale, include the reference and stay inside of the range"""
    E = lambda f: 9.2645 * _np.log(1 + f * 0.00437)
    a, b = c.real("low", 20, 900), c.real("high", 1100, 20000)
    r = c.real("resolution", 0.2, 3)
    ref = c.real("reference", 900, 1100)
    R = [b, a] if c.bool("reversed") else [a, b]
    f = c.dsp.tools.erb_frequencies(list(R), r, ref)
    c.eq("spacing", _np.diff(E(f)), _np.full(len(f) - 1, r), tol=1e-6)
    c.ensure("reference included", float(_np.min(_np.abs(f - ref))) < 1e-6 * ref)
    c.ensure("inside", f[0] >= a * (1 - 1e-9) and f[-1] <= b * (1 + 1e-9))
    c.ensure("complete", E(f[0]) - r < E(a) + 1e-6 and E(f[-1]) + r > E(b) - 1e-6)


@contract("M01", [TL + "log_mean"], sym=False, trials=150)
def mean_on_log_axis(c):
    """the mean on a logarithmic axis is that of linear interpolations at logarithmically spaced positions, along either axis"""
    n, m = c.int("n", 2, 40), c.int("m", 1, 4)
    x = c.array("x", (n, m), lo=-5, hi=5)
    p = n ** (_np.arange(n) / (n - 1))
    e = _np.array([_np.mean(_np.interp(p, _np.arange(1, n + 1), x[:, j])) for j in range(m)])
    c.eq("columns", c.dsp.tools.log_mean(x, 0), e)
    c.eq("rows", c.dsp.tools.log_mean(x.T, 1), e)
    c.eq("vector", c.dsp.tools.log_mean(x[:, 0]), e[0])


@contract("M01", [TL + "frequency_crossover"], sym=False, trials=80)
def crossover(c):
    """a crossover weight is zero below, one above its region and grows from zero to one inside of it"""
    a = c.real("low", 50, 2000)
    b = a * c.real("ratio", 1.3, 6)
    w = c.dsp.tools.frequency_crossover([a, b], bool(c.bool("log")))
    c.eq("below", w(_np.array([a * 0.5, a * 0.99])), _np.zeros(2))
    c.eq("above", w(_np.array([b * 1.01, b * 3])), _np.ones(2))
    f = _np.linspace(a * 1.02, b * 0.98, 60)
    v = w(f)
    c.ensure("between zero and one", bool(_np.all((v > -0.01) & (v < 1.01))))
    c.ensure("growing", bool(_np.all(_np.diff(v) > -1e-3)))
