"""T04 framing and overlap-add"""
from ._h import contract, signal

TINY = 2.2250738585072014e-308
FR = "standard._framed_signal_representation:"


def frame_case(c, W_hi=None):
    n, m = c.dim("n", 1, typ=(1, 40)), c.dim("m", 1, typ=(1, 3))
    W = c.dim("W", 1, W_hi, typ=(1, 12))
    S = c.dim("S", 1, typ=(1, 12))
    c.requires(S <= W)
    return n, m, W, S


@contract("T04", [FR + "_get_framed_signal", "helpers.other:_compute_number_frames", "helpers.other:_pad_trim"])
def frames_padded(c):
    n, m, W, S = frame_case(c)
    x = c.array("x", (n, m))
    x0 = c.snap(x)
    out = c.dsp.tools.framed_signal(x, W, S, True)
    F = c.ceil_div(n, S)
    c.shape("frames", out, (W, F, m))
    c.forall("placement", (W, F, m), lambda i, k, ch: (out[i, k, ch], c.where(k * S + i < n, x0[c.min(k * S + i, n - 1), ch], 0.0)))
    c.unchanged("input", x, x0)


@contract("T04", [FR + "_get_framed_signal", "helpers.other:_compute_number_frames"])
def frames_complete(c):
    """without padding, only complete frames are kept (the case n = W + k*S: see frames_complete_last)"""
    n, m, W, S = frame_case(c)
    c.requires(W <= n)
    x = c.array("x", (n, m))
    out = c.dsp.tools.framed_signal(x, W, S, False)
    F = (n - W) // S + 1
    last = F - c.where((n - W) % S == 0, 1, 0)
    c.ensure("window", c.and_(out.shape[0] == W, out.shape[2] == m))
    c.ensure("frames", c.and_(last <= out.shape[1], out.shape[1] <= F))
    c.forall("placement", (W, last, m), lambda i, k, ch: (out[i, k, ch], x[k * S + i, ch]))


@contract("T04", [FR + "_get_framed_signal", "helpers.other:_compute_number_frames"], sym=False)
def frames_complete_last(c):
    """the last complete frame that ends exactly at the end of the signal is kept"""
    F, m = c.dim("F", 1, typ=(1, 6)), c.dim("m", 1, typ=(1, 3))
    W, S = c.dim("W", 1, typ=(1, 12)), c.dim("S", 1, typ=(1, 12))
    c.requires(S <= W)
    x = c.array("x", (W + (F - 1) * S, m))
    out = c.dsp.tools.framed_signal(x, W, S, False)
    c.shape("last frame", out, (W, F, m))


@contract("T04", [FR + "_reconstruct_framed_signal"])
def overlap_add(c):
    F, m = c.dim("F", 1, typ=(1, 6)), c.dim("m", 1, typ=(1, 3))
    W = c.dim("W", 1, typ=(1, 64))
    S = c.dim("S", 1, typ=(1, 64))
    c.requires(S <= W)
    x = c.array("x", (W, F, m))
    x0 = c.snap(x)
    out = c.dsp.tools.reconstruct_from_framed_signal(x, S, None, None)
    L = S * (F - 1) + W
    c.shape("length", out, (L, m))

    def spec(t, ch):
        return c.sum(F, lambda k: c.where(c.and_(k * S <= t, t < k * S + W), x0[c.min(c.max(t - k * S, 0), W - 1), k, ch], 0.0))
    c.forall("sum of frames", (L, m), lambda t, ch: (out[t, ch], spec(t, ch)))
    c.unchanged("input", x, x0)


@contract("T04", [FR + "_reconstruct_framed_signal", "standard._standard_backend:_get_window_envelope"])
def overlap_add_window(c):
    F, m = c.dim("F", 1, typ=(1, 6)), c.dim("m", 1, typ=(1, 2))
    W = c.dim("W", 1, typ=(1, 16))
    S = c.dim("S", 1, typ=(1, 16))
    c.requires(S <= W)
    x = c.array("x", (W, F, m))
    w = c.array("w", (W,), lo=0.0, hi=2.0)
    x0, w0 = c.snap(x), c.snap(w)
    floor = c.choice("floor", [None, 1e-4])
    cut = c.bool("cut")
    L = S * (F - 1) + W
    N = c.dim("N", 1, typ=(1, 40)) if cut else L
    out = c.dsp.tools.reconstruct_from_framed_signal(x, S, w, N if cut else None, floor)
    c.shape("length", out, (N, m))

    def ola(t, f):
        return c.sum(F, lambda k: c.where(c.and_(k * S <= t, t < k * S + W), f(c.min(c.max(t - k * S, 0), W - 1), k), 0.0))

    def spec(t, ch):
        num = ola(t, lambda i, k: x0[i, k, ch] * w0[i])
        den = ola(t, lambda i, k: w0[i] ** 2)
        if floor is not None:
            return num / c.where(den >= floor, den, floor)
        return c.where(den > TINY, num / c.where(den > TINY, den, 1.0), num)
    c.forall("weighted sum", (N, m), lambda t, ch: (out[t, ch], c.where(t < L, spec(c.min(t, L - 1), ch), 0.0)))
    c.unchanged("frames kept", x, x0)
    c.unchanged("window kept", w, w0)


@contract("T04", [FR + "_get_framed_signal", FR + "_reconstruct_framed_signal"])
def frame_round_trip(c):
    n, m, W, S = frame_case(c)
    x = c.array("x", (n, m))
    w = c.array("w", (W,), lo=0.1, hi=2.0)
    x0, w0 = c.snap(x), c.snap(w)
    fr = c.dsp.tools.framed_signal(x, W, S, True)
    fr2 = fr * w[:, None, None]
    out = c.dsp.tools.reconstruct_from_framed_signal(fr2, S, w, n, None)
    c.shape("length", out, (n, m))

    def restored(t, ch):
        c.hint(t // S)
        return out[t, ch], x0[t, ch]
    c.forall("samples restored", (n, m), restored)
