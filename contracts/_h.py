"""helpers shared by the contracts"""
from engine.contract import contract


def signal(c, name="x", n=None, m=None, fs=None, lo_n=2, kind="f", cls="Signal", maxch=None, lo=None, hi=None, hi_n=None, constrain=None, cache=False):
    """an arbitrary signal: (signal, samples array, n, m, fs)"""
    n = c.dim(name + "_n", lo_n, hi_n) if n is None else n
    m = c.dim(name + "_ch", 1, maxch, typ=(1, 3)) if m is None else m
    c.requires(m <= n)
    fs = c.int(name + "_fs", 1, 200000, typ=(8, 1000)) if fs is None else fs
    x = c.array(name, (n, m), kind, lo=lo, hi=hi)
    s = getattr(c.dsp, cls)(None, c.snap(x), fs, constrain_amplitude=bool(constrain), activate_cache=cache)
    return s, x, n, m, fs


def multiband(c, nb, kind="f", name="b"):
    """a multiband signal with nb bands of equal rate: (mb, [samples], n, m, fs)"""
    n = c.dim(name + "_n", 2)
    m = c.dim(name + "_ch", 1, typ=(1, 3))
    c.requires(m <= n)
    fs = c.int(name + "_fs", 1, 200000, typ=(8, 1000))
    xs = [c.array(f"{name}{k}", (n, m), kind) for k in range(nb)]
    mb = c.dsp.MultiBandSignal([c.dsp.Signal(None, c.snap(x), fs) for x in xs])
    return mb, xs, n, m, fs
