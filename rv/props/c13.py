"""C13 resampling and array selection"""
import numpy as np

from raytools import translate
from rv import gen
from rv.core import workload

P = "C13"
LEVEL = "exploration"
RULE = ("random arrays (1 to 3 axes), whole number scale factors per axis, filters; "
        "judged against explicit repetition, block means and an explicit separable "
        "Gaussian; selections against index arithmetic")
ASSUMPTIONS = ["whole number scaling in one direction (the documented requirement)"]


def gauss1(a, sig, axis):
    """separable, truncated at 4 sigma, half sample symmetric borders"""
    if sig <= 1e-15:
        return a
    r = int(4.0 * sig + .5)
    x = np.arange(-r, r + 1)
    k = np.exp(-.5 * (x / sig) ** 2)
    k /= k.sum()
    n = a.shape[axis]
    out = np.zeros(a.shape)
    per = np.arange(n)
    for d, w in zip(x, k):
        j = np.mod(per + d, 2 * n)
        j = np.where(j >= n, 2 * n - 1 - j, j)
        out = out + w * np.take(a, j, axis)
    return out


@workload(P, quick=150, thorough=2000)
def resample(c):
    nd = int(c.pick(1, 2, 3, 1, 2, 3, 4))
    top = 9 if nd < 4 else 5
    base = tuple(int(q) for q in c.rng.integers(1, top, nd))
    fac = tuple(int(q) for q in c.rng.integers(1, 5 if nd < 4 else 4, nd))
    mode = c.cycle(["up", "upgauss", "down", "same", "filter", "upradius", "box"])
    c.let(base=base, factors=fac, mode=mode)
    big = tuple(a * b for a, b in zip(base, fac))
    small = gen.image(c.rng, base, c.pick("uniform", "ramp", "const"))
    large = gen.image(c.rng, big, c.pick("uniform", "ramp", "const"))
    if c.rng.random() < .25:
        # integers average to fractions
        top = 100 / max(small.max(), large.max(), 1e-9)
        small, large = (np.round(q * top).astype(c.pick(int, np.int32))
                        for q in (small, large))
    rep = small
    for k in range(nd):
        rep = np.repeat(rep, fac[k], k)
    ks, kl = small.copy(), large.copy()
    tol = dict(rtol=1e-9, atol=1e-9 * float(max(small.max(), large.max())))
    if mode == "up":
        got = translate.resample(small, big, gauss=False)
        c.same(got, rep, "upsampling repeats")
    elif mode in ("upgauss", "upradius"):
        kw = {}
        sig = [f - 1 for f in fac]
        if mode == "upradius":
            sig = [float(c.pick(0, c.rng.uniform(.2, 2), c.rng.uniform(.2, 2)))] * nd
            kw = dict(radius=sig[0])
        if np.prod(fac) == 1:
            got = translate.resample(small, big, **kw)
            want = small
            if mode == "upradius":
                for k in range(nd):
                    want = gauss1(want, sig[k], k)
        else:
            got = translate.resample(small, big, **kw)
            want = rep
            for k in range(nd):
                want = gauss1(want, sig[k], k)
        c.close(got, want, "smoothed upsampling", rtol=1e-7, atol=tol["atol"])
        c.close(np.mean(got), np.mean(small), "mean is kept", rtol=1e-7)
    elif mode == "down":
        got = translate.resample(large, base, gauss=c.rng.random() < .5)
        sh = []
        for a, b in zip(base, fac):
            sh += [a, b]
        want = large.reshape(sh).mean(tuple(range(1, 2 * nd, 2)))
        c.close(got, want, "downsampling averages blocks", **tol)
        c.close(np.mean(got), np.mean(large), "mean is kept", rtol=1e-9)
    elif mode == "same":
        got = translate.resample(large, c.pick(None, big))
        c.same(got, large, "same size")
    elif mode == "filter":
        s = float(c.rng.uniform(.3, 2))
        got = translate.resample(large, c.pick(None, big), radius=s)
        want = large
        for k in range(nd):
            want = gauss1(want, s, k)
        c.close(got, want, "filter", rtol=1e-7, atol=tol["atol"])
    else:
        s = int(c.rng.integers(1, 4)) * 2 - 1
        got = translate.resample(large, gauss=False, radius=s)
        want = large
        for k in range(nd):
            acc = np.zeros(want.shape)
            n = want.shape[k]
            for d in range(-(s // 2), s // 2 + 1):
                j = np.mod(np.arange(n) + d, 2 * n)
                j = np.where(j >= n, 2 * n - 1 - j, j)
                acc += np.take(want, j, k)
            want = acc / s
        c.close(got, want, "box filter", rtol=1e-7, atol=tol["atol"])
    c.same(small, ks, "input")
    c.same(large, kl, "input")
    c.event(mode)


@workload(P, quick=150, thorough=2000)
def take(c):
    nd = int(c.rng.integers(1, 5))
    shape = tuple(int(q) for q in c.rng.integers(1, c.pick(6, 6, 12), nd))
    a = c.rng.normal(size=shape)
    m = int(c.rng.integers(1, nd + 1))
    axes = None
    use = list(range(m))
    if c.rng.random() < .5:
        use = [int(q) for q in c.rng.permutation(nd)[:m]]
        axes = use if m > 1 or c.rng.random() < .5 else use[0]
    sl = []
    want = a
    desc = []
    for k in use:
        n = shape[k]
        kind = c.pick("none", "slice", "list", "tuple", "array", "int", "step", "bigarr")
        desc.append(kind)
        if kind == "none":
            sl.append(None)
            continue
        if kind in ("slice", "step"):
            s = slice(c.pick(None, int(c.rng.integers(-n, n + 1))), c.pick(None, int(c.rng.integers(-n, n + 2))),
                      None if kind == "slice" else int(c.pick(-1, 2, -2, 3, 4, -4, 5)))
            idx = list(range(n))[s]
            sl.append(s)
        else:
            idx = [int(q) for q in c.rng.integers(-n, n, int(c.rng.integers(1, 5)))]
            if kind == "int":
                idx = idx[:1]
                sl.append(idx[0])
            elif kind == "bigarr":
                idx = idx * 2
                sl.append(np.array(idx).reshape(2, -1))
            else:
                sl.append(dict(list=list, tuple=tuple, array=np.array)[kind](idx))
        want = want[(slice(None),) * k + ([i % n for i in idx],)] if idx else \
            want[(slice(None),) * k + (slice(0, 0),)]
    if axes is not None and c.rng.random() < .3:
        # counted from the end
        axes = [q - nd for q in axes] if isinstance(axes, list) else axes - nd
    elif isinstance(axes, list) and c.rng.random() < .3:
        axes = c.pick(tuple, np.array)(axes)
    c.let(shape=shape, axes=axes, kinds=desc)
    k = a.copy()
    kw = {} if axes is None else dict(axes=axes)
    got = translate.simple_take(a, *sl, **kw)
    c.check(got.ndim == nd, "the number of axes is kept")
    c.same(got, want, "selection")
    # an index beyond the axis is an error, not another element
    q = int(c.rng.integers(nd))
    bad = shape[q] + int(c.rng.integers(0, 3))
    bad = c.pick(bad, -bad - 1)
    c.raises(IndexError, lambda: translate.simple_take(
        a, c.pick(bad, [0, bad] if shape[q] else [bad]), axes=c.pick(q, [q])),
        f"index {bad} of axis {q}")
    c.same(a, k, "input")
