"""C09 Shirley-Chiu coordinates are an equal area bijection of the disk, the
hemisphere and the sphere"""
import itertools

import numpy as np

from raytools import translate
from rv import gen, ref
from rv.core import workload

P = "C09"
LEVEL = "exploration"
RULE = ("random, structured and edge uv coordinates and directions (axes, diagonals, "
        "seams, poles); judged against a scalar implementation of the published map, "
        "the inverse, and the measured area element")
ASSUMPTIONS = ["whole sphere: xsign=-1 with flipu=True (the pair the view mapper "
               "uses) or xsign=1, flipu=False on the upper hemisphere",
               "on the seams (u or v on the border of a hemisphere's square) uv is "
               "only compared after mapping back to directions"]
PERMS = list(itertools.permutations((0, 1, 2)))


def uvs(c, n, full):
    kind = c.cycle(["random", "grid", "diag", "edge", "center", "tiny"])
    top = 2 if full else 1
    uv = c.rng.random((n, 2)) * (top, 1)
    if kind == "grid":
        s = int(c.rng.integers(2, 30))
        uv = np.round(uv * s) / s
    elif kind == "diag":
        t = c.rng.random(n)
        uv = np.stack((t, np.where(c.rng.random(n) < .5, t, 1 - t)), -1)
        if full:
            uv[:, 0] += c.rng.integers(0, 2, n)
    elif kind == "edge":
        k = c.rng.integers(0, 4, n)
        uv[k == 0, 0] = 0
        uv[k == 1, 0] = top
        uv[k == 2, 1] = 0
        uv[k == 3, 1] = 1
    elif kind == "center":
        k = c.rng.integers(0, 3, n)
        uv[k == 0] = .5
        uv[k == 1, 1] = .5
        uv[k == 2, 0] = .5
    elif kind == "tiny":
        uv = .5 + (uv - .5) * 10.0 ** -c.rng.integers(1, 9, n)[:, None]
        uv[:, 0] = np.clip(uv[:, 0], 0, 1)
    return uv, kind


def want_xyz(uv, xsign):
    out = np.empty((len(uv), 3))
    for i, (u, v) in enumerate(uv.tolist()):
        low = u > 1
        x, y, z = ref.sc_xyz(u - 1 if low else u, v)
        out[i] = (-x * xsign, y, -z) if low else (x * xsign, y, z)
    return out


@workload(P, quick=120, thorough=2000)
def forward(c):
    full = c.rng.random() < .7
    xsign = -1 if full else c.pick(1, -1)
    n = int(c.pick(1, 2, 50, 400))
    uv, kind = uvs(c, n, full)
    axes = c.cycle(PERMS) if c.rng.random() < .5 else (0, 1, 2)
    c.let(full=full, xsign=xsign, n=n, kind=kind, axes=axes)
    keep = uv.copy()
    one = n == 1 and c.rng.random() < .7
    arg = tuple(uv[0]) if one else (uv.tolist() if c.rng.random() < .2 else uv)
    if not one and c.rng.random() < .15:
        # the corners of the squares, as whole numbers
        uv = np.clip(np.round(uv), 0, (2 if full else 1, 1))
        keep = uv.copy()
        arg = uv.astype(c.pick("i8", "i4", "u1"))
    kw = {} if axes == (0, 1, 2) else dict(axes=axes)
    got = translate.uv2xyz(arg, xsign=xsign, **kw)
    w = want_xyz(uv, xsign)
    want = np.empty_like(w)
    want[:, axes[0]], want[:, axes[1]], want[:, axes[2]] = w.T
    c.close(got, want, "uv2xyz", rtol=0, atol=2e-8)
    c.close(np.linalg.norm(got, axis=-1), np.ones(n), "norm", atol=1e-9)
    c.same(uv, keep, "input")
    # disk
    xy = translate.uv2xy(arg)
    wxy = np.array([ref.sc_xy(u - (u > 1), v) for u, v in uv.tolist()])
    wxy[:, 0] *= np.where(uv[:, 0] > 1, -1, 1)
    c.close(xy, wxy, "uv2xy", rtol=0, atol=1e-9)
    c.check(np.all(np.hypot(*xy.T) <= 1 + 1e-12), "uv2xy leaves the unit disk")
    # back
    flipu = xsign == -1
    if flipu or np.all(uv[:, 0] <= 1):
        back = translate.xyz2uv(got, flipu=flipu, **kw)
        c.check(np.all((back >= -1e-9) & (back <= (2 + 1e-9, 1 + 1e-9))),
                "uv out of range")
        inside = np.all(np.abs(uv - np.round(uv)) > 1e-6, 1)
        # the square root at the equator amplifies rounding
        c.close(back[inside], uv[inside], "uv -> xyz -> uv", rtol=0, atol=2e-6)
        again = translate.uv2xyz(back, xsign=xsign, **kw)
        ok = np.abs(got[:, axes[2]]) > 1e-9
        c.close(again[ok], got[ok], "uv -> xyz -> uv -> xyz", rtol=0, atol=2e-6)
        c.event("coordinates_round_tripped", int(inside.sum()))


@workload(P, quick=100, thorough=1500)
def backward(c):
    """directions -> uv -> directions, any length when normalize is set"""
    n = int(c.pick(1, 30, 400))
    kind = c.cycle(["random", "axes", "diag", "nearpole", "equator"])
    v = gen.sphere(c.rng, n)
    if kind == "axes":
        v = np.array(gen.AXES, float)
    elif kind == "diag":
        v = np.array(list(itertools.product((-1, 0, 1), repeat=3)), float)
        v = gen.unit(v[np.any(v != 0, 1)])
    elif kind == "nearpole":
        v = gen.unit(np.stack((*(c.rng.normal(size=(2, n)) *
                                 10.0 ** -c.rng.integers(2, 9, n)),
                               c.rng.choice((-1., 1.), n))).T)
    elif kind == "equator":
        v[:, 2] *= 10.0 ** -c.rng.integers(1, 7, n)
        v = gen.unit(v)
    n = len(v)
    upper = c.rng.random() < .3
    if upper:
        v[:, 2] = np.abs(v[:, 2])
    axes = c.cycle(PERMS) if c.rng.random() < .4 else (0, 1, 2)
    normalize = c.rng.random() < .5
    scale = 10.0 ** c.rng.uniform(-3, 3, (n, 1)) if normalize else 1.0
    if normalize and c.rng.random() < .3:
        # nearly unit vectors
        scale = 1 + c.rng.uniform(-1, 1, (n, 1)) * 10.0 ** c.rng.uniform(-5, -2)
    c.let(n=n, kind=kind, upper=upper, axes=axes, normalize=normalize)
    w = np.empty_like(v)
    w[:, axes[0]], w[:, axes[1]], w[:, axes[2]] = v.T
    arg = w * scale
    if kind in ("axes", "diag") and normalize and c.rng.random() < .4:
        # (directions in whole numbers)
        arg = np.rint(w / np.abs(w).max(1, keepdims=True)).astype(int)
    keep = arg.copy()
    flipu = not upper
    uv = translate.xyz2uv(arg if n > 1 else arg[0], normalize=normalize, axes=axes,
                          flipu=flipu)
    c.same(arg, keep, "input")
    c.check(uv.shape == (n, 2), f"shape {uv.shape}")
    c.check(np.all((uv >= -1e-9) & (uv <= ((1 if upper else 2) + 1e-9, 1 + 1e-9))),
            "uv out of range")
    low = v[:, 2] < 0
    c.check(np.all((uv[:, 0] > 1 - 1e-9) == low) or np.all(
        np.abs(v[(uv[:, 0] > 1 - 1e-9) != low, 2]) < 1e-6),
        "the lower hemisphere is u > 1")
    off = np.abs(v[:, 2]) > 1e-5
    back = translate.uv2xyz(uv, axes=axes, xsign=1 if upper else -1)
    c.close(back[off], w[off], "xyz -> uv -> xyz", rtol=0, atol=1e-6)
    c.event("directions_round_tripped", int(off.sum()))


@workload(P, quick=60, thorough=600)
def area(c):
    """the measured area element of the map is constant (2 pi per hemisphere),
    and a regular uv grid covers any cap in proportion to its solid angle"""
    s = int(c.pick(150, 200))
    full = c.rng.random() < .5
    top = 2 if full else 1
    c.let(full=full, s=s)
    # local
    uv = c.rng.random((300, 2)) * (top, 1) * .98 + .01
    h = 1e-5
    f = np.mod(uv[:, 0], 1) - .5
    g = uv[:, 1] - .5
    uv = uv[(np.abs(np.abs(f) - np.abs(g)) > 4 * h) &
            (np.minimum(np.mod(uv[:, 0], 1), 1 - np.mod(uv[:, 0], 1)) > .002)]
    x = -1 if full else 1
    for func, want, kw in ((translate.uv2xyz, 2 * np.pi, dict(xsign=x)),
                           (translate.uv2xy, np.pi, {})):
        du = (func(uv + (h, 0), **kw) - func(uv - (h, 0), **kw)) / (2 * h)
        dv = (func(uv + (0, h), **kw) - func(uv - (0, h), **kw)) / (2 * h)
        if du.shape[1] == 3:
            a = np.linalg.norm(np.cross(du, dv), axis=1)
        else:
            a = np.abs(du[:, 0] * dv[:, 1] - du[:, 1] * dv[:, 0])
        c.close(a, np.full(len(a), want), f"area element of {func.__name__}",
                rtol=1e-4)
    # global
    uvg = (np.stack(np.mgrid[0:top * s, 0:s], -1).reshape(-1, 2) + .5) / s
    v = translate.uv2xyz(uvg, xsign=x)
    c.check(np.all((v[:, 2] < 0) == (uvg[:, 0] > 1)), "hemispheres")
    for _ in range(6):
        if full:
            d, half = gen.sphere(c.rng, 1)[0], c.rng.uniform(.2, 2.5)
        else:
            half = c.rng.uniform(.2, 1.0)
            d = gen.hemisphere(c.rng, 1, half=np.pi / 2 - half)[0]
        frac = np.mean(v @ d > np.cos(half))
        want = (1 - np.cos(half)) / (2 if full else 1)
        c.close(frac, want, f"share of the grid in a cap of {half:.3f}", rtol=0,
                atol=8 / s ** 1.5 + 1e-3)
    c.event("grid_points", len(v))
