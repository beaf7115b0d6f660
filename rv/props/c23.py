"""C23 projection between square (Shirley-Chiu) and angular images"""
import numpy as np

from raytools import imagetools
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C23"
LEVEL = "exploration"
RULE = ("images in which every pixel has its own value, gray and color, 180, 360 and "
        "narrow views; each output pixel must hold the value of the input pixel the "
        "two published projections assign to it")
ASSUMPTIONS = ["output pixels whose source lies within 1e-6 of a pixel border are not "
               "judged"]


def values(c, shape, color):
    a = np.arange(1, np.prod(shape) + 1, dtype=float).reshape(shape)
    if color:
        return np.stack((a, a + .25, a * 3))
    return a


@workload(P, quick=120, thorough=1200)
def toangular(c):
    full = bool(c.i % 2)
    res = int(c.pick(1, 2, 5, 16, 30, 61))
    color = c.rng.random() < .5
    c.let(full=full, res=res, color=color)
    shape = (res * (2 if full else 1), res)
    img = values(c, shape, color)
    keep = img.copy()
    out = imagetools.array_uv2ang(img)
    c.same(img, keep, "input")
    c.check(out.shape == img.shape, f"shape {out.shape}")
    xy = ref.pixel_grid(res)
    r = np.hypot(xy[..., 0], xy[..., 1])
    n = 0
    for k in range(2 if full else 1):
        for i in range(res):
            for j in range(res):
                got = out[..., k * res + i, j]
                if abs(r[i, j] - 1) < 1e-6:
                    continue
                if r[i, j] > 1:
                    c.check(not np.any(got), "pixel outside of the view is not empty")
                    continue
                th = r[i, j] * np.pi / 2
                s = np.sin(th) / r[i, j] if r[i, j] else 0
                x, y = xy[i, j] * s
                # (the opposite view fills the second square)
                u, v = ref.sc_uv(x, y, np.cos(th))
                u += k
                p = np.array((u, v)) * res
                if np.any(np.abs(p - np.round(p)) < 1e-6):
                    continue
                a, b = np.floor(p).astype(int)
                if not np.array_equal(got, img[..., a, b]):
                    c.fail(f"pixel {(k * res + i, j)} holds {got}, expected "
                           f"{img[..., a, b]} of square pixel {(a, b)}")
                n += 1
    c.check(True, "pixels")
    c.event("pixels", n)


@workload(P, quick=120, thorough=1200)
def tosquare(c):
    res = int(c.pick(1, 2, 5, 16, 30, 61))
    color = c.rng.random() < .5
    va = c.pick(None, 180, 180, 90, 40)
    d = gen.direction(c.rng)
    c.let(res=res, color=color, viewangle=va, d=d)
    img = values(c, (res, res), color)
    keep = img.copy()
    out = imagetools.array_ang2uv(img, *([] if va is None else [ViewMapper(d, va)]))
    c.same(img, keep, "input")
    c.check(out.shape == img.shape, f"shape {out.shape}")
    half, sf = np.pi / 2, 1
    if va not in (None, 180):
        a = va * np.pi / 360
        half = a * (2 ** .5 / (np.pi / 2)) / (2 * np.sin(a / 2) / a)
        sf = va / 180
    n = 0
    for i in range(res):
        for j in range(res):
            u, v = .5 + ((np.array((i, j)) + .5) / res - .5) * sf
            x, y, z = ref.sc_xyz(u, v)
            s = np.hypot(x, y)
            f = np.arctan2(s, z) / half / s if s > 0 else 0
            p = (np.array((x, y)) * f + 1) / 2 * res
            if np.any(np.abs(p - np.round(p)) < 1e-5):
                continue
            a, b = np.floor(p).astype(int)
            got = out[..., i, j]
            if not np.array_equal(got, img[..., a, b]):
                c.fail(f"pixel {(i, j)} holds {got}, expected {img[..., a, b]} of "
                       f"angular pixel {(a, b)}")
            n += 1
    c.check(True, "pixels")
    c.event("pixels", n)


@workload(P, quick=30, thorough=300)
def there_and_back(c):
    """a coarse square image survives the trip through a fine angular image"""
    blocks = int(c.pick(2, 4, 6))
    k = 16
    color = c.rng.random() < .5
    coarse = values(c, (blocks, blocks), color)
    img = np.repeat(np.repeat(coarse, k, -1), k, -2)
    c.let(blocks=blocks, color=color)
    back = imagetools.array_ang2uv(imagetools.array_uv2ang(img))
    mid = back.reshape(img.shape[:-2] + (blocks, k, blocks, k))
    mid = mid[..., :, k // 4:-k // 4, :, k // 4:-k // 4]
    want = coarse[..., :, None, :, None]
    c.check(np.mean(mid == want) > .98, f"only {np.mean(mid == want):.3f} of the inner "
            f"pixels are kept")
    c.event("pixels", mid.size)
