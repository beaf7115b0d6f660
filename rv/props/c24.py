"""C24 rotating and centering angular images"""
import numpy as np

from raytools import imagetools
from rv import gen, ref
from rv.core import workload

P = "C24"
LEVEL = "exploration"
RULE = ("random smooth images and images of unique values, rotations, one and two point "
        "centers, both orders, nearest and linear; each output pixel is compared with "
        "the input at the position an explicit view geometry gives")
ASSUMPTIONS = ["only pixels whose source lies inside of the image circle are judged",
               "with rotation and center the picture is judged as: center, then turn "
               "(the order option does not change it, see the known finding)"]
FWD = (0., 1., 0.)


def smooth(k, x, y):
    return (k[0] + k[1] * x + k[2] * y + k[3] * x * y + k[4] * x * x + k[5] * y ** 3)


def source(xy, ang, center, res):
    """image coordinates (-1..1) of the input shown at xy"""
    t = np.radians(ang)
    x = xy[..., 0] * np.cos(t) + xy[..., 1] * np.sin(t)
    y = xy[..., 1] * np.cos(t) - xy[..., 0] * np.sin(t)
    p = np.stack((x, y), -1)
    if center is None:
        return p, np.hypot(x, y) < 1
    v = ref.fisheye_rays(FWD, 180, p)
    if len(center) == 2:
        q = np.array(center) / res * 2 - 1
        new = ref.fisheye_rays(FWD, 180, q)
        h, u, d = ref.view_basis(FWD)
        h2, u2, d2 = ref.view_basis(new)
        w = (v @ h)[..., None] * h2 + (v @ u)[..., None] * u2 + (v @ d)[..., None] * d2
    else:
        t0, t1 = ref.fisheye_rays(FWD, 180, np.reshape(center, (2, 2)) / res * 2 - 1)
        a, b = np.array(ref.view_basis(t1)), np.array(ref.view_basis(t0))
        w = (v @ a.T) @ b
    return ref.fisheye_xy(FWD, 180, w), None


@workload(P, quick=200, thorough=2000)
def align(c):
    res = int(c.pick(21, 40, 64))
    color = c.rng.random() < .4
    nearest = c.rng.random() < .3
    ang = float(c.cycle([0, 90, 180, -90, 30, 37.5, 0, 270, -10.25, 360, -400, 765]))
    kind = c.cycle(["none", "one", "two", "one"])
    center = None
    if kind == "one":
        r, p = res * c.rng.random() * .35, c.rng.random() * 2 * np.pi
        center = (res / 2 + r * np.cos(p), res / 2 + r * np.sin(p))
        if c.rng.random() < .6:
            center = tuple(int(q) for q in center)
    elif kind == "two":
        q = (c.rng.random((2, 2)) - .5) * .6 * res + res / 2
        center = tuple(int(k) for k in q.ravel())
    first = c.rng.random() < .6
    fill = c.pick(None, None, 0.0)
    c.let(res=res, color=color, nearest=nearest, ang=ang, center=center, first=first,
          fill=fill)
    ks = c.rng.normal(size=(3 if color else 1, 6)) * .4
    ks[:, 0] = 5
    xy = ref.pixel_grid(res)
    img = np.array([smooth(k, xy[..., 0], xy[..., 1]) for k in ks])
    img = img if color else img[0]
    keep = img.copy()
    kw = {}
    if center is not None or c.rng.random() < .2:
        kw["center"] = center
    if not first:
        kw["rotate_first"] = False
    if fill is not None:
        kw["fill_value"] = fill
    if nearest:
        kw["nearest"] = True
    out = imagetools.array_rotate(img, ang, **kw)
    c.same(img, keep, "input")
    c.check(out.shape == img.shape, f"shape {out.shape}")
    src, _ = source(xy, ang, center, res)
    rs = np.hypot(src[..., 0], src[..., 1])
    # (a second interpolation may see fill values at the border)
    ok = (np.hypot(xy[..., 0], xy[..., 1]) < 1 - 2 / res) & \
        (rs < 1 - (2 if first else 5) / res)
    twice = (not first) and ang != 0 and center is not None
    if twice:
        # the intermediate picture has to hold the source as well
        m, _ = source(xy, ang, None, res)
        ok &= (np.hypot(m[..., 0], m[..., 1]) < 1 - 2 / res)
        mid, _ = source(xy, 0, center, res)
        good = np.hypot(mid[..., 0], mid[..., 1]) < 1 - 2 / res
        ij = np.floor((m + 1) / 2 * res).astype(int).clip(1, res - 2)
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                ok &= good[ij[..., 0] + a, ij[..., 1] + b]
    for i, k in enumerate(ks):
        o = out[i] if color else out
        want = smooth(k, src[..., 0], src[..., 1])
        g = np.abs(k[1:]).sum()
        if nearest:
            tol = 3.2 * g * (2 if twice else 1) * 2 / res
            c.check(np.all(np.isin(o[ok], img)), "nearest invents values")
        else:
            tol = 30 * g / res ** 2 * (2 if twice else 1)
        c.close(o[ok], want[ok], "picture", rtol=0, atol=tol)
    if ang == 0 and center is None:
        inside = np.hypot(xy[..., 0], xy[..., 1]) < 1 - 2 / res
        c.close(out[..., inside], img[..., inside], "nothing to do", rtol=0, atol=1e-6)
    if center is not None and ang != 0 and first and not nearest:
        # turned first, then centered: a different picture, unless the center is on
        # the axis of rotation
        c.known("rotate-first-no-effect", "rotate_first=True gives the picture of "
                "rotate_first=False")
    c.event("pixels", int(ok.sum()) * len(ks))


@workload(P, quick=60, thorough=600)
def ramp(c):
    """linear ramps are kept by linear interpolation, so that the smallest turns and
    shifts are seen"""
    res = int(c.pick(50, 120, 200, 333))
    ang = float(c.pick(0, 0, .03, -.07, 1.04, 89.97, 33.333, 180.02, 360.05))
    kind = c.cycle(["one", "two", "none", "one"])
    mid = res / 2
    step = 10. ** c.rng.uniform(-1, 1, 4) * c.rng.choice((-1, 1), 4)
    center = {"one": (mid + step[0], mid + step[1]), "none": None,
              "two": tuple(float(q) for q in (mid + step[0], mid - 3 * step[1],
                                              mid + 2 * step[2], mid + step[3]))}[kind]
    c.let(res=res, ang=ang, center=center)
    xy = ref.pixel_grid(res)
    k = c.rng.normal(size=2)
    out = imagetools.array_rotate(5 + xy @ k, ang, center)
    src = source(xy, ang, center, res)[0]
    ok = (np.hypot(xy[..., 0], xy[..., 1]) < 1 - 2 / res) & \
        (np.hypot(src[..., 0], src[..., 1]) < 1 - 2 / res)
    c.close(out[ok], (5 + src @ k)[ok], "ramp", rtol=0, atol=1e-4 * np.abs(k).max())
    c.event("pixels", int(ok.sum()))


@workload(P, quick=100, thorough=1000)
def nearest_pixel(c):
    """nearest: every pixel shows the one pixel of the input whose center is closest to
    the position it stands for"""
    res = int(c.pick(9, 20, 33, 48))
    color = c.rng.random() < .3
    lab = np.stack([c.rng.permutation(res * res).reshape(res, res) + 1.0
                    for _ in range(3 if color else 1)])
    ang = float(c.pick(0, 0, 90, 30, 37.5, -10.25, 180))
    kind = c.cycle(["one", "two", "none", "one"])
    center = None
    if kind == "one":
        r, p = res * c.rng.random() * .35, c.rng.random() * 2 * np.pi
        center = (res / 2 + r * np.cos(p), res / 2 + r * np.sin(p))
        if c.rng.random() < .3:
            # already at the center: nothing moves
            center = (res / 2, res / 2)
    elif kind == "two":
        q = (c.rng.random((2, 2)) - .5) * .6 * res + res / 2
        if c.rng.random() < .25:
            # from a pixel to itself: nothing moves
            q[1] = q[0]
        center = tuple(float(k) for k in q.ravel())
    c.let(res=res, ang=ang, center=center, color=color)
    out = np.reshape(imagetools.array_rotate(lab if color else lab[0], ang, center,
                                             nearest=True), lab.shape)
    xy = ref.pixel_grid(res)
    src = (source(xy, ang, center, res)[0] + 1) / 2 * res
    ok = (np.hypot(xy[..., 0], xy[..., 1]) < 1) & \
        (np.hypot(*(src * 2 / res - 1).transpose(2, 0, 1)) < 1) & \
        np.all((src > .5) & (src < res - .5), -1)
    for a, b in zip(lab, out):
        at = np.empty((res * res, 2))
        at[a.ravel().astype(int) - 1] = np.stack(np.mgrid[0:res, 0:res], -1
                                                 ).reshape(-1, 2) + .5
        c.check(np.all(np.isin(b[ok], a)), "nearest invents values")
        got = at[b[ok].astype(int) - 1]
        d = np.abs(got - src[ok])
        c.check(np.all(d < .5 + 1e-3 * res), f"a pixel {d.max()} away from the position "
                f"is shown")
    c.event("pixels", int(ok.sum()) * len(lab))


@workload(P, quick=100, thorough=1000)
def fill(c):
    """positions without pixels around them show the fill value, the others do not
    depend on it; whole numbers are interpolated like any others"""
    res = int(c.pick(9, 20, 33))
    color = c.rng.random() < .4
    nearest = c.rng.random() < .4
    first = c.rng.random() < .5
    ang = float(c.pick(0, 0, 45, 30, -80.5, 12))
    kind = c.cycle(["one", "none", "two", "one"])
    center = None
    if kind == "one":
        r, p = res * c.rng.uniform(.1, .45), c.rng.random() * 2 * np.pi
        center = (res / 2 + r * np.cos(p), res / 2 + r * np.sin(p))
    elif kind == "two":
        center = tuple(float(k) for k in
                       ((c.rng.random((2, 2)) - .5) * .6 * res + res / 2).ravel())
    value = float(c.pick(0, -1, 7.5, 1000))
    whole = c.rng.random() < .5
    img = c.rng.integers(0, 50, ((3,) if color else ()) + (res, res))
    img = img.astype(c.pick(int, np.int32, np.uint8) if whole else float)
    c.let(res=res, color=color, nearest=nearest, first=first, ang=ang, center=center,
          value=value, dtype=img.dtype)
    keep = img.copy()
    kw = {} if first and c.rng.random() < .5 else {"rotate_first": first}
    if nearest:
        kw["nearest"] = True
    out = imagetools.array_rotate(img, ang, center, fill_value=value, **kw)
    c.same(img, keep, "input")
    c.same(out, imagetools.array_rotate(img.astype(float), ang, center,
                                        fill_value=value, **kw), "dtype of the input")
    xy = ref.pixel_grid(res)
    inside = np.hypot(xy[..., 0], xy[..., 1]) < 1
    # the step that is done last decides
    two = not first and ang != 0 and center is not None
    src = source(xy, ang, None if two else center, res)[0]
    px = (src + 1) / 2 * res
    away = inside & np.any((px < .5 - 1e-5) | (px > res - .5 + 1e-5), -1)
    # elsewhere and seen by the mapper's projection
    away &= np.hypot(src[..., 0], src[..., 1]) < 1.9
    c.check(np.all(out[..., away] == value), "fill value without pixels")
    c.event("filled", int(away.sum()))
    if first or ang == 0:
        full = inside & np.all((px > .5 + 1e-5) & (px < res - .5 - 1e-5), -1) & \
            (np.hypot(src[..., 0], src[..., 1]) < 1.9)
        other = imagetools.array_rotate(img, ang, center, fill_value=value + 3, **kw)
        c.same(out[..., full], other[..., full], "pixels do not depend on the fill value")
        c.check(np.all((out[..., full] >= img.min() - 1e-9) &
                       (out[..., full] <= img.max() + 1e-9)), "interpolation leaves the "
                "range of the image")
        c.event("pixels", int(full.sum()))


@workload(P, quick=60, thorough=600)
def exact(c):
    """quarter turns move whole pixels; full circle and inverse turns are the
    identity"""
    res = int(c.pick(4, 9, 20, 33))
    a = c.rng.permutation(res * res).reshape(res, res) + 1.0
    n = int(c.pick(1, 2, 3, -1, 4, -2))
    nearest = bool(c.i % 2)
    c.let(res=res, quarter_turns=n, nearest=nearest)
    out = imagetools.array_rotate(a, 90.0 * n, nearest=nearest)
    want = np.rot90(a, n)
    # [x, y]: a positive turn moves +y content to -x
    xy = ref.pixel_grid(res)
    src = source(xy, 90.0 * n, None, res)[0]
    ij = np.floor((src + 1) / 2 * res + 1e-9).astype(int).clip(0, res - 1)
    want = a[ij[..., 0], ij[..., 1]]
    ok = np.hypot(xy[..., 0], xy[..., 1]) < 1 - 1e-6
    c.close(out[ok], want[ok], "quarter turns", rtol=0,
            atol=1e-4 * res if not nearest else 0)
    img = smooth(c.rng.normal(size=6), xy[..., 0], xy[..., 1])
    t = float(c.rng.uniform(-180, 180))
    back = imagetools.array_rotate(imagetools.array_rotate(img, t), -t)
    ok = np.hypot(xy[..., 0], xy[..., 1]) < 1 - 4 / res
    c.close(back[ok], img[ok], "turning there and back", rtol=0,
            atol=100 * np.abs(img).max() / res ** 2)
    c.event("pixels", int(ok.sum()))


@workload(P, quick=60, thorough=600)
def target(c):
    """the pixel given as center arrives at the center, the start pixel arrives at the
    end pixel"""
    res = int(c.pick(41, 61))
    a = np.zeros((res, res))
    p = ((c.rng.random(2) - .5) * .6 * res + res / 2).astype(int)
    a[p[0], p[1]] = 1
    # a blob, so that every interpolation sees it
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            a[p[0] + i, p[1] + j] += .5
    two = bool(c.i % 2)
    e = ((c.rng.random(2) - .5) * .6 * res + res / 2).astype(int)
    ctr = tuple(int(q) for q in (*p, *e)) if two else tuple(int(q) for q in p)
    c.let(res=res, center=ctr)
    out = imagetools.array_rotate(a, 0, center=ctr)
    xy = ref.pixel_grid(res)
    out = np.where(np.hypot(xy[..., 0], xy[..., 1]) < 1, out, 0)
    k = np.stack(np.mgrid[0:res, 0:res], -1) + .5
    got = np.array([np.sum(out * k[..., q]) for q in (0, 1)]) / out.sum()
    want = (np.array(e) if two else np.array((res / 2, res / 2)))
    c.check(np.all(np.abs(got - want) < 1.6), f"the target arrives at {got}, expected "
            f"{want}")
    c.event("targets")
