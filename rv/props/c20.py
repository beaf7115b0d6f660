"""C20 conversion between equisolid and equiangular images"""
import numpy as np

from raytools import imagetools
from raytools.mapper import SolidViewMapper, ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C20"
LEVEL = "exploration"
RULE = ("random smooth images with unlike axes; every pixel inside of the image circle "
        "is compared with the input at the radius given by the two projection "
        "formulas; both directions, gray and color, nearest and linear")
ASSUMPTIONS = ["180 degree views for the projection formulas (narrower views are only "
               "judged by their round trip)"]


def coded(c, x, y, k):
    """smooth image without symmetries; value and gradient bound"""
    return (k[0] + k[1] * x + k[2] * y + k[3] * x * y + k[4] * x * x + k[5] * y ** 3)


@workload(P, quick=100, thorough=1000)
def convert(c):
    res = int(c.pick(20, 41, 64, 2, 3, 5, 8))
    rev = bool(c.i % 2)
    color = c.rng.random() < .4
    nearest = c.rng.random() < .4
    va = c.pick(180, 180, 180.0)
    ks = c.rng.normal(size=(3 if color else 1, 6)) * .5
    ks[:, 0] = 4
    c.let(res=res, reverse=rev, color=color, nearest=nearest)
    if c.rng.random() < .3:
        # (a false colour or difference image)
        ks[:, 0] = c.pick(0, -4)
    xy = ref.pixel_grid(res)
    x, y = xy[..., 0], xy[..., 1]
    img = np.array([coded(c, x, y, k) for k in ks])
    img = img if color else img[0]
    keep = img.copy()
    kw = {}
    if c.rng.random() < .5:
        kw["viewangle"] = va
    rv = c.rng.random() < .5
    out = imagetools.array_solid2ang(img, nearest=nearest, reverse=rev, returnvm=rv,
                                     **kw)
    if rv:
        out, vm = out
        c.check(isinstance(vm, ViewMapper) and
                isinstance(vm, SolidViewMapper) == rev, "returned mapper")
        c.check(vm.viewangle == 180, "view angle of the result")
    c.same(img, keep, "input")
    c.check(out.shape == img.shape, f"shape {out.shape}")
    r = np.hypot(x, y)
    # up to the very border of the image circle
    ok = r < 1 - 1e-6
    out_of = r > 1 + 1e-6
    with np.errstate(all="ignore"):
        q = (4 / np.pi * np.arcsin(np.minimum(1, r / 2 ** .5))) if rev else \
            2 ** .5 * np.sin(r * np.pi / 4)
        f = np.where(r > 0, q / r, 1)
    sx, sy = x * f, y * f
    for i, k in enumerate(ks):
        got = (out[i] if color else out)[ok]
        src = img[i] if color else img
        c.check(np.all((out[i] if color else out)[out_of] == 0),
                "light outside of the image circle")
        if nearest:
            c.check(np.all(np.isin(got, src)), "nearest invents values")
            tol = 8 * np.abs(k[1:]).max() / res
            c.close(got, coded(c, sx, sy, k)[ok], "value (nearest)", rtol=0, atol=tol)
            # the very pixel, away from pixel borders
            px = (np.stack((sx, sy), -1) + 1) / 2 * res
            away = ok & np.all(np.abs(px - np.round(px)) > 1e-3, -1)
            ij = np.floor(px[away]).astype(int).clip(0, res - 1)
            want = src[ij[:, 0], ij[:, 1]]
            c.close((out[i] if color else out)[away], want, "value of the nearest pixel",
                    rtol=1e-12)
        else:
            # linear interpolation error of the test image
            c.close(got, coded(c, sx, sy, k)[ok], "value", rtol=0,
                    atol=20 * np.abs(k[3:]).max() / res ** 2 + 1e-9)
    # integer images have values in between, too
    ints = np.round(img * c.pick(1, 7)).astype(c.pick(int, np.int16, np.int32))
    a, b = (imagetools.array_solid2ang(q, nearest=nearest, reverse=rev, returnvm=False)
            for q in (ints, ints.astype(float)))
    c.close(a, b, "integer image", rtol=1e-6, atol=1e-6)
    c.event("pixels", int(ok.sum()) * len(ks))


@workload(P, quick=40, thorough=400)
def roundtrip(c):
    res = int(c.pick(40, 64))
    va = c.pick(180, 120, 90, 60)
    k = c.rng.normal(size=6) * .5
    k[0] = 4
    first = bool(c.i % 2)
    c.let(res=res, viewangle=va, first=first)
    xy = ref.pixel_grid(res)
    x, y = xy[..., 0], xy[..., 1]
    img = coded(c, x, y, k)
    a = imagetools.array_solid2ang(img, reverse=first, viewangle=va, returnvm=False)
    b, vm = imagetools.array_solid2ang(a, reverse=not first, viewangle=va)
    c.check(vm.viewangle == va, f"view angle {vm.viewangle}")
    ok = np.hypot(x, y) < .75
    c.close(b[ok], img[ok], "there and back", rtol=0,
            atol=60 * np.abs(k[1:]).max() / res ** 2 + 1e-6)
    c.check(not np.allclose(a[ok], img[ok], rtol=0, atol=1e-4) or va < 70,
            "the conversion does nothing")
    # the mappers' own coordinates
    va = c.pick(va, 1, 5, 9.5, 30)
    sm = SolidViewMapper(gen.direction(c.rng), va)
    q = c.rng.random((50, 2)) * .9 + .05
    q = q[np.hypot(*(q * 2 - 1).T) < .95]
    v = sm.vxy2xyz(q)
    c.close(np.linalg.norm(v, axis=1), np.ones(len(q)), "unit vectors", atol=1e-9)
    c.close(sm.xyz2vxy(v), q, "SolidViewMapper: image -> ray -> image", rtol=0,
            atol=1e-6)
    sm.origin = o = tuple(c.rng.normal(size=3))
    u = c.rng.random((20, 2)) * .9 + .05
    c.close(sm.uv2xyz(u, stackorigin=True), np.hstack((np.broadcast_to(o, (20, 3)),
            sm.uv2xyz(u))), "SolidViewMapper: stackorigin", rtol=1e-12, atol=1e-12)
    c.close(sm.uv2xyz((.5, .5)), ref.unit(sm.dxyz)[None], "SolidViewMapper: center",
            rtol=0, atol=1e-7)
    c.close(sm.vxy2xyz(q, stackorigin=True), np.hstack((np.broadcast_to(o, v.shape), v)),
            "SolidViewMapper: stackorigin of image positions", rtol=1e-12, atol=1e-12)
    rays = sm.pixelrays(res)
    inn = np.hypot(x, y) < .95
    c.same(sm.ray2pixel(rays[inn], res), np.stack(np.mgrid[0:res, 0:res], -1)[inn],
           "SolidViewMapper: pixel -> ray -> pixel")
    c.raises(ValueError, lambda: SolidViewMapper(viewangle=c.pick(181, 200, 360)),
             "equisolid views are limited to 180 degrees")
    c.event("pixels", int(ok.sum()))
