"""C19 solid angles of pixels and views, and the vectors/solid angles/values an
image is turned into"""
import numpy as np

from raytools import imagetools, io
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C19"
LEVEL = "exploration"
RULE = ("random views and resolutions; pixel solid angles are compared with the "
        "spherical area of the pixel and with the exact integral of the projection, "
        "totals with the solid angle of the viewed cap; image volumes pixel by pixel")
ASSUMPTIONS = ["pixels within 1.5 pixels of the border are left out of totals' "
               "exactness (they are counted in or out as a whole)"]


def cap(half):
    return 2 * np.pi * (1 - np.cos(half))


@workload(P, quick=120, thorough=1200)
def omega(c):
    d = gen.direction(c.rng, c.i if c.i % 2 else None)
    va = c.cycle([180, 360, 180, 90, 150, 30, 8, 1, .3])
    res = int(c.pick(1, 4, 12, 24, 60, 100))
    c.let(d=d, viewangle=va, res=res)
    vm = ViewMapper(d, va)
    c.close(vm.area, 4 * np.pi if va == 360 else cap(va * np.pi / 360),
            "solid angle of the view", rtol=1e-9)
    half = np.pi / 2
    if va < 180:
        a = va * np.pi / 360
        half = a * (2 ** .5 / (np.pi / 2)) / (2 * np.sin(a / 2) / a)
    px = vm.pixels(res)
    keep = px.copy()
    shaped = c.rng.random() < .5
    o = vm.pixel2omega(px if shaped else px.reshape(-1, 2), res)
    c.same(px, keep, "pixel coordinates")
    c.check(o.shape == ((res, res) if shaped else (res * res,)), f"shape {o.shape}")
    o = np.reshape(o, (res, res))
    c.check(np.all(o > 0) and np.all(np.isfinite(o)), "positive")
    h = half * 2 / res
    xy = ref.pixel_grid(res)
    r = np.hypot(xy[..., 0], xy[..., 1])
    ok = r < 1.05
    if res >= 4:
        c.close(o[ok], ref.pixel_omega(res, half)[ok], "integral of the projection",
                rtol=.25 * h * h + 1e-6)
        e = np.arange(res + 1) / res
        cor = vm.vxy2xyz(np.stack(np.meshgrid(e, e, indexing="ij"), -1))
        q = ref.quad_omega(cor[:-1, :-1], cor[1:, :-1], cor[1:, 1:], cor[:-1, 1:])
        c.close(o[ok], q[ok], "area between the corner rays", rtol=.5 * h * h + 1e-6)
    # some arbitrary pixels
    k = c.rng.integers(0, res, (5, 2))
    c.close(vm.pixel2omega(k + .5, res), o[k[:, 0], k[:, 1]], "pixels by coordinate",
            rtol=1e-9)
    if res >= 24:
        tot = np.sum(o[vm.in_view(vm.pixelrays(res)[:res], indices=False)
                       .reshape(res, res)])
        c.close(tot, cap(half), "sum over the view", rtol=4 / res ** 1.5 + h * h)
        if va in (180, 360):
            c.close(tot * vm.aspect, vm.area, "sum against the area of the view",
                    rtol=4 / res ** 1.5 + h * h)
        c.event("totals")
    c.event("pixels", res * res)


@workload(P, quick=60, thorough=600)
def volume(c):
    d = gen.direction(c.rng)
    va = c.cycle([180, 360, 90])
    res = int(c.pick(1, 3, 9, 20))
    asp = 2 if va == 360 else 1
    color = c.rng.random() < .5
    vl = c.pick(None, None, tuple(c.rng.random(3)), list(c.rng.random(3)))
    where = c.pick("header", "argument", "other")
    c.let(d=d, viewangle=va, res=res, color=color, vlambda=vl, where=where)
    vm = ViewMapper(d, va)
    px = c.rng.integers(3, 256, (res, res * asp, 4)).astype(np.uint8)
    px[..., 3] = c.rng.integers(120, 140, (res, res * asp))
    f = c.path("a b.hdr")
    other = ViewMapper(gen.direction(c.rng), va)
    ref.write_hdr(f, px, [vm.header()] if where == "header" else
                  ([other.header()] if where == "other" else []))
    with open(f, "rb") as s:
        raw = s.read()
    kw = dict(color=True) if color else {}
    if vl is not None:
        kw["vlambda"] = vl
    if where != "header":
        kw["vm"] = vm
    v, o, l = imagetools.hdr2vol(f, **kw)
    n = res * res * asp
    c.check(v.shape == (n, 3) and o.shape == (n,), f"shapes {v.shape} {o.shape}")
    vals = ref.hdr_values(f)
    if color:
        want = vals.reshape(3, -1).T
    elif vl is not None:
        want = np.einsum("ijk,i->jk", vals, vl).ravel()
    else:
        want = np.einsum("ijk,i->jk", vals, ref.RAD_LUM).ravel()
    c.check(l.shape == want.shape, f"shape of the values {l.shape}, {want.shape}")
    c.close(l, want, "pixel values", rtol=1.5e-3)
    c.close(v, vm.pixelrays(res).reshape(-1, 3), "pixel rays", rtol=0, atol=1e-6)
    oo = vm.pixel2omega(vm.pixels(res).reshape(-1, 2), res)
    c.close(o, np.tile(oo, asp), "pixel solid angles", rtol=1e-6)
    with open(f, "rb") as s:
        c.same(s.read(), raw, "the image file changed")
    if res >= 20 and va != 90:
        w = vm.world2view(v)[:, 2]
        xy = ref.pixel_grid(res)
        inside = np.tile((np.hypot(xy[..., 0], xy[..., 1]) < 1).ravel(), asp)
        c.close(np.sum(o[inside]), vm.area, "total solid angle", rtol=.06)
        front = np.sum(o[inside & (w > 0)])
        c.close(front, 2 * np.pi, "solid angle of the front", rtol=.06)
    # read it again, as one gray value where the sun would be
    c.event("pixels", n)
    if where == "header" and not color and vl is None:
        g = io.hdr2array(f)
        xy = ref.pixel_grid(res)
        inn = np.flatnonzero(np.tile((np.hypot(xy[..., 0], xy[..., 1]) < .95).ravel(),
                                     asp))
        if len(inn):
            k = int(inn[c.rng.integers(len(inn))])
            p = vm.ray2pixel(v[k:k + 1], res)[0]
            c.same(p.tolist(), [k // res, k % res], "pixel of the ray")
            c.same(l.reshape(-1)[k], g[p[0], p[1]], "value at the ray's pixel")
