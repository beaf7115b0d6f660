"""C16 view mapper coordinates invert each other"""
import numpy as np

from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C16"
LEVEL = "exploration"
RULE = ("random view directions (axes, straight up and down, near vertical), angles "
        "(narrow, 180, 360), resolutions and histories of view changes; every mapping "
        "is applied and inverted, 180 degree rays are compared with an independent "
        "fisheye")
ASSUMPTIONS = ["view angles up to 180 or exactly 360",
               "360 degree views: pixels outside of both image circles and pixel2ray "
               "with x >= res are not judged"]
ANGLES = [180, 360, 180, 90, 150, 30, 5, 360, 179]


def mapper(c, angles=ANGLES):
    """a mapper, made directly or by changing the direction of another"""
    d = gen.direction(c.rng, c.i if c.rng.random() < .5 else None)
    va = c.cycle(angles)
    va = c.pick(va, float(va))
    hist = c.pick("new", "new", "set", "set2")
    if c.rng.random() < .3:
        # the length of the direction is of no meaning
        d = tuple(q * float(10 ** c.rng.uniform(-9, 9)) for q in d)
    if hist == "new":
        vm = ViewMapper(d, va)
    else:
        vm = ViewMapper(gen.direction(c.rng), va)
        if hist == "set2":
            vm.dxyz = gen.direction(c.rng)
            vm.pixelrays(int(c.pick(4, 5, 8)))
            vm.solid_pixelrays(8)
            vm.pixels(8)
        vm.dxyz = d
    c.let(d=d, viewangle=va, history=hist)
    return vm, ref.unit(d), va


@workload(P, quick=150, thorough=2000)
def frame(c):
    vm, d, va = mapper(c)
    c.close(vm.dxyz, d, "view direction", rtol=0, atol=1e-12)
    c.check(vm.aspect == (2 if va == 360 else 1), f"aspect {vm.aspect}")
    c.check(vm.viewangle == (180 if va == 360 else va), f"viewangle {vm.viewangle}")
    if va == 360:
        c.close(vm.ivm.dxyz, -d, "direction of the opposite view", rtol=0, atol=1e-12)
        c.check(vm.ivm.viewangle == 180 and vm.ivm.aspect == 1, "opposite view")
    else:
        c.check(vm.ivm is None, "no opposite view")
    v = np.vstack((gen.sphere(c.rng, 40), [d, -d], gen.AXES))
    keep = v.copy()
    w = vm.world2view(v)
    c.close(w[40], (0, 0, 1), "view direction in view space", rtol=0, atol=1e-7)
    c.close(w @ w.T, v @ v.T, "isometry", rtol=0, atol=1e-9)
    c.close(vm.view2world(w), v, "view2world", rtol=0, atol=1e-9)
    c.close(vm.world2view(vm.view2world(v)), v, "world2view", rtol=0, atol=1e-9)
    c.close(vm.world2view(v[3]), w[3:4], "single vector", rtol=0, atol=1e-12)
    ang = ref.angle(d, v)
    c.close(vm.radians(v), ang, "radians", rtol=0, atol=4e-8)
    c.close(vm.degrees(v), np.degrees(ang), "degrees", rtol=0, atol=3e-6)
    c.close(vm.ctheta(v), np.cos(ang), "ctheta", rtol=0, atol=1e-9)
    c.close(vm.ctheta(v[:6].reshape(2, 3, 3)), np.cos(ang[:6]), "ctheta of an image",
            rtol=0, atol=1e-9)
    c.same(v, keep, "input")
    # a changed mapper is the same as a new one
    new = ViewMapper(d, va)
    for a, b in ((vm.pixelrays(5), new.pixelrays(5)),
                 (vm.solid_pixelrays(8), new.solid_pixelrays(8)), (vm.xyz2uv(v), new.xyz2uv(v)),
                 (vm.area, new.area)):
        c.close(a, b, "history of the mapper", rtol=1e-9, atol=1e-7)


@workload(P, quick=150, thorough=2000)
def uv(c):
    vm, d, va = mapper(c)
    n = int(c.pick(1, 20, 200))
    q = c.rng.random((n, 2)) * (vm.aspect, 1)
    q = np.clip(q, 1e-4, (vm.aspect - 1e-4, 1 - 1e-4))
    q[np.abs(q[:, 0] - 1) < 1e-4, 0] = .5
    keep = q.copy()
    xyz = vm.uv2xyz(q if n > 1 else q[0])
    c.check(xyz.shape == (n, 3), f"shape {xyz.shape}")
    c.close(np.linalg.norm(xyz, axis=1), np.ones(n), "unit vectors", atol=1e-9)
    c.close(vm.xyz2uv(xyz), q, "uv -> xyz -> uv", rtol=0, atol=2e-6)
    c.same(q, keep, "input")
    o = tuple(c.rng.normal(size=3))
    vm.origin = o
    st = vm.uv2xyz(q, stackorigin=True)
    c.close(st, np.hstack((np.broadcast_to(o, (n, 3)), xyz)), "stackorigin", rtol=1e-12, atol=1e-12)
    c.close(vm.uv2xyz((.5, .5)), d[None], "center of the square", rtol=0, atol=1e-7)
    # in view directions -> uv -> directions
    half = np.pi if va == 360 else va * np.pi / 360 * .9
    v = gen.hemisphere(c.rng, n, d, half)
    w = vm.world2view(v)
    v = v[np.abs(w[:, 2]) > 1e-4]
    if len(v):
        g = vm.xyz2uv(v)
        c.check(np.all((g >= -1e-9) & (g <= (vm.aspect + 1e-9, 1 + 1e-9))),
                "uv outside of the square")
        c.close(vm.uv2xyz(g), v, "xyz -> uv -> xyz", rtol=0, atol=2e-6)
    # the square is an equal area map of the view
    h = 1e-5
    a = np.clip(q, .01, (.99, .99))
    f = np.abs(np.abs(a[:, 0] - .5) - np.abs(a[:, 1] - .5)) > 4 * h
    a = a[f]
    if len(a):
        du = (vm.uv2xyz(a + (h, 0)) - vm.uv2xyz(a - (h, 0))) / (2 * h)
        dv = (vm.uv2xyz(a + (0, h)) - vm.uv2xyz(a - (0, h))) / (2 * h)
        el = np.linalg.norm(np.cross(du, dv), axis=1)
        s = 1 if va == 360 else va / 180
        c.close(el, np.full(len(a), 2 * np.pi * s * s), "area element", rtol=2e-3)
    c.event("coordinates", n)


@workload(P, quick=150, thorough=2000)
def image(c):
    vm, d, va = mapper(c)
    res = int(c.pick(1, 2, 3, 8, 17, 40))
    c.let(res=res)
    px = vm.pixels(res)
    c.check(px.shape == (res, res, 2), f"pixels {px.shape}")
    c.close(px, np.stack(np.mgrid[0:res, 0:res], -1) + .5, "pixel centers")
    rays = vm.pixelrays(res)
    c.check(rays.shape == (res * vm.aspect, res, 3), f"rays {rays.shape}")
    c.close(np.linalg.norm(rays, axis=-1), np.ones(rays.shape[:2]), "unit rays",
            atol=1e-9)
    xy = ref.pixel_grid(res)
    r = np.hypot(xy[..., 0], xy[..., 1])
    idx = np.stack(np.mgrid[0:res * vm.aspect, 0:res], -1)
    for k in range(vm.aspect):
        part = rays[k * res:(k + 1) * res]
        ok = r < 1 - 1e-6
        if k == 0:
            c.close(vm.pixel2ray(px.reshape(-1, 2), res).reshape(res, res, 3), part,
                    "pixel2ray of the pixel centers", atol=1e-12)
        if not ok.any():
            continue
        got = vm.ray2pixel(part[ok], res)
        c.same(got, idx[k * res:(k + 1) * res][ok], "pixel -> ray -> pixel")
        fl = vm.ray2pixel(part[ok], res, integer=False)
        c.close(fl, idx[k * res:(k + 1) * res][ok] + .5, "pixel center", rtol=0,
                atol=1e-5 * res)
        if va in (180, 360):
            # right and up of the image, from its definition
            want = ref.fisheye_rays(d if k == 0 else -d, 180, xy)
            hor = np.hypot(d[0], d[1])
            if hor > 1e-6 or hor == 0:
                c.close(part[ok], want[ok], "fisheye rays", rtol=0, atol=1e-6)
                c.event("fisheye_rays", int(ok.sum()))
    keep = rays.copy()
    if rays.flags.writeable:
        rays[...] = 0
    c.close(vm.pixelrays(res), keep, "the rays are asked again", atol=1e-12)
    # image coordinates
    n = int(c.pick(1, 30, 100))
    q = c.rng.random((n, 2)) if n > 1 else np.array([[.5, .5]])
    q = q[np.hypot(*(q * 2 - 1).T) < .999]
    if len(q) == 0:
        q = np.array([[.25, .5]])
    keep = q.copy()
    v = vm.vxy2xyz(q)
    c.same(q, keep, "input")
    c.close(vm.xyz2vxy(v), q, "image -> xyz -> image", rtol=0, atol=1e-6)
    c.close(vm.vxy2xyz((.5, .5)), d[None], "center of the image", rtol=0, atol=1e-7)
    o = tuple(c.rng.normal(size=3))
    vm.origin = o
    c.close(vm.vxy2xyz(q, stackorigin=True),
            np.hstack((np.broadcast_to(o, (len(q), 3)), v)), "stackorigin", atol=1e-12)
    # close to the axis the image is a plane
    w = vm.view2world(np.array([[1., 0, 0], [0, 1, 0]]))
    eps = 10. ** c.rng.uniform(-7, -2.5, 12)
    phi = c.rng.uniform(0, 2 * np.pi, 12)
    side = np.cos(phi)[:, None] * w[0] + np.sin(phi)[:, None] * w[1]
    off = (vm.xyz2vxy(ref.unit(d + eps[:, None] * side)) - .5) / eps[:, None]
    c.close(off, (vm.xyz2vxy(ref.unit(d + 2e-3 * side)) - .5) / 2e-3,
            "scale near the axis", rtol=0, atol=np.abs(off).max() * (1e-4 + 2 * (
                2e-15 + np.abs(vm.world2view(d)[0, :2]).max()) / eps.min()))
    half = np.pi if va == 360 else va * np.pi / 360
    v = gen.hemisphere(c.rng, n, d, half * .99)
    if va == 360:
        v = v[np.abs(v @ d) > 1e-6]
    elif va == 180:
        v = v[v @ d > 1e-6]
    g = vm.xyz2vxy(v)
    if va != 360:
        c.close(vm.vxy2xyz(g), v, "xyz -> image -> xyz", rtol=0, atol=1e-6)
    else:
        back = v @ d < 0
        c.check(np.all((g[:, 0] > 1) == back), "the back half is right of the front")
        c.close(vm.vxy2xyz(g[~back]), v[~back], "front half", rtol=0, atol=1e-6)
        c.close(vm.ivm.vxy2xyz(g[back] - (1, 0)), v[back], "back half", rtol=0,
                atol=1e-6)
        c.check(np.all((g >= 0) & (g <= (2, 1))), "image coordinates out of range")
    c.event("rays", len(v) + res * res)


@workload(P, quick=60, thorough=600)
def equisolid(c):
    """the equisolid image coordinates invert each other"""
    vm, d, va = mapper(c, [180, 120, 60])
    n = int(c.pick(1, 50))
    q = c.rng.random((n, 2)) * .98 + .01
    q = q[np.hypot(*(q * 2 - 1).T) < .98]
    if len(q) == 0:
        q = np.array([[.3, .6]])
    keep = q.copy()
    v = vm.solid_vxy2xyz(q)
    c.close(np.linalg.norm(v, axis=1), np.ones(len(q)), "unit vectors", atol=1e-9)
    c.close(vm.solid_xyz2vxy(v), q, "image -> xyz -> image", rtol=0, atol=1e-6)
    c.same(q, keep, "input")
    res = int(c.pick(1, 9, 20))
    c.let(res=res)
    rays = vm.solid_pixelrays(res)
    c.check(rays.shape == (res, res, 3), f"shape {rays.shape}")
    ok = np.hypot(*np.moveaxis(ref.pixel_grid(res), -1, 0)) < .98
    if ok.any():
        c.same(vm.solid_ray2pixel(rays[ok], res),
               np.stack(np.mgrid[0:res, 0:res], -1)[ok], "pixel -> ray -> pixel")
        c.close(vm.solid_ray2pixel(rays[ok], res, integer=False),
                np.stack(np.mgrid[0:res, 0:res], -1)[ok] + .5, "pixel center", rtol=0,
                atol=1e-5 * res)
    c.close(vm.solid_pixel2ray(vm.pixels(res).reshape(-1, 2), res).reshape(rays.shape),
            rays, "solid_pixel2ray", atol=1e-12)
    # on axis both projections agree, azimuths agree everywhere
    c.close(vm.solid_vxy2xyz((.5, .5)), d[None], "center", rtol=0, atol=1e-6)
    a, b = vm.world2view(v), vm.world2view(vm.vxy2xyz(q))
    s = np.hypot(*(q * 2 - 1).T) > 1e-3
    da = np.arctan2(a[s, 1], a[s, 0]) - np.arctan2(b[s, 1], b[s, 0])
    c.check(np.all(np.abs(np.sin(da)) < 1e-6) and np.all(np.cos(da) > 0),
            "azimuth of equisolid coordinates")
    c.event("rays", len(q))
