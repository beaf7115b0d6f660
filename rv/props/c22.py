"""C22 planar mappers and grid indices"""
import numpy as np

from raytools.mapper import Mapper, ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C22"
LEVEL = "exploration"
RULE = ("random bounding boxes, aspect ratios, grid shapes, jitter rates and points; "
        "judged by explicit affine maps, index arithmetic and inverses")
ASSUMPTIONS = ["the scale factor of a planar mapper is the size of its bounding box"]


def planar(c):
    lo = c.rng.normal(size=2) * 10.0 ** c.rng.uniform(-2, 2)
    size = 10.0 ** c.rng.uniform(-2, 2) * np.array((1, c.pick(1, .5, 2, c.rng.uniform(.3, 3))))
    z = float(c.pick(0, 0, c.rng.normal()))
    if c.rng.random() < .2:
        lo, size = np.zeros(2), np.ones(2)
    c.let(lo=lo, size=size, z=z)
    return Mapper(sf=size, bbox=np.stack((lo, lo + size)), uvz=z), lo, size, z


@workload(P, quick=150, thorough=2000)
def plane(c):
    m, lo, size, z = planar(c)
    c.close(m.aspect, size[0] / size[1], "aspect", rtol=1e-9)
    c.close(m.area, size[0] * size[1], "area", rtol=1e-6)
    n = int(c.pick(1, 20))
    q = c.rng.uniform(-.3, 1.3, (n, 2))
    keep = q.copy()
    xyz = m.uv2xyz(q)
    c.close(xyz, np.column_stack((lo + q * size, np.full(n, z))), "uv2xyz", rtol=1e-9,
            atol=1e-12)
    tol = dict(rtol=0, atol=1e-9 + 1e-12 * np.max(np.abs(lo) / size))
    c.close(m.xyz2uv(xyz), q, "uv -> xyz -> uv", **tol)
    big = m.xyz2uv(np.stack((xyz, xyz)))
    c.close(big, np.stack((q, q)), "shape is kept", **tol)
    lead = c.pick((2, 3, 1), (3, 2, 2), (1, 4, 2, 3))
    pick = c.rng.integers(0, n, lead)
    c.close(m.xyz2uv(xyz[pick]), q[pick], "shape with more axes", **tol)
    c.close(m.uv2xyz(m.xyz2uv(xyz)), xyz, "xyz -> uv -> xyz", rtol=1e-9,
            atol=1e-9 * np.max(np.abs(lo) + size))
    o = tuple(c.rng.normal(size=3))
    m.origin = o
    c.close(m.uv2xyz(q, stackorigin=True), np.hstack((np.broadcast_to(o, (n, 3)), xyz)),
            "stackorigin", rtol=1e-10, atol=1e-12)
    want = np.all((q >= 0) & (q <= 1), 1)
    sure = np.all((np.abs(q) > 1e-6) & (np.abs(q - 1) > 1e-6), 1)
    got = m.in_view(xyz, indices=False)
    c.same(got[sure], want[sure], "in view")
    i = m.in_view(xyz)
    f = np.zeros(n, bool)
    f[i] = True
    c.same(f, got, "indices of the view mask")
    c.same(q, keep, "input")
    c.event("points", n)


@workload(P, quick=100, thorough=1000)
def picture(c):
    m, lo, size, z = planar(c)
    res = int(c.pick(2, 7, 20, 33))
    a = size[0] / size[1]
    shape = (int(round(res * a)), res) if a < 1 else (res, int(round(res / a)))
    if min(shape) < 1 or abs((max(a, 1 / a) and res * min(a, 1 / a)) % 1 - .5) < 1e-6:
        return
    c.let(res=res, shape=shape)
    c.same(tuple(m.framesize(res)), shape, "frame size")
    if c.rng.random() < .5:
        # other sizes and proportions in between leave nothing behind
        keep, r2 = m.aspect, int(c.pick(res, res, res + 3))
        m.aspect = b = float(c.pick(2, .5, 1, 3))
        c.same(tuple(m.framesize(r2)),
               (int(round(r2 * b)), r2) if b < 1 else (r2, int(round(r2 / b))),
               "frame size of another aspect")
        c.same(m.pixels(r2).shape[:2], tuple(m.framesize(r2)), "pixels of another aspect")
        m.aspect = keep
        c.same(tuple(m.framesize(res)), shape, "frame size again")
    px = m.pixels(res)
    c.close(px, np.stack(np.mgrid[0:shape[0], 0:shape[1]], -1) + .5, "pixel centers")
    j = float(c.rng.random())
    pj = m.pixels(res, jitter=j) if j > 0 else px
    off = pj - np.floor(px)
    c.check(pj.shape == px.shape and np.all(np.abs(off - .5) <= j / 2 + 1e-12),
            f"jitter of {j} leaves its range")
    if res >= 7:
        c.check(np.ptp(off[..., 0]) > j * .3 and np.ptp(off[..., 1]) > j * .3,
                "jitter does not vary over the pixels")
        if min(shape) > 1:
            c.check(abs(np.corrcoef(off[..., 0].ravel(), off[..., 1].ravel())[0, 1]) <
                    (.97 if shape[0] * shape[1] < 30 else .7), "both coordinates move "
                    "alike")
        c.check(len(np.unique(off[..., 0])) > shape[0] and
                len(np.unique(off[..., 1])) > shape[1], "jitter is shared by pixels")
    rays = m.pixelrays(res)
    c.check(rays.shape == shape + (3,) or rays.shape == (shape[0] * shape[1], 3),
            f"rays {rays.shape}")
    rays = rays.reshape(shape + (3,))
    uv = m.xyz2uv(rays)
    c.close(uv[..., 1], px[..., 1] / shape[1], "row of the rays", rtol=0,
            atol=1e-9 + 1e-12 * np.max(np.abs(lo) / size))
    tol = dict(rtol=0, atol=1e-9 + 1e-12 * np.max(np.abs(lo) / size))
    c.close(m.pixel2ray(px.reshape(-1, 2), shape), rays.reshape(-1, 3),
            "pixel2ray with the size of the frame", rtol=1e-12, atol=1e-12)
    r2 = (int(c.rng.integers(1, 9)), int(c.rng.integers(1, 9)))
    q2 = np.stack(np.mgrid[0:r2[0], 0:r2[1]], -1).reshape(-1, 2) + .5
    c.close(m.xyz2uv(m.pixel2ray(q2, r2))[:, 1], q2[:, 1] / r2[1],
            "row of a ray of another frame", **tol)
    u2 = m.xyz2uv(m.pixel2ray(q2, r2))[:, 0]
    c.close(np.minimum(np.abs(u2 - q2[:, 0] / r2[0]), np.abs(1 - u2 - q2[:, 0] / r2[0])),
            np.zeros(len(q2)), "column of a ray of another frame (or mirrored)", **tol)
    # known: pixel2ray is mirrored, ray2pixel is not
    col = px[..., 0] / shape[0]
    if np.allclose(uv[..., 0], 1 - col, **tol):
        if np.array_equal(m.ray2pixel(rays.reshape(-1, 3), res).reshape(px.shape),
                          np.floor(px).astype(int)):
            c.check(True, "consistent")
        else:
            c.same(m.ray2pixel(rays.reshape(-1, 3), res).reshape(px.shape)[..., 0],
                   shape[0] - 1 - np.floor(px[..., 0]).astype(int),
                   "pixel of a mirrored ray")
            c.known("planar-mirrored-rays", "ray2pixel(pixel2ray(x, y)) is (n-1-x, y)")
    else:
        c.close(uv[..., 0], col, "column of the rays", **tol)
    c.same(m.ray2pixel(rays.reshape(-1, 3), res).reshape(px.shape)[..., 1],
           np.floor(px[..., 1]).astype(int), "row of a ray")
    # points to pixels
    q = c.rng.random((30, 2))
    v = m.uv2xyz(q)
    p = m.ray2pixel(v, res)
    sure = np.all(np.abs(q * shape - np.round(q * shape)) > 1e-6, 1)
    c.same(p[sure], np.floor(q * shape).astype(int)[sure], "pixel of a point")
    c.close(m.ray2pixel(v, res, integer=False), q * shape, "fractional pixel", rtol=0,
            atol=1e-6 * res)
    c.close(m.ray2pixel(v, (5, 9), integer=False), q * (5, 9), "explicit frame",
            rtol=0, atol=1e-5)
    o = m.pixel2omega(px.reshape(-1, 2), res)
    c.close(o, np.full(shape[0] * shape[1], size[0] * size[1] / (shape[0] * shape[1])),
            "pixel area", rtol=1e-6)
    img, vecs, mask, mask2, head = m.init_img(res)
    c.check(img.shape == shape and not img.any(), "image")
    ch = float(c.rng.random() + 1)
    img = m.add_vecs_to_img(img, v[sure], channels=c.pick(ch, (ch, 0, 0)))
    want = np.zeros(shape)
    ij = np.floor(q * shape).astype(int)[sure]
    want[ij[:, 0], ij[:, 1]] = ch
    c.close(img, want, "drawing points")
    c.event("pixels", shape[0] * shape[1])


@workload(P, quick=150, thorough=2000)
def grid(c):
    """flat index -> coordinate -> flat index"""
    view = c.rng.random() < .5
    jr = c.pick(0, .5, 1.0, float(c.rng.random()))
    if view:
        va = c.pick(180, 360, 90)
        m = ViewMapper(gen.direction(c.rng), va, jitterrate=jr)
        s = int(c.pick(1, 2, 5, 16, 31))
        shape = (s * m.aspect, s)
        scale = np.array((s, s))
    else:
        m, *_ = planar(c)
        m.jitterrate = jr
        shape = tuple(int(q) for q in c.rng.integers(1, 20, 2))
        scale = np.array(shape)
    n = shape[0] * shape[1]
    idx = np.arange(n) if c.rng.random() < .6 else c.rng.integers(0, n, 50)
    c.let(view=view, shape=shape, jitterrate=jr, n=len(idx))
    keep = idx.copy()
    ij = np.stack((idx // shape[1], idx % shape[1]), -1)
    uv = m.idx2uv(idx, shape, jitter=False)
    c.close(uv, (ij + .5) / scale, "cell centers", rtol=1e-12)
    c.same(m.uv2idx(uv, shape), idx, "index of the cell center")
    uj = m.idx2uv(idx, shape)
    off = uj * scale - ij
    c.check(uj.shape == (len(idx), 2), f"shape {uj.shape}")
    c.check(np.all(np.abs(off - .5) <= jr / 2 + 1e-9), "jitter leaves its range")
    if jr > 0 and len(idx) > 20:
        c.check(np.ptp(off[:, 0]) > jr * .3 and np.ptp(off[:, 1]) > jr * .3,
                "jitter does not vary")
        c.check(len(np.unique(off)) > len(idx), "jitter is shared by cells")
    sure = np.all((off > 1e-9) & (off < 1 - 1e-9), 1)
    c.same(m.uv2idx(uj[sure], shape), idx[sure], "index of a jittered point")
    # the borders of the cells: each has its lower ones
    m2 = int(2 ** c.rng.integers(0, 6))
    sh = (m2 * (m.aspect if view else int(2 ** c.rng.integers(0, 3))), m2)
    kk = np.arange(sh[0] * sh[1])
    kij = np.stack((kk // m2, kk % m2), -1)
    c.same(m.uv2idx(kij / (m2 if view else np.array(sh)), sh), kk,
           "index of the lower corner of the cells")
    c.same(idx, keep, "input")
    c.event("cells", len(idx))


@workload(P, quick=60, thorough=500)
def jitterpixels(c):
    """pixel jitter of view mappers"""
    m = ViewMapper(gen.direction(c.rng), c.pick(180, 360, 90))
    res = int(c.pick(1, 8, 20))
    j = float(c.pick(0, 1.0, c.rng.random()))
    c.let(res=res, jitter=j)
    px = m.pixels(res, jitter=j)
    base = np.stack(np.mgrid[0:res, 0:res], -1)
    c.check(px.shape == base.shape, f"shape {px.shape}")
    off = px - base
    c.check(np.all(np.abs(off - .5) <= j / 2 + 1e-12), "jitter leaves its range")
    if res >= 8 and j > .01:
        c.check(len(np.unique(off)) > res * res, "jitter is shared by pixels")
        c.check(abs(np.corrcoef(off[..., 0].ravel(), off[..., 1].ravel())[0, 1]) < .7,
                "both coordinates move alike")
        p2 = m.pixels(res, jitter=j)
        c.check(not np.array_equal(p2, px), "jitter repeats")
    r = np.hypot(*np.moveaxis((base + .5) / res * 2 - 1, -1, 0)) < 1 - 2.0 / res
    ok = r & np.all((off > 1e-3) & (off < 1 - 1e-3), -1)
    if ok.any():
        v = m.pixel2ray(px[ok], res)
        c.same(m.ray2pixel(v, res), base[ok], "pixel of a jittered ray")
    c.event("pixels", res * res)


def boxed(a, grow):
    """sum of each window of 2 * grow + 1 pixels, edges mirrored"""
    for ax in (a.ndim - 2, a.ndim - 1):
        n = a.shape[ax]
        acc = np.zeros_like(a)
        for s in range(-grow, grow + 1):
            j = np.mod(np.arange(n) + s, 2 * n)
            acc = acc + np.take(a, np.where(j >= n, 2 * n - 1 - j, j), ax)
        a = acc
    return a


@workload(P, quick=60, thorough=800)
def drawing(c):
    """points on gray and color images, enlarged points, drawings in files"""
    m, lo, size, z = planar(c)
    a = size[0] / size[1]
    res = int(c.pick(7, 20, 33))
    if abs(res * min(a, 1 / a) % 1 - .5) < 1e-6:
        return
    shape = tuple(m.framesize(res))
    color = c.rng.random() < .5
    grow = int(c.pick(0, 0, 1, 2, 3))
    n = int(c.pick(1, 6, 40))
    q = c.rng.uniform(-.4, 1.4, (n, 2))
    if c.rng.random() < .1:
        q = q + 3
    e = q * shape
    q = q[np.all(np.abs(e - np.round(e)) > 1e-6, 1)]
    if not len(q):
        return
    c.let(res=res, color=color, grow=grow, n=n)
    v = m.uv2xyz(q)
    keep = v.copy()
    ij = np.floor(q * shape).astype(int)
    ok = np.all((ij >= 0) & (ij < shape), 1)
    ch = tuple(float(x) for x in c.rng.random(3) + .5)
    img = c.rng.random(((3,) if color else ()) + shape) * .1
    want = img.copy()
    for i, j in ij[ok]:
        want[..., i, j] = ch if color else ch[0]
    kw = dict(grow=grow) if grow or c.rng.random() < .5 else {}
    arg = ch if color or c.rng.random() < .5 else ch[0]
    if c.rng.random() < .2:
        # the default is red
        arg = None
        for i, j in ij[ok]:
            want[..., i, j] = (1, 0, 0) if color else 1
    else:
        kw["channels"] = arg
    # without a point in the frame nothing is done
    if grow and ok.any():
        want = boxed(want, grow)
    out = m.add_vecs_to_img(img, v, **kw)
    c.close(out, want, "image with the points", rtol=1e-9, atol=1e-9)
    c.same(v, keep, "points")
    f = c.path("p.hdr")
    if grow == 1 and c.rng.random() < .5:
        kw.pop("grow")
    elif "grow" not in kw:
        kw["grow"] = 0
    if color:
        kw.pop("channels", None)
    m.plot(v, f, res=res, **kw)
    want = np.zeros(shape)
    for i, j in ij[ok]:
        want[i, j] = kw["channels"] if np.ndim(kw.get("channels")) == 0 and \
            "channels" in kw else kw.get("channels", (1,))[0]
    if grow and ok.any():
        want = boxed(want, grow)
    c.close(ref.hdr_values(f)[1], want, "file", rtol=.01, atol=1e-9)
    c.check(m.header() in ref.read_hdr(f)[0] and m.header().startswith("VIEW= -vtl"),
            "the view is in the header", header=ref.read_hdr(f)[0])
    c.event("points_drawn", int(ok.sum()))


@workload(P, quick=40, thorough=400)
def settings(c):
    """defaults and what can be set"""
    m = Mapper()
    q = np.vstack((c.rng.random((5, 2)), [[0, 0], [1, 1], [0, 1], [1, 0.5]]))
    c.close(m.uv2xyz(q), np.column_stack((q, np.zeros(len(q)))), "the unit square",
            atol=1e-15)
    c.same(m.in_view(m.uv2xyz(q), indices=False), np.ones(len(q), bool),
           "borders belong to the view")
    c.check(m.aspect == 1 and m.area == 1 and m.name == "mapper" and m.jitterrate == 1,
            "defaults", aspect=m.aspect, area=m.area, name=m.name, jr=m.jitterrate)
    c.close(m.dxyz, np.broadcast_to((0, 0, 1.), np.shape(m.dxyz)), "direction")
    c.same(tuple(m.origin), (0, 0, 0), "origin")
    d = np.array(gen.direction(c.rng)) * float(c.rng.uniform(.1, 9))
    o = tuple(c.rng.normal(size=3))
    m, lo, size, z = planar(c)
    asp = float(c.rng.uniform(.2, 5))
    m = Mapper(dxyz=d, sf=size, bbox=np.stack((lo, lo + size)), aspect=asp, name="x y",
               origin=o, jitterrate=0, uvz=z)
    c.check(m.name == "x y" and m.aspect == asp, "name and aspect", aspect=m.aspect)
    c.close(np.ravel(m.dxyz), d / np.linalg.norm(d), "direction is normalized")
    c.close(m.area, size[0] * size[1], "area does not follow from the aspect", rtol=1e-6)
    c.close(m.idx2uv(np.arange(6), (2, 3)), m.idx2uv(np.arange(6), (2, 3), jitter=False),
            "no jitter at rate 0")
    m.aspect = None
    c.close(m.aspect, size[0] / size[1], "aspect of the box", rtol=1e-9)
    xyz = m.vxy2xyz(q, stackorigin=True)
    c.close(xyz[:, :3], np.broadcast_to(o, (len(q), 3)), "origin of the rays")
    c.same(xyz[:, 3:], m.vxy2xyz(q), "rays")
    k = c.rng.integers(0, 2, (4, 2))
    c.same(m.vxy2xyz(k), m.vxy2xyz(k.astype(float)), "integer coordinates")
    c.close(m.xyz2vxy(xyz[:, 3:]), m.xyz2uv(xyz[:, 3:]), "image coordinates are uv")
    m.aspect = None
    res = 9
    shape = tuple(m.framesize(res))
    if min(shape) > 0:
        j = float(c.rng.uniform(.2, 1))
        a, b = (m.pixelrays(res, jitter=j).reshape(shape + (3,)) for _ in "ab")
        p = m.pixelrays(res).reshape(shape + (3,))
        step = size / shape
        off = np.abs(a - p)[..., :2] / step
        tol = 1e-9 + 1e-9 * np.max(np.abs(lo) / step)
        c.check(np.all(off <= j / 2 + tol) and off.max() > j / 8, "jittered rays")
        c.check(not np.array_equal(a, b), "jitter repeats")
        img, vecs, *_ = m.init_img(res, jitter=j)
        off = np.abs(vecs.reshape(shape + (3,)) - p)[..., :2] / step
        c.check(np.all(off <= j / 2 + tol) and off.max() > j / 8, "jittered image rays")
    c.event("mappers")
