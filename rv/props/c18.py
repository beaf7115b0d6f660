"""C18 view masks, image initialisation and drawing of directions"""
import numpy as np

from raytools.mapper import SolidViewMapper, ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C18"
LEVEL = "exploration"
RULE = ("random views, resolutions, channel settings and directions; masks are judged "
        "by the angle of each ray, images against an explicit pixel by pixel model")
ASSUMPTIONS = ["rays within 1e-6 of the border of the view are not judged",
               "narrow views: the chord factor of the mapper scales the view (C17)"]


def view(c, angles=(180, 360, 180, 90, 40, 150)):
    d = gen.direction(c.rng, c.i if c.rng.random() < .5 else None)
    va = c.cycle(angles)
    c.let(d=d, viewangle=va)
    half = np.pi / 2
    if va < 180:
        a = va * np.pi / 360
        half = a * (2 ** .5 / (np.pi / 2)) / (2 * np.sin(a / 2) / a)
    return ViewMapper(d, va), ref.unit(d), va, half


@workload(P, quick=150, thorough=2000)
def masks(c):
    vm, d, va, half = view(c)
    shape = c.pick((50,), (1,), (6, 7), (3, 4, 5))
    n = int(np.prod(shape))
    tol = c.pick(0, 0, float(c.rng.uniform(0, .2)), float(c.rng.uniform(.2, 1.5)),
                 -float(c.rng.uniform(0, half)))
    v = gen.hemisphere(c.rng, n, d, min(np.pi, half * 1.6 + max(tol, 0))).reshape(shape + (3,))
    c.let(shape=shape, tol=tol)
    keep = v.copy()
    ang = ref.angle(d, v)
    kw = dict(tol=tol) if tol else {}
    m = vm.in_view(v, indices=False, **kw)
    want = (ang - tol < half).ravel()
    sure = np.abs(ang - tol - half).ravel() > 1e-6
    c.check(np.all((np.ravel(m) == want)[sure]), "mask of rays in view")
    i = vm.in_view(v, **kw)
    c.check(len(i) == len(shape), "one index array per axis")
    full = np.zeros(shape, bool)
    full[i] = True
    c.same(full.ravel(), np.ravel(m), "indices against mask")
    c.same(v, keep, "input")
    c.event("rays", n)


@workload(P, quick=150, thorough=1500)
def initial(c):
    vm, d, va, half = view(c)
    res = int(c.pick(1, 2, 5, 16, 30))
    features = int(c.pick(1, 1, 3, 2))
    proj = c.pick("vta", "vta", "a", "fish", "square", "u", "vuv") if va != 40 else \
        c.pick("vte", "e", "equisolid")
    indices = c.rng.random() < .6
    pt = tuple(np.round(c.rng.normal(size=3), 3))
    c.let(res=res, features=features, viewproj=proj, indices=indices)
    img, vecs, mask, mask2, head = vm.init_img(res, pt, features=features, viewproj=proj,
                                               indices=indices)
    shape = (res * vm.aspect, res)
    c.check(img.shape == ((features,) + shape if features > 1 else shape),
            f"image {img.shape}")
    c.check(not img.any(), "image is not empty")
    c.check(vecs.shape == shape + (3,), f"rays {vecs.shape}")
    vt = {"v": "vta", "a": "vta", "f": "vta", "s": "vuv", "u": "vuv",
          "e": "vte"}[proj[0] if proj not in ("vte", "vuv") else
                      {"vte": "e", "vuv": "u"}[proj]]
    # the view line repeats view point, direction and angle
    hp = head.split()
    c.check(hp[0] == "VIEW=" and hp[1] == "-" + vt, f"header {head}")
    c.close([float(q) for q in hp[hp.index("-vp") + 1:hp.index("-vp") + 4]], pt, "-vp")
    c.close([float(q) for q in hp[hp.index("-vd") + 1:hp.index("-vd") + 4]], d, "-vd",
            rtol=1e-9, atol=1e-12)
    for k in ("-vv", "-vh"):
        c.close(float(hp[hp.index(k) + 1]), vm.viewangle, k)
    if vt == "vuv":
        j = np.stack(np.mgrid[0:res * vm.aspect, 0:res], -1)
        c.close(vecs, vm.uv2xyz(((j + .5) / res).reshape(-1, 2)).reshape(vecs.shape),
                "rays of the square", rtol=0, atol=1e-9)
        c.check(mask is None and mask2 is None, "the square has no mask")
        return
    if vt == "vta":
        c.close(vecs, vm.pixelrays(res), "rays of the pixels", atol=1e-12)
    else:
        c.close(vecs, vm.solid_pixelrays(res), "rays of the pixels", atol=1e-12)
    ang = ref.angle(d, vecs)
    if vm.aspect == 2:
        ang[res:] = ref.angle(-d, vecs[res:])
    want = ang < half
    sure = np.abs(ang - half) > 1e-6
    got = np.zeros(shape, bool)
    if indices:
        got[mask] = True
        if features > 1:
            img[mask2] = 1
            for f in range(features):
                c.same(img[f] == 1, got, f"mask of channel {f}")
            c.check(len(mask2[0]) == features * len(mask[0]), "color mask")
    else:
        got = np.reshape(mask, shape)
    c.check(np.all((got == want)[sure]), "mask of pixels in view")
    c.event("pixels", got.size)


@workload(P, quick=150, thorough=1500)
def draw(c):
    vm, d, va, half = view(c, (180, 360, 90, 180))
    res = int(c.pick(3, 8, 21, 40))
    n = int(c.pick(1, 5, 60))
    v = gen.hemisphere(c.rng, n, d, np.pi if va == 360 else half * 1.2)
    fish = va == 90 or c.rng.random() < .7
    color = c.rng.random() < .5
    grow = int(c.pick(0, 0, 1, 2))
    feat = 3 if color else 1
    img, _, mask, _, _ = vm.init_img(res, features=feat)
    ch = tuple(float(q) for q in c.rng.random(3) + .5)
    if c.rng.random() < .3:
        # zero is a value, None leaves the channel alone
        ch = tuple(float(c.pick(q, 0, 1, -.5)) for q in ch)
    if color and c.rng.random() < .3:
        ch = tuple(None if q else w for q, w in zip(c.rng.random(3) < .4, ch))
    arg = ch if color or c.rng.random() < .5 else ch[0]
    img[:] = c.rng.random(img.shape) * .1
    before = img.copy()
    # rays safely inside of one pixel
    if fish:
        if va == 360:
            off = np.abs(v @ d) > 1e-6
            v = v[off]
            px = np.empty((len(v), 2))
            back = v @ d < 0
            px[~back] = ref.fisheye_xy(d, 180, v[~back])
            px[back] = ref.fisheye_xy(-d, 180, v[back])
            px = (px + 1) / 2 * res
            px[back, 0] += res
        else:
            px = (ref.fisheye_xy(d, half * 360 / np.pi, v) + 1) / 2 * res
            v = v[ref.angle(d, v) < 3]
        if len(v) != len(px):
            return
    else:
        ang = ref.angle(d, v)
        v = v[(np.abs(ang - np.pi / 2) > 1e-3)]
        px = vm.xyz2uv(v) * res
        if va != 360:
            inv = ref.angle(d, v) < np.pi / 2
            # (behind the view: drawn nowhere)
            px[~inv] = -.5
    safe = np.all(np.abs(px - np.round(px)) > 1e-4, 1) & \
        (np.abs(ref.angle(d, v) - half) > 1e-3)
    v, px = v[safe], px[safe]
    usemask = fish and mask is not None and c.rng.random() < .3
    c.let(res=res, n=len(v), fisheye=fish, color=color, grow=grow, masked=usemask)
    hor = np.hypot(d[0], d[1])
    if len(v) == 0 or 0 < hor < 1e-6:
        return
    keep = v.copy()
    out = vm.add_vecs_to_img(img, v, channels=arg, grow=grow, fisheye=fish,
                             mask=mask if usemask else None)
    c.same(v, keep, "directions")
    ij = np.floor(px).astype(int)
    ok = np.all((ij >= 0) & (ij < before.shape[-2:]), 1)
    if usemask:
        allowed = set(zip(mask[0].tolist(), mask[1].tolist()))
        ok &= [tuple(q) in allowed for q in ij.tolist()]
    want = before.copy()
    for i, j in ij[ok]:
        if color:
            for f in range(3):
                if ch[f] is not None:
                    want[f, i, j] = ch[f]
        else:
            want[i, j] = ch[0]
    if grow:
        r = 2 * grow + 1
        w = want.reshape((-1,) + want.shape[-2:])
        acc = np.zeros_like(w)
        for a in (1, 2):
            nn = w.shape[a]
            acc = np.zeros_like(w)
            for s in range(-grow, grow + 1):
                j = np.mod(np.arange(nn) + s, 2 * nn)
                j = np.where(j >= nn, 2 * nn - 1 - j, j)
                acc += np.take(w, j, a)
            w = acc
        want = w.reshape(want.shape)
    c.close(out, want, "image with the directions drawn", rtol=1e-9, atol=1e-9)
    c.event("directions_drawn", int(ok.sum()))


@workload(P, quick=60, thorough=600)
def solid(c):
    """images of an equisolid mapper"""
    d = np.array(gen.direction(c.rng))
    vm = SolidViewMapper(d, 180)
    res = int(c.pick(2, 5, 16, 24))
    features = int(c.pick(1, 3))
    proj = c.pick("vta", "a", "A", "fish", "square", "Uv", "VTA", "vuv", "vtu")
    indices = c.rng.random() < .6
    pt = tuple(np.round(c.rng.normal(size=3), 3))
    c.let(d=d, res=res, features=features, viewproj=proj, indices=indices)
    img, vecs, mask, mask2, head = vm.init_img(res, pt, features=features, viewproj=proj,
                                               indices=indices)
    shape = (res, res)
    c.check(img.shape == ((features,) + shape if features > 1 else shape) and
            not img.any(), f"image {img.shape}")
    fish = proj.lower() in ("vta", "a", "fish")
    hp = head.split()
    c.same(hp[:2], ["VIEW=", "-vta" if fish else "-vuv"], "header")
    if not fish:
        c.check(mask is None and mask2 is None, "the square has no mask")
        j = np.stack(np.mgrid[0:res, 0:res], -1)
        c.close(vecs, vm.uv2xyz(((j + .5) / res).reshape(-1, 2)).reshape(vecs.shape),
                "rays of the square", rtol=0, atol=1e-9)
        return
    c.close(vecs, vm.pixelrays(res).reshape(vecs.shape), "rays of the pixels", atol=1e-12)
    want = ref.angle(d, vecs) < np.pi / 2
    sure = np.abs(ref.angle(d, vecs) - np.pi / 2) > 1e-6
    got = np.zeros(shape, bool)
    if indices:
        got[mask] = True
        if features > 1:
            img[mask2] = 1
            c.same(img == 1, np.stack([got] * 3), "color mask")
    else:
        got = np.reshape(mask, shape)
    c.check(np.all((got == want)[sure]), "mask of pixels in view")
    # and a drawing
    inside = np.argwhere(want & sure)
    if len(inside):
        k = inside[c.rng.integers(0, len(inside), 6)]
        out = vm.add_vecs_to_img(np.zeros(shape), vm.pixelrays(res).reshape(
            shape + (3,))[tuple(k.T)])
        w = np.zeros(shape)
        w[tuple(k.T)] = 1
        c.same(out, w, "drawn pixels")
    c.event("pixels", res * res)


@workload(P, quick=40, thorough=400)
def files(c):
    """drawings in files: the picture and its view"""
    kind = c.cycle(["fish", "fish", "solid"])
    d = np.array(gen.direction(c.rng, c.i if c.rng.random() < .5 else None))
    va = {"fish": float(c.pick(180, 90)), "solid": 180}[kind]
    vm = SolidViewMapper(d, va) if kind == "solid" else ViewMapper(d, va)
    res = int(c.pick(8, 21, 40))
    grow = int(c.pick(0, 1, 1, 2))
    n = int(c.pick(1, 12))
    c.let(kind=kind, d=d, viewangle=va, res=res, grow=grow, n=n)
    v = gen.hemisphere(c.rng, n, d, np.pi / 5)
    ch = float(c.rng.uniform(.5, 100))
    img = np.zeros((res * vm.aspect, res))
    want = vm.add_vecs_to_img(img.copy(), v, channels=ch, grow=grow)
    c.check(want.max() > 0, "nothing drawn")
    f = c.path("p.hdr")
    kw = {} if grow == 1 and c.rng.random() < .6 else dict(grow=grow)
    vm.plot(v, f, res=res, channels=ch, **kw)
    got = ref.hdr_values(f)
    c.close(got[1], want, "drawing", rtol=.01, atol=1e-6 * ch)
    head = ref.read_hdr(f)[0]
    c.check(vm.header() in head, "the view of the mapper is in the header", header=head)
    c.event("files")


@workload(P, quick=20, thorough=200)
def settings(c):
    """defaults"""
    vm = ViewMapper()
    c.check(vm.aspect == 2 and vm.viewangle == 180 and vm.name == "view" and
            vm.jitterrate == .5, "defaults", aspect=vm.aspect, va=vm.viewangle)
    c.close(np.ravel(vm.dxyz)[:3], (0, 1, 0), "direction")
    c.close(vm.area, 4 * np.pi, "area")
    sm = SolidViewMapper()
    c.check(sm.aspect == 1 and sm.viewangle == 180 and sm.name == "solidview" and
            sm.jitterrate == .5, "defaults of the equisolid view")
    c.close(np.ravel(sm.dxyz)[:3], (0, 1, 0), "direction")
    c.close(sm.area, 2 * np.pi, "area")
    c.same((tuple(vm.origin), tuple(sm.origin)), ((0, 0, 0),) * 2, "origin")
    d = np.array(gen.direction(c.rng))
    o = tuple(c.rng.normal(size=3))
    va = float(c.pick(180, 60, 120))
    jr = float(c.rng.random())
    for cls in (ViewMapper, SolidViewMapper):
        m = cls(d * float(c.rng.uniform(.1, 9)), va, "n m", o, jr)
        c.check(m.name == "n m" and m.viewangle == va and m.jitterrate == jr and
                m.aspect == 1, "settings")
        c.close(np.ravel(m.dxyz)[:3], d / np.linalg.norm(d), "direction is normalized",
                atol=1e-12)
        q = c.rng.random((7, 2))
        for fn in ("uv2xyz", "vxy2xyz") + (("solid_vxy2xyz",) if cls is ViewMapper else ()):
            f = getattr(m, fn)
            xyz = f(q, stackorigin=True)
            c.check(xyz.shape == (7, 6), f"{fn}: shape {xyz.shape}")
            c.same(xyz[:, :3], np.broadcast_to(o, (7, 3)), f"{fn}: origin")
            c.same(xyz[:, 3:], f(q), f"{fn}: rays")
        res = 8
        j = float(c.rng.uniform(.3, 1))
        for fn in ("solid_pixelrays",) if cls is ViewMapper else ():
            f = getattr(m, fn)
            p = f(res).reshape(-1, 3)
            a, b = f(res, jitter=j).reshape(-1, 3), f(res, jitter=j).reshape(-1, 3)
            c.check(not np.array_equal(a, b), f"{fn}: jitter repeats")
            # one pixel is less than this angle in the inner half of the image
            px = np.linalg.norm((m.pixels(res) / res - .5).reshape(-1, 2), axis=1) < .25
            off = np.arccos(np.clip(np.sum(p * a, 1), -1, 1))[px]
            c.check(0 < off.max() < j * 2 * va * np.pi / 180 / res,
                    f"{fn}: jittered by {off.max()}")
    c.event("mappers")
