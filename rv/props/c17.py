"""C17 the rays of an image are those Radiance assigns to the view in its header"""
import subprocess

import numpy as np

from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C17"
LEVEL = "exploration"
RULE = ("random views and resolutions; every in view pixel ray is compared with the "
        "output of Radiance's vwrays for the header line the mapper writes")
ASSUMPTIONS = ["angular fisheye (-vta) headers"]


def vwrays(args, x, y):
    p = subprocess.run(["vwrays", "-fd"] + args + ["-x", str(x), "-y", str(y), "-pa", "0"],
                       capture_output=True)
    if p.returncode != 0:
        raise AssertionError(f"vwrays rejects the view {args}: {p.stderr.decode()}")
    return np.frombuffer(p.stdout).reshape(y, x, 6)


@workload(P, quick=150, thorough=1500)
def rays(c):
    d = gen.direction(c.rng, c.i if c.i % 2 else None)
    va = c.pick(180, 180, 360, 180.0, float(np.round(c.rng.uniform(5, 179), 3)))
    res = int(c.pick(1, 2, 5, 16, 31, 60))
    pt = tuple(float(np.round(q, 4)) for q in c.rng.normal(size=3) * 10) \
        if c.rng.random() < .5 else None
    c.let(d=d, viewangle=va, res=res, pt=pt)
    vm = ViewMapper(d, va)
    head = vm.header() if pt is None else vm.header(pt)
    c.check(head.startswith("VIEW= -vta "), f"header {head}")
    if res < 32:
        got = vm.init_img(res, pt or (0, 0, 0))[4]
        c.same(got, vm.header(pt or (0, 0, 0)), "view of a new image")
    halves = [(vm, head, vm.pixelrays(res)[:res])]
    if va == 360:
        halves.append((vm.ivm, vm.ivm.header() if pt is None else vm.ivm.header(pt),
                       vm.pixelrays(res)[res:]))
    for m, h, mine in halves:
        w = vwrays(h.split()[1:], res, res)
        c.close(w[..., :3], np.broadcast_to(pt or (0., 0, 0), (res, res, 3)),
                "view point", rtol=1e-4, atol=1e-4)
        want = np.swapaxes(w[::-1, :, 3:], 0, 1)
        xy = ref.pixel_grid(res)
        ok = (np.hypot(xy[..., 0], xy[..., 1]) < 1) & \
            (np.linalg.norm(want, axis=-1) > .5)
        if not ok.any():
            raise AssertionError("no pixel to compare")
        vd = h.split()
        vd = np.array(vd[vd.index("-vd") + 1:][:3], float)
        c.close(ref.unit(vd), ref.unit(d) * (1 if m is vm else -1), "direction in the "
                "header", rtol=0, atol=1e-8)
        # the header states the view the mapper was made for
        md = -ref.unit(d) if m is not vm else ref.unit(d)
        mine_view = ref.fisheye_rays(md, min(va, 180), xy)
        c.check(np.all(ref.angle(mine_view, want)[ok] < 2e-5),
                "the header states another view than the mapper's", header=h)
        err = ref.angle(mine, want)[ok]
        c.event("rays_compared", int(ok.sum()))
        if va in (180, 360):
            c.check(np.all(err < 2e-5), f"ray differs from Radiance by {err.max()} rad "
                    f"at pixel {np.argwhere(ok)[np.argmax(err)].tolist()}", header=h)
        elif np.any(err > 2e-5):
            # known: narrow views are scaled by a chord factor
            f = (2 ** .5 / (np.pi / 2)) / (2 * np.sin(va * np.pi / 720) /
                                           (va * np.pi / 360))
            scaled = ref.fisheye_rays(ref.unit(d), va * f, xy)
            e2 = ref.angle(mine, scaled)[ok]
            c.check(np.all(e2 < 1e-5), f"ray differs from Radiance by {err.max()} rad",
                    header=h)
            c.known("narrow-view-chord-factor", f"view {va}: rays at {f:.4f} of their "
                    f"angle")
        else:
            c.check(True, "rays")
