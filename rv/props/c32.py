"""C32 position index"""
import numpy as np

from raytools.evaluate import PositionIndex
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C32"
LEVEL = "exploration"
RULE = ("random views and directions (all octants, the axes, close to them, behind); "
        "every index is compared with an independent transcription of Guth, Iwata and "
        "Kim; bounds, symmetry and monotonicity are monitored")
ASSUMPTIONS = ["Kim's index is judged away from the line of sight (it has no limit "
               "there)"]


def directions(c, vd):
    h, u, d = ref.view_basis(vd)
    kind = c.cycle(["front", "sphere", "axes", "close", "plane", "grid"])
    if kind == "front":
        v = gen.hemisphere(c.rng, 60, vd)
    elif kind == "sphere":
        v = gen.sphere(c.rng, 60)
    elif kind == "axes":
        v = np.array([d, h, -h, u, -u, d + h, d - h, d + u, d - u, -d + u, -d + h])
    elif kind == "close":
        e = 10.0 ** c.rng.uniform(-7, -1, (40, 1))
        v = d + e * (c.rng.normal(size=(40, 1)) * h + c.rng.normal(size=(40, 1)) * u)
    elif kind == "plane":
        t = c.rng.uniform(-1.5, 1.5, (40, 1))
        v = np.vstack((np.cos(t) * d + np.sin(t) * h, np.cos(t) * d + np.sin(t) * u))
    else:
        v = ref.fisheye_rays(vd, 178, ref.pixel_grid(12)).reshape(-1, 3)
    c.let(kind=kind)
    return ref.unit(v), kind


@workload(P, quick=300, thorough=4000)
def values(c):
    vd = gen.unit(gen.direction(c.rng, c.i if c.i % 2 else None))
    useguth = c.rng.random() < .65
    v, kind = directions(c, vd)
    h, u, d = ref.view_basis(vd)
    if not useguth:
        v = v[np.hypot(v @ h, v @ u) > 1e-3]
    # the horizon of the view plane and the line between front and back are steps
    z = v @ d
    v = v[np.abs(z) > 1e-9]
    if len(v) == 0:
        return
    va = float(c.pick(180, 360, 90))
    c.let(vd=vd, guth=useguth, n=len(v), va=va)
    vm = ViewMapper(vd, va)
    long = v * 10.0 ** c.rng.uniform(-2, 2, (len(v), 1)) if c.rng.random() < .3 else v
    keep = long.copy()
    pi = PositionIndex(useguth) if not useguth or c.rng.random() < .5 else PositionIndex()
    with np.errstate(all="ignore"):
        got = pi.positions(vm, long)
        again = pi.positions(vm, long)
        pv = pi.positions_vec(tuple(vd * 3), long)
        one = np.array([pi.positions(vm, long[k:k + 1])[0] for k in (0, len(v) // 2)])
        # the caller's array with other content, and another view
        reused = long.copy()
        pi.positions(vm, reused)
        reused[:] = reused[::-1]
        c.close(pi.positions(vm, reused), got[::-1], "reused array", rtol=1e-8, atol=1e-7)
        if va != 360:
            w = ViewMapper(-vd, va)
            pi.positions(w, long)
            w.dxyz = vd
            c.close(pi.positions(w, long), got, "turned view", rtol=1e-8, atol=1e-7)
    c.same(long, keep, "directions")
    c.check(got.shape == (len(v),), f"shape {got.shape}")
    want = ref.guth(vd, v) if useguth else ref.kim(vd, v)
    c.close(got, want, "position index", rtol=2e-6)
    c.same(again, got, "asked twice")
    c.close(pv, got, "from a direction", rtol=1e-6)
    c.close(one, got[[0, len(v) // 2]], "one at a time", rtol=1e-8,
            # (on the axis the arc cosine has half of the digits)
            atol=1e-7)
    if useguth:
        c.check(np.all(got >= 1 - 1e-9) and np.all(got <= 16), "1 to 16")
        c.same(got[v @ d < 0], np.full(int(np.sum(v @ d < 0)), 16.), "behind the view")
    c.check(np.all(np.isfinite(got)) and np.all(got > 0), "finite and positive")
    m = v - 2 * (v @ h)[:, None] * h
    with np.errstate(all="ignore"):
        c.close(pi.positions(vm, m), got, "left and right", rtol=1e-6)
    c.event("directions", len(v))


@workload(P, quick=60, thorough=600)
def monotone(c):
    """further from the line of sight is never more glaring (Guth, Iwata)"""
    vd = gen.unit(gen.direction(c.rng))
    h, u, d = ref.view_basis(vd)
    p = c.rng.uniform(0, 2 * np.pi)
    t = np.sort(c.rng.uniform(0, np.pi / 2 - 1e-6, 80))[:, None]
    v = np.cos(t) * d + np.sin(t) * (np.cos(p) * h + np.sin(p) * u)
    c.let(vd=vd, direction=p)
    with np.errstate(all="ignore"):
        got = PositionIndex().positions(ViewMapper(vd, 180), v)
    c.check(np.all(np.diff(got) >= -1e-6 * got[1:]), "index falls with the angle")
    c.close(got[0], 1, "index at the line of sight", rtol=3 * t[0, 0] + 1e-6)
    with np.errstate(all="ignore"):
        c.close(PositionIndex().positions(ViewMapper(vd, 180), d[None]), [1.],
                "line of sight", rtol=1e-6)
    c.event("paths")
