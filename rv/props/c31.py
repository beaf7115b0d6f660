"""C31 which rays count for a view, and with which solid angle"""
import warnings

import numpy as np

from raytools import imagetools
from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import SkipCase, workload

P = "C31"
LEVEL = "exploration"
RULE = ("random ray sets over the whole sphere and images, with too much and too little "
        "solid angle, bright rays that straddle the border of the view; the rays, solid "
        "angles and view area the metrics use are compared with an explicit model and "
        "with conservation of the solid angle")
ASSUMPTIONS = ["views up to 180 degrees; straddling sources of 180 degree views",
               "rays within 1e-9 of a border are not judged"]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return f()


def build_flat(c, v, o, arg, vm, kw):
    c.let(cls="ColorMetricSet", flat=True)
    return quiet(lambda: ColorMetricSet(v, o, arg.ravel(), vm, **kw))


def build(c, v, o, l, vm, correct):
    cls = c.pick(MetricSet, MetricSet, BaseMetricSet, ColorMetricSet)
    kw = {}
    if correct != (cls is not BaseMetricSet) or c.rng.random() < .5:
        kw["omega_as_view_area"] = not correct
    if cls is ColorMetricSet:
        w = (.265, .67, .065)
        t = c.rng.random((len(l), 3)) + .2
        t /= (t @ np.array(w))[:, None]
        arg = t * l[:, None]
        l = arg @ np.array(w)
        if c.rng.random() < .2:
            # red, green and blue of ray after ray in one row
            m, arg = build_flat(c, v, o, arg, vm, kw), arg
            return m, l, arg
    else:
        arg = l
    c.let(cls=cls.__name__, correct=correct)
    keep = v.copy(), o.copy(), np.array(arg)
    m = quiet(lambda: cls(v, o, arg, vm, **kw))
    for a, b, t in zip((v, o, arg), keep, ("vectors", "solid angles", "luminance")):
        c.same(a, b, f"the caller's {t}")
    return m, l, arg


def judge(c, m, vd, va, v, o, l, arg, correct):
    try:
        mask, vec, om, area = ref.clip_view(vd, va, v, o, l, correct)
    except ref.Ambiguous:
        raise SkipCase
    c.check(m.vec.shape == vec.shape, f"{len(m.vec)} rays in view, expected {len(vec)}")
    c.close(m.vec, vec, "directions", rtol=0, atol=1e-7)
    c.close(m.omega, om, "solid angles", rtol=1e-6, atol=1e-11)
    c.close(m.lum, l[mask], "luminance", rtol=1e-9)
    c.close(float(m.view_area), area, "view area", rtol=1e-9)
    if isinstance(m, ColorMetricSet):
        c.close(m.rgb, arg[mask], "channels", rtol=1e-9)
    c.event("rays", len(v))
    c.event("rays_in_view", len(vec))
    return mask, vec, om, area


@workload(P, quick=700, thorough=6000)
def clipping(c):
    """random rays: strict border, normalization of the solid angle"""
    vd = gen.unit(gen.direction(c.rng, c.i if c.i % 3 == 0 else None))
    va = float(c.cycle([180, 180, 120, 60, 180, 90]))
    half = ref.chord_half(va)
    n = int(c.pick(1, 40, 100, 101, 102, 300, 900))
    spread = float(c.pick(.5, .9, 1.05, 2.))
    v = gen.hemisphere(c.rng, n, vd, min(np.pi, half * spread))
    if c.rng.random() < .2:
        # exactly on the border of the view
        side = np.cross(vd, gen.sphere(c.rng, 1)[0])
        if va == 180 and np.count_nonzero(vd) == 1:
            side = np.roll(vd, 1)
            v = np.vstack((v[:-1], [side])) if n > 1 else v
            off = True
        else:
            off = False
    else:
        off = False
    o = c.rng.random(n) + .05
    inv = ref.angle(vd, v) < half
    total = 2 * np.pi * (1 - np.cos(va * np.pi / 360)) * float(c.pick(1, .6, .97, 1.03,
                                                                     1.5, 3))
    o *= total / max(np.sum(o[inv]), 1e-9)
    lum = 10.0 ** c.rng.uniform(0, .9, n)
    correct = bool(c.rng.integers(2))
    c.let(vd=vd, va=va, n=n, spread=spread, on_border=off)
    vm = ViewMapper(vd, va)
    long = v * (c.rng.random((n, 1)) + .1) if c.rng.random() < .3 else v
    m, l, arg = build(c, long, o, lum, vm, correct)
    if off:
        # the ray on the border is not in view
        c.check(len(m.vec) == int(np.sum(ref.angle(vd, v)[:-1] < half)) or n == 1,
                "a ray on the border counts")
        c.event("on_border")
        return
    mask, vec, om, area = judge(c, m, vd, va, v, o, l, arg, correct)
    if not correct or len(vec) <= 100:
        c.same(np.asarray(m.omega), o[mask], "solid angles are left alone")
        c.close(float(m.view_area), float(np.sum(o[mask])), "area is their sum",
                rtol=1e-9)
    elif np.any(om != o[mask]):
        c.close(np.sum(m.omega), vm.area, "solid angles add up to the view", rtol=1e-9)
        c.check(np.all(m.omega >= 0), "negative solid angle")
        inner = np.isclose(m.omega, o[mask], rtol=1e-12)
        ang = ref.angle(vd, vec)
        if inner.any() and not inner.all():
            c.event("corrected")
            f = (m.omega / o[mask])[~inner]
            c.check(np.ptp(f) < 1e-9 * max(1, f.max()), "the border is scaled by one "
                    "factor")


@workload(P, quick=500, thorough=5000)
def strays(c):
    """a bright source on the border counts with the part inside of the view"""
    vd = gen.unit(gen.direction(c.rng))
    va = 180.
    n = int(c.pick(30, 99, 250))
    v = gen.hemisphere(c.rng, n, vd, np.pi / 2 * .98)
    o = c.rng.random(n) + .05
    o *= 2 * np.pi / o.sum()
    lum = c.rng.random(n) + .1
    k = int(c.pick(1, 1, 2, 3))
    dark = c.rng.random() < .15
    sv, so, sl = [], [], []
    for _ in range(k):
        b = np.radians(c.rng.uniform(.05, 1.2))
        d = b * c.rng.uniform(-.9, 1.3)
        if c.rng.random() < .15:
            # a large source
            b = np.radians(c.rng.uniform(3, 12))
            d = np.radians(c.rng.uniform(-2, 1.3))
        d += np.pi / 2
        p = c.rng.uniform(0, 2 * np.pi)
        h, u, f = ref.view_basis(vd)
        sv.append(np.cos(d) * f + np.sin(d) * (np.cos(p) * h + np.sin(p) * u))
        so.append(np.pi * b * b)
        sl.append(float(c.pick(1e3, 1e5)) if not dark else 1.)
    v = np.vstack((v, sv))
    o = np.concatenate((o, so))
    lum = np.concatenate((lum, sl))
    p = c.rng.permutation(len(o))
    v, o, lum = v[p], o[p], lum[p]
    correct = bool(c.rng.integers(2))
    c.let(vd=vd, n=n, k=k, dark=dark)
    vm = ViewMapper(vd, va)
    m, l, arg = build(c, v, o, lum, vm, correct)
    mask, vec, om, area = judge(c, m, vd, va, v, o, l, arg, correct)
    inside = ref.angle(vd, v) < np.pi / 2
    c.check(np.all(ref.angle(vd, m.vec) < np.pi / 2 + 1e-9), "a ray behind the view")
    new = mask & ~inside
    c.event("strays", int(new.sum()))
    if new.any() and not correct:
        j = np.searchsorted(np.flatnonzero(mask), np.flatnonzero(new))
        c.check(np.all(m.omega[j] > -1e-11) and np.all(m.omega[j] <= o[new] / 2 + 1e-11),
                "less than half of a source outside of the view is inside")
    # the light of the sources is in the illuminance, once
    if k == 1 and not dark:
        ct = np.clip(vec @ vd, -1, 1)
        c.close(float(quiet(lambda: m.illum)), np.sum(ct * om * l[mask]) * 179,
                "illuminance", rtol=1e-6)


@workload(P, quick=40, thorough=400)
def images(c):
    """all pixels of an image"""
    vd = gen.unit(gen.direction(c.rng))
    va = float(c.cycle([180, 180, 100]))
    res = int(c.pick(8, 12, 31, 64))
    vm = ViewMapper(vd, va)
    v = vm.pixelrays(res).reshape(-1, 3)
    o = vm.pixel2omega(vm.pixels(res).reshape(-1, 2), res)
    lum = 10.0 ** c.rng.uniform(0, .9, len(v))
    correct = bool(c.rng.integers(2))
    c.let(vd=vd, va=va, res=res)
    m, l, arg = build(c, v, o, lum, vm, correct)
    judge(c, m, vd, va, v, o, l, arg, correct)
    if va == 180 and correct and len(m.vec) > 100:
        c.close(np.sum(m.omega), 2 * np.pi, "solid angle of the view", rtol=1e-9)


@workload(P, quick=40, thorough=300)
def empty(c):
    """nothing in view: no light"""
    vd = gen.unit(gen.direction(c.rng))
    n = int(c.pick(1, 20, 200))
    v = gen.hemisphere(c.rng, n, -vd, np.pi / 2 * .9)
    o, l = c.rng.random(n), c.rng.random(n)
    vm = ViewMapper(vd, 180)
    m = quiet(lambda: MetricSet(v, o, l, vm))
    c.check(len(m.vec) == 0 and len(m.omega) == 0, "rays behind the view count")
    c.check(quiet(lambda: m.illum) == 0, "light from behind")
    c.check(quiet(lambda: m.maxlum) == 0, "maximum of nothing")
    c.event("empty")


@workload(P, quick=60, thorough=600)
def whole(c):
    """views all around: every ray counts; the caller's arrays stay as they are"""
    n = int(c.pick(20, 100, 101, 400))
    vd = gen.unit(gen.direction(c.rng, c.i))
    v = gen.sphere(c.rng, n)
    o = c.rng.random(n) + .1
    o *= 4 * np.pi / np.sum(o) * float(c.pick(1, .98, 1.03))
    lum = 10.0 ** c.rng.uniform(0, 2, n)
    correct = bool(c.rng.integers(2))
    vm = ViewMapper(vd, 360)
    c.let(n=n, vd=vd)
    some = v * 10.0 ** c.rng.uniform(-2, 2, (n, 1)) if c.rng.random() < .4 else v
    m, l, arg = build(c, some, o, lum, vm, correct)
    c.close(m.lum, l, "luminance of all rays", rtol=1e-12)
    c.check(len(m.vec) == n, f"{len(m.vec)} of {n} rays")
    c.close(m.vec, v, "directions", rtol=0, atol=1e-12)
    if not correct or n <= 100:
        c.same(np.asarray(m.omega), o, "solid angles are left alone")
        c.close(float(m.view_area), float(np.sum(o)), "area is their sum", rtol=1e-9)
    else:
        c.close(np.sum(m.omega), 4 * np.pi, "solid angles add up to the view", rtol=1e-9)
    c.event("rays", n)


@workload(P, quick=15, thorough=300)
def specks(c):
    """bright sources as small as the pixels of the largest images, on the border"""
    vd = gen.unit(gen.direction(c.rng))
    n, k = 120, 300
    h, u, f = ref.view_basis(vd)
    v = gen.hemisphere(c.rng, n, vd, np.pi / 2 * .98)
    so = 10.0 ** c.rng.uniform(-10, -4, k)
    b = np.sqrt(so / np.pi)
    # share of the radius the center is outside by
    t = np.where(c.rng.random(k) < .5, c.rng.uniform(0, 1.2, k),
                 10.0 ** c.rng.uniform(-6, 0, k))
    t[np.abs(t - 1) < 1e-3] = .5
    d = np.pi / 2 + t * b
    p = c.rng.uniform(0, 2 * np.pi, k)
    sv = np.cos(d)[:, None] * f + np.sin(d)[:, None] * \
        (np.cos(p)[:, None] * h + np.sin(p)[:, None] * u)
    c.let(vd=vd)
    o = np.append(c.rng.random(n) * .01, so)
    lum = np.append(np.full(n, 1e-3), np.full(k, 1e4))
    vm = ViewMapper(vd, 180)
    # (few are above ten times the average when there are many)
    for i in range(0, k, 10):
        j = np.append(np.arange(n), np.arange(n + i, n + i + 10))
        m = quiet(lambda: MetricSet(np.vstack((v, sv))[j], o[j], lum[j], vm,
                                    omega_as_view_area=True))
        # the border is straight at this size
        s = np.clip(t[i:i + 10], 0, 1)
        want = b[i:i + 10] ** 2 * (np.arccos(s) - s * np.sqrt(1 - s * s))
        w = want[t[i:i + 10] < 1]
        c.check(len(m.omega) == n + len(w), f"{len(m.omega) - n} of {len(w)} sources")
        c.check(np.all(np.isfinite(m.omega)), "a source without solid angle",
                t=t[i:i + 10], omega=so[i:i + 10])
        c.close(m.omega[n:] / so[i:i + 10][t[i:i + 10] < 1],
                w / so[i:i + 10][t[i:i + 10] < 1], "part in view", rtol=0, atol=.02)
        c.check(np.isfinite(quiet(lambda: m.illum)), "illuminance")
        c.event("specks", len(w))
