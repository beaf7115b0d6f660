"""C28 every metric is its published formula over the rays in view"""
import warnings

import numpy as np

from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import SkipCase, workload

P = "C28"
LEVEL = "exploration"
RULE = ("random ray sets (sources of every strength, none, only sources, black, single "
        "rays, rays on the axes) for random views and parameters; each metric of the "
        "three classes is compared with an independent transcription of its formula")
ASSUMPTIONS = ["non negative finite luminance, positive solid angles",
               "views up to 180 degrees; narrow views without rays at the border"]
BASE = ["illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "density", "avgraylum",
        "pwavglum", "maxlum"]
FULL = BASE + ["ugp", "dgp", "tasklum", "backlum", "dgp_t1", "log_gc", "dgp_t2", "ugr",
               "threshold", "pwsl2", "view_area", "backlum_true", "srcillum", "srcarea"]


def rays(c, vd, half, kind=None):
    n = int(c.pick(1, 5, 60, 99, 100, 101, 400, 1000))
    kind = kind or c.cycle(["sources", "plain", "black", "bright", "axes", "sources",
                            "sun", "sources", "dim"])
    v = gen.hemisphere(c.rng, n, vd, half)
    if kind == "axes":
        h, u, d = ref.view_basis(vd)
        v = np.array([d, d + h, d - h, d + u, d - u, d + u * 1e-3, d - u * 1e-3,
                      d + h * 1e-9])
        v = np.vstack((ref.unit(v), gen.hemisphere(c.rng, 30, vd, half)))
        n = len(v)
    o = c.rng.random(n) + .05
    o *= 2 * np.pi * (1 - np.cos(half)) / np.sum(o) * c.rng.uniform(.8, 1.2)
    if n >= 99 and c.rng.random() < .15:
        # rays which only mark a direction
        o[c.rng.random(n) < .3] = 0
    lum = 10.0 ** c.rng.uniform(-2, 1, n)
    if kind == "black":
        lum[:] = 0
    elif kind == "dim":
        lum = 10.0 ** c.rng.uniform(-12, -5, n)
    elif kind == "bright":
        lum = 10.0 ** c.rng.uniform(2, 5, n)
    elif kind in ("sources", "axes"):
        m = c.rng.random(n) < .2
        lum[m] = 10.0 ** c.rng.uniform(1, 4, int(m.sum()))
    elif kind == "sun":
        k = int(c.rng.integers(n))
        lum[k], o[k] = 10.0 ** c.rng.uniform(5, 8), 6.8e-5
    c.let(n=n, kind=kind)
    return v, o, lum, kind


def judge(c, got, want, names, rtol=1e-7):
    for k in names:
        g, w = float(got[k]), float(want[k])
        # differences of almost equal numbers
        atol = 0.0
        if k == "backlum":
            atol = 1e-10 * want["illum"]
        if k in ("loggcr", "logpwgcr", "ugr", "ugp"):
            atol = 1e-7
        if k in ("ugr", "ugp") and want["backlum"] < 1e-6 * want["illum"]:
            continue
        if k == "log_gc":
            atol = 1e-12
        c.close(g, w, k, rtol=rtol, atol=atol)
        c.event("values")


@workload(P, quick=300, thorough=4000)
def formulas(c):
    vd = gen.unit(gen.direction(c.rng))
    v, o, lum, kind = rays(c, vd, np.pi / 2 * .97)
    cls = c.pick(MetricSet, MetricSet, BaseMetricSet, ColorMetricSet)
    kw = {}
    if c.rng.random() < .5:
        kw["scale"] = float(c.pick(1., 179., 683.))
    if c.rng.random() < .4:
        kw["guth"] = bool(c.rng.integers(2))
    if cls is not BaseMetricSet:
        if c.rng.random() < .7:
            kw["threshold"] = float(c.pick(.4, 3., 5., 99.9, 100., 100.5, 500., 2000.))
        if c.rng.random() < .4:
            kw["tradius"] = float(c.pick(10., 45., 60., 75., 90.))
        if c.rng.random() < .4:
            kw["lowlight"] = True
    asarea = c.pick(None, True, False)
    if asarea is not None:
        kw["omega_as_view_area"] = asarea
    else:
        asarea = cls is BaseMetricSet
    w = None
    l = lum
    if cls is ColorMetricSet:
        w = np.array(c.pick((.265, .67, .065), (.2, .7, .1), (.1, .2, .3, .4),
                            (.1, .2, .15, .05, .3, .2), (.6, .4), (1.,)))
        tint = c.rng.random((len(lum), len(w))) + .1
        l = tint / (tint @ w)[:, None] * lum[:, None]
        if len(w) != 3 or w[0] != .265 or c.rng.random() < .5:
            kw["vlambda"] = tuple(w)
        lum = l @ w
    long = v * (c.rng.random((len(v), 1)) * 5 + .1 if c.rng.random() < .3 else 1)
    c.let(cls=cls.__name__, vd=vd, kw=kw)
    if kw.get("guth") is False and kind == "axes":
        # (Kim's index has no limit on the line of sight)
        raise SkipCase
    try:
        keep, vec, om, area = ref.clip_view(vd, 180, v, o, lum, not asarea)
    except ref.Ambiguous:
        raise SkipCase
    p = {k: q for k, q in kw.items() if k in ("scale", "threshold", "tradius",
                                              "lowlight")}
    ang = ref.angle(vd, vec)
    if np.any(np.abs(np.degrees(ang) - p.get("tradius", 30)) < 1e-9):
        raise SkipCase
    want = ref.metrics(vd, vec, om, lum[keep], area, useguth=kw.get("guth", True), **p)
    if abs(np.min(np.abs(lum[keep] * p.get("scale", 179.) /
                         want["threshold"] - 1))) < 1e-9:
        raise SkipCase
    vm = ViewMapper(vd, 180)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        names = BASE if cls is BaseMetricSet else FULL
        names = [str(q) for q in c.rng.permutation(names)]
        m = cls(long, o, l, vm, names, **kw)
        # (undefined values are no reason to warn, unless asked to)
        with warnings.catch_warnings():
            warnings.simplefilter("error", RuntimeWarning)
            vals = m()
        c.check(len(vals) == len(names), "one value per metric")
        got = dict(zip(names, vals))
    judge(c, got, want, names)
    if cls is ColorMetricSet:
        ct = np.clip(vec @ vd, -1, 1)
        irr = np.einsum("i,ij,i->j", ct, l[keep], om) * p.get("scale", 179.)
        c.close(m.irradiance, irr, "irradiance", rtol=1e-9)
        c.close(float(np.dot(irr, w)), want["illum"], "illuminance is the weighted "
                "irradiance", rtol=1e-9)
        some = [names[0], "irradiance", names[1]]
        c.close(m(some), [got[names[0]], *irr, got[names[1]]], "irradiance in place",
                rtol=1e-9)
    c.event("sets")


@workload(P, quick=80, thorough=800)
def bounds(c):
    """relations which hold for every picture"""
    vd = gen.unit(gen.direction(c.rng))
    v, o, lum, kind = rays(c, vd, np.pi / 2 * .97, c.pick("sources", "plain", "bright",
                                                          "sun"))
    m = MetricSet(v, o, lum, ViewMapper(vd, 180), threshold=float(c.pick(5, 500, 2000)),
                  lowlight=bool(c.rng.integers(2)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.check(0 <= m.dgp <= 1, f"dgp {m.dgp}")
        c.check(m.ugr >= 0 or np.isnan(m.ugr), f"ugr {m.ugr}")
        c.check(0 <= m.ugp <= 1 or np.isnan(m.ugp), f"ugp {m.ugp}")
        c.check(m.gcr >= m.view_area / np.sum(m.omega) * (1 - 1e-9), f"gcr {m.gcr}")
        c.check(m.pwgcr >= 1 - 1e-9, f"pwgcr {m.pwgcr}")
        c.check(0 <= m.srcillum <= m.illum * (1 + 1e-9), "source illuminance is part of "
                "the illuminance")
        c.check(m.srcarea <= np.sum(m.omega) * (1 + 1e-9), "source area")
        c.check(m.backlum_true <= m.threshold * (1 + 1e-9) or np.isnan(m.backlum_true) or
                np.isnan(m.threshold), "the background is below the threshold")
        c.check(m.avglum <= m.maxlum * max(1, np.sum(m.omega) / m.view_area) *
                (1 + 1e-9), "average and maximum")
        c.check(np.all(m.pos_idx >= 1 - 1e-9) and np.all(m.pos_idx <= 16), "position "
                "index of 1 to 16")
        c.close(m.illum, np.pi * m.backlum + m.srcillum, "illuminance of sources and "
                "background", rtol=1e-9)
    c.event("sets")


@workload(P, quick=30, thorough=300)
def uniform(c):
    """closed forms: a uniform sky"""
    vd = gen.unit(gen.direction(c.rng))
    vm = ViewMapper(vd, 180)
    res = int(c.pick(40, 80))
    L = float(10.0 ** c.rng.uniform(-1, 3))
    v = vm.pixelrays(res).reshape(-1, 3)
    o = vm.pixel2omega(vm.pixels(res).reshape(-1, 2), res)
    c.let(vd=vd, res=res, L=L)
    m = MetricSet(v, o, np.full(len(v), L), vm, threshold=1e9)
    t = 4 / res
    c.close(m.illum, np.pi * L * 179, "illuminance is pi L", rtol=t)
    c.close(m.avglum, L * 179, "average", rtol=1e-6)
    c.close(m.view_area, 2 * np.pi, "view area", rtol=1e-9)
    c.close(np.sum(m.omega), 2 * np.pi, "solid angles add up to the view", rtol=1e-9)
    c.close(m.gcr, 1, "contrast", rtol=1e-6)
    c.close(m.pwgcr, 1, "weighted contrast", rtol=1e-9)
    c.close(m.pwavglum, L * 179, "weighted average", rtol=1e-9)
    c.close(m.tasklum, L * 179, "task", rtol=1e-9)
    c.close(m.backlum, L * 179, "background", rtol=t)
    c.close(m.backlum_true, L * 179, "background", rtol=1e-9)
    c.check(m.srcarea == 0 and m.srcillum == 0 and m.pwsl2 == 0, "no sources")
    c.close(m.dgp, min(1, 5.87e-5 * m.illum + .16), "dgp without sources", rtol=1e-9)
    c.event("sets")


@workload(P, quick=80, thorough=800)
def around(c):
    """views of all directions: nothing is clipped, the metrics without a direction
    follow their formula"""
    vd = gen.unit(gen.direction(c.rng))
    cls = c.pick(MetricSet, BaseMetricSet, ColorMetricSet)
    n = int(c.pick(1, 7, 99, 300))
    v = gen.sphere(c.rng, n)
    o = c.rng.random(n) + .05
    o *= 4 * np.pi / o.sum() * c.rng.uniform(.7, 1.3)
    lum = 10.0 ** c.rng.uniform(-2, 4, n)
    t = float(c.pick(150, 2000, 1e7))
    scale = float(c.pick(1., 179.))
    if np.any(np.abs(lum * scale / t - 1) < 1e-9):
        raise SkipCase
    l = lum
    kw = dict(scale=scale, omega_as_view_area=True)
    if cls is not BaseMetricSet:
        kw["threshold"] = t
    if cls is ColorMetricSet:
        kw["vlambda"] = (.2, .7, .1)
        l = np.repeat(lum[:, None], 3, 1)
    c.let(cls=cls.__name__, n=n, vd=vd, kw=kw)
    m = cls(v, o, l, ViewMapper(vd, 360), **kw)
    a = o.sum()
    L = lum * scale
    avg = np.sum(L * o) / a
    want = dict(avglum=avg, gcr=np.sum(L * L * o) / a / avg ** 2, density=n / a,
                avgraylum=L.mean(), maxlum=L.max(), view_area=a)
    want["loggcr"] = np.log10(want["gcr"])
    if cls is not BaseMetricSet:
        s = L > t
        want.update(threshold=t, srcarea=o[s].sum(), maxlum=L.max())
        if not s.all():
            want["backlum_true"] = np.sum((L * o)[~s]) / o[~s].sum()
        k = ref.angle(vd, v) < np.radians(30)
        if k.any() and not np.any(np.abs(ref.angle(vd, v) - np.radians(30)) < 1e-6):
            want["tasklum"] = np.sum((L * o)[k]) / o[k].sum()
    c.same(np.size(m.lum), n, "rays in view")
    for k, w in want.items():
        c.close(float(getattr(m, k)), w, k, rtol=1e-9, atol=1e-9 if "log" in k else 0)
        c.event("values")
