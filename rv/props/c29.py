"""C29 metrics depend on the light field only"""
import warnings

import numpy as np

from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import SkipCase, workload
from rv.props.c28 import FULL, rays

P = "C29"
LEVEL = "exploration"
RULE = ("metamorphic pairs: permuted, rotated, mirrored, scaled, split and duplicated "
        "ray sets, zero light added; the metrics of the real code are compared with "
        "each other")
ASSUMPTIONS = ["up to 180 degree views; rays at the border of view or task are left out"]


def compute(c, v, o, l, vd, names, color=None, **kw):
    vm = ViewMapper(vd, 180)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if color is not None:
            return dict(zip(names, ColorMetricSet(v, o, l[:, None] * color, vm, names,
                                                  **kw)()))
        return dict(zip(names, MetricSet(v, o, l, vm, names, **kw)()))


def agree(c, a, b, names, rtol=1e-6):
    for k in names:
        x, y = float(a[k]), float(b[k])
        # logarithms, and differences of almost equal numbers
        at = 1e-6 if k in ("loggcr", "logpwgcr", "ugr", "ugp") else 0
        if k in ("backlum", "ugr", "ugp"):
            if a["backlum"] < 1e-6 * a["illum"]:
                continue
        c.close(y, x, k, rtol=rtol, atol=at)
        c.event("values")


def setup(c):
    vd = gen.unit(gen.direction(c.rng))
    v, o, l, kind = rays(c, vd, np.pi / 2 * .9, c.cycle(["sources", "plain", "bright",
                                                         "sun", "sources"]))
    kw = dict(threshold=float(c.pick(5., 500., 2000.)))
    if c.rng.random() < .4:
        kw["lowlight"] = True
    if c.rng.random() < .4:
        kw["guth"] = False
    if c.rng.random() < .5:
        kw["omega_as_view_area"] = True
    ang = np.degrees(ref.angle(vd, v))
    if np.any(np.abs(ang - 30) < 1e-6) or np.any(np.abs(l * 179 / 500 - 1) < 1e-6) or \
            np.any(np.abs(l * 179 / 2000 - 1) < 1e-6):
        raise SkipCase
    if kw["threshold"] < 100:
        t = ang < 30
        if not t.any():
            raise SkipCase
        th = np.sum((l * o)[t]) / np.sum(o[t]) * kw["threshold"]
        if np.any(np.abs(l / th - 1) < 1e-6):
            raise SkipCase
    try:
        ref.clip_view(vd, 180, v, o, l, True, 1e-6)
    except ref.Ambiguous:
        raise SkipCase
    color = None
    if c.rng.random() < .25:
        color = c.rng.random(3) + .2
        color /= color @ np.array((.265, .67, .065))
        color = color[None]
    c.let(vd=vd, kw=kw, color=color is not None)
    return vd, v, o, l, kw, color


def rotation(axis, t):
    a = ref.unit(axis)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(t) * k + (1 - np.cos(t)) * k @ k


@workload(P, quick=200, thorough=2500)
def order(c):
    """any order of rays; rays of the same direction may be split or lumped; lengths of
    direction vectors do not matter"""
    vd, v, o, l, kw, color = setup(c)
    a = compute(c, v, o, l, vd, FULL, color, **kw)
    p = c.rng.permutation(len(o))
    b = compute(c, v[p], o[p], l[p], vd, FULL, color, **kw)
    agree(c, a, b, FULL)
    s = 10.0 ** c.rng.uniform(-2, 2, (len(o), 1))
    agree(c, a, compute(c, v * s, o, l, vd, FULL, color, **kw), FULL)
    s = 10.0 ** c.rng.uniform(-2, 2)
    agree(c, a, compute(c, v, o, l, vd * s, FULL, color, **kw), FULL)


@workload(P, quick=200, thorough=2500)
def split(c):
    vd, v, o, l, kw, color = setup(c)
    kw["omega_as_view_area"] = True
    a = compute(c, v, o, l, vd, FULL, color, **kw)
    k = c.rng.integers(1, 4, len(o))
    i = np.repeat(np.arange(len(o)), k)
    w = c.rng.random(len(i)) + .1
    w /= np.bincount(i, w)[i]
    b = compute(c, v[i], o[i] * w, l[i], vd, FULL, color, **kw)
    agree(c, a, b, [q for q in FULL if q not in ("density", "avgraylum")])
    # rays behind the view change nothing
    n = int(c.pick(1, 30))
    back = gen.hemisphere(c.rng, n, -vd, np.pi / 2 * .95)
    b = compute(c, np.vstack((v, back)), np.concatenate((o, c.rng.random(n))),
                np.concatenate((l, c.rng.random(n) * l.max())), vd, FULL, color, **kw)
    agree(c, a, b, FULL)
    # however bright they are
    sun = 10.0 ** c.rng.uniform(0, 9, n) * (1 + l.max())
    b = compute(c, np.vstack((back, v)), np.concatenate((c.rng.random(n), o)),
                np.concatenate((sun, l)), vd, FULL, color, **kw)
    agree(c, a, b, FULL)
    c.event("splits")


@workload(P, quick=200, thorough=2500)
def turned(c):
    """turning view and rays together about the vertical, and mirroring left and
    right"""
    vd, v, o, l, kw, color = setup(c)
    if np.hypot(vd[0], vd[1]) < 1e-3:
        raise SkipCase
    a = compute(c, v, o, l, vd, FULL, color, **kw)
    r = rotation((0, 0, 1), c.rng.uniform(0, 2 * np.pi))
    agree(c, a, compute(c, v @ r.T, o, l, r @ vd, FULL, color, **kw), FULL, 1e-5)
    h, u, d = ref.view_basis(vd)
    m = v - 2 * (v @ h)[:, None] * h
    agree(c, a, compute(c, m, o, l, vd, FULL, color, **kw), FULL, 1e-5)
    # up and down: everything without the position index
    m = v - 2 * (v @ u)[:, None] * u
    flat = ["illum", "avglum", "gcr", "loggcr", "density", "avgraylum", "maxlum",
            "tasklum", "backlum", "dgp_t1", "threshold", "view_area", "backlum_true",
            "srcillum", "srcarea"]
    b = compute(c, m, o, l, vd, FULL, color, **kw)
    agree(c, a, b, flat, 1e-5)
    # rolled pictures about the line of sight
    r = rotation(vd, c.rng.uniform(0, 2 * np.pi))
    b = compute(c, v @ r.T, o, l, vd, FULL, color, **kw)
    agree(c, a, b, flat, 1e-5)
    c.event("turns")


@workload(P, quick=200, thorough=2500)
def scaled(c):
    """units of the picture: scale factors and luminance"""
    vd, v, o, l, kw, color = setup(c)
    kw.pop("lowlight", None)
    k = float(10.0 ** c.rng.uniform(-1, 1))
    a = compute(c, v, o, l, vd, FULL, color, scale=179., **kw)
    # the scale is nothing but a factor of luminance
    agree(c, a, compute(c, v, o, l * 179., vd, FULL, color, scale=1., **kw), FULL)
    if kw["threshold"] > 100:
        kw["threshold"] = max(100.001, kw["threshold"] * k)
        a = compute(c, v, o, l, vd, FULL, color, scale=179.,
                    **dict(kw, threshold=kw["threshold"] / k
                           if kw["threshold"] / k > 100 else 100.001))
        if abs(kw["threshold"] / k - 100) < 1 or kw["threshold"] / k < 101:
            raise SkipCase
    b = compute(c, v, o, l * k, vd, FULL, color, scale=179., **kw)
    for q in ("illum", "avglum", "pwavglum", "avgraylum", "maxlum", "tasklum",
              "threshold", "srcillum", "backlum_true", "dgp_t1"):
        if q == "threshold" and kw["threshold"] > 100:
            continue
        c.close(float(b[q]), k * a[q], q, rtol=1e-6)
    c.close(float(b["pwsl2"]), k * k * a["pwsl2"], "pwsl2", rtol=1e-6)
    for q in ("gcr", "pwgcr", "density", "view_area", "srcarea"):
        c.close(float(b[q]), a[q], q, rtol=1e-6)
    # brighter sources are never less glaring
    if kw["threshold"] > 100:
        m = l * 179 > kw["threshold"]
        if m.any() and not m.all():
            l2 = np.where(m, l * 2, l)
            x = compute(c, v, o, l, vd, FULL, color, **kw)
            y = compute(c, v, o, l2, vd, FULL, color, **kw)
            # (sources may have no part in it: behind, at the rim, without solid angle)
            seen = x["srcillum"] > 1e-9 * x["illum"]
            for q in ("illum", "pwsl2"):
                c.check(y[q] > x[q] if seen else y[q] >= x[q] * (1 - 1e-9),
                        f"brighter sources, {q}", before=x[q], after=y[q])
            if np.isfinite(x["ugr"]) and x["backlum"] > 1e-6 * y["illum"]:
                c.check(y["ugr"] >= x["ugr"] - 1e-9, "brighter sources, ugr")
    c.event("scales")


@workload(P, quick=150, thorough=1500)
def superposed(c):
    """light adds up: illuminance, average and irradiance of two light fields on the
    same rays; source terms of disjoint sources"""
    vd, v, o, l, kw, color = setup(c)
    kw.update(threshold=500., omega_as_view_area=True)
    l2 = c.rng.random(len(l)) * l.max() * (c.rng.random(len(l)) < .3)
    flat = ["illum", "avglum", "avgraylum", "tasklum"]
    a = compute(c, v, o, l, vd, flat, color, **kw)
    b = compute(c, v, o, l2, vd, flat, color, **kw)
    s = compute(c, v, o, l + l2, vd, flat, color, **kw)
    for k in flat:
        c.close(s[k], a[k] + b[k], k, rtol=1e-7)
    rgb = np.stack((l, l2, l + l2), -1)
    m = ColorMetricSet(v, o, rgb, ViewMapper(vd, 180), ["irradiance", "illum"],
                       vlambda=(0, 0, 1.), omega_as_view_area=True)()
    c.close(m, [a["illum"], b["illum"], s["illum"], s["illum"]], "irradiance of the "
            "channels", rtol=1e-7)
    if len(o) < 4:
        return
    part = c.rng.integers(0, 2, len(o)).astype(bool)
    if part.all() or not part.any():
        return
    add = ["illum", "pwsl2", "srcillum", "srcarea"]
    c.check(MetricSet.check_safe2sum(["illum", "pwsl2", "srcillum"]), "safe to sum")
    c.check(not MetricSet.check_safe2sum(["illum", "dgp"]), "not safe to sum")
    cls = c.pick(MetricSet, ColorMetricSet)
    # ratios, logarithms and maxima do not add up
    for q in ("gcr", "loggcr", "pwgcr", "logpwgcr", "maxlum", "dgp", "dgp_t2", "ugp", "ugr",
              "log_gc", "threshold"):
        some = c.pick([q], [q, "illum"], ["illum", q, "pwsl2"], ("srcillum", q))
        c.check(not cls.check_safe2sum(some), f"{some} are not safe to sum")
    c.check(not BaseMetricSet.check_safe2sum(c.pick(["gcr"], ["illum", "loggcr"],
                                                    ["maxlum", "avglum"])), "not safe to sum")
    w = compute(c, v, o, l, vd, add, color, **kw)
    p = [compute(c, v[q], o[q], l[q], vd, add, color, **kw) for q in (part, ~part)]
    for k in add:
        c.close(p[0][k] + p[1][k], w[k], f"{k} of parts", rtol=1e-7)
    c.event("sums")
