"""C34 eye models: point spread, blurred sun, ganglion cell densities"""
import json
import os

import numpy as np

from raytools.evaluate import retina
from rv import gen
from rv.core import workload

P = "C34"
LEVEL = "exploration"
RULE = ("random widths, peaks, sizes and visual field points (axes, fovea, rim, all four "
        "quadrants); judged by independent transcriptions of Yang 2008, Watson 2014 and "
        "the data of Curcio & Allen 1990, and by symmetry, bounds and monotonicity")
ASSUMPTIONS = ["visual field points lie on the unit disk (eccentricity up to 90 degrees)",
               "at the fovea itself the density of any one of the meridians is accepted"]

# temporal, superior, nasal, inferior
WATSON = ((0.9851255243509307, 1.057910790284875, 22.139309670912258),
          (0.9934935604656688, 1.0354962329628912, 16.346430181031927),
          (0.9729319961934142, 1.0841663616483523, 7.632575316432455),
          (0.9960391452747578, 0.993222146189384, 12.131840717293096))
with open(os.path.join(os.path.dirname(__file__), "..", "curcio.json")) as _f:
    CURCIO = [np.array(m) for m in json.load(_f)]


def field(r, k, everywhere=True):
    """Watson 2014 eq. 4; everywhere=False: the far term without foveal density"""
    a, r2, re = WATSON[k]
    far = (1 - a) * np.exp(-r / re) * (33162.4 if everywhere else 1)
    return 33162.4 * a * (1 + r / r2) ** -2 + far


def cells(r, k):
    return max(float(np.interp(r, CURCIO[k][:, 0], CURCIO[k][:, 1])), 1.)


def single(p, func, byy):
    """density at a point of one eye's visual field: ellipse between meridians"""
    x, y = p
    r = float(np.hypot(x, y))
    if r == 0:
        return None
    dx = func(r, 0 if x > 0 else 2)
    dy = func(r, 1 if (y if byy else x) > 0 else 3)
    return r * r / (x * x / dx + y * y / dy)


def both(p, func, byy):
    x, y = p
    return (single((x, y), func, byy) + single((-x, y), func, byy)) / 2


def points(c, n=40):
    kind = c.cycle(["disk", "axes", "fovea", "rim", "grid", "one"])
    rng = c.rng
    n = int(c.pick(n, n, 2, 300))
    if kind == "disk":
        t, r = rng.uniform(0, 2 * np.pi, n), np.sqrt(rng.random(n))
    elif kind == "axes":
        t, r = np.pi / 2 * rng.integers(0, 4, n), rng.random(n)
    elif kind == "fovea":
        t, r = rng.uniform(0, 2 * np.pi, n), 10.0 ** rng.uniform(-6, -1.5, n)
    elif kind == "rim":
        t, r = rng.uniform(0, 2 * np.pi, n), np.full(n, 1 - 1e-9)
    elif kind == "grid":
        g = (np.stack(np.meshgrid(np.arange(7), np.arange(7))).reshape(2, -1).T - 3) / 3.2
        g = g[np.linalg.norm(g, axis=1) <= 1]
        return (g if rng.random() < .5 else g[np.any(g != 0, axis=1)]), kind
    else:
        t, r = rng.uniform(0, 2 * np.pi, 1), rng.random(1) + 1e-9
    xy = r[:, None] * np.stack((np.cos(t), np.sin(t)), 1)
    if kind == "axes":
        xy[np.abs(xy) < 1e-12] = 0
    return xy, kind


@workload(P, quick=400, thorough=6000)
def densities(c):
    xy, kind = points(c)
    which = c.pick("field", "cells")
    c.let(kind=kind, which=which, n=len(xy), first=xy[0])
    f = retina.rgcf_density if which == "field" else retina.rgc_density
    keep = xy.copy()
    with np.errstate(all="ignore"):
        got = f(xy)
        mirrored = f(xy * [-1, 1])
        one = np.array([f(xy[k:k + 1])[0] for k in range(min(4, len(xy)))])
        again = f(xy)
        whole = c.rng.integers(-1, 2, (5, 2))
        whole = whole[np.abs(whole).sum(1) < 2]
        c.close(f(whole), f(whole.astype(float)), "integer positions", rtol=1e-9)
        deg = c.rng.integers(-60, 61, (5, 2))
        g = retina.rgcf_density_on_meridian if which == "field" else \
            retina.rgc_density_on_meridian
        c.close(retina.rgcf_density_xy(deg, g),
                retina.rgcf_density_xy(deg.astype(float), g), "whole degrees", rtol=1e-9)
    c.same(xy, keep, "points")
    c.check(got.shape == (len(xy),), f"shape {got.shape}")
    c.check(np.all(np.isfinite(got)) and np.all(got > 0), "positive and finite")
    c.close(mirrored, got, "both eyes: left is right", rtol=1e-9)
    c.same(again, got, "asked twice")
    c.close(one, got[:len(one)], "one point at a time", rtol=1e-12)
    for k, p in enumerate(xy):
        p90 = tuple(90 * p)
        if p90 == (0, 0):
            ends = [field(0, m, False) for m in range(4)] + [field(0, 0)] \
                if which == "field" else [cells(0, m) for m in range(4)]
            ends = [(a + b) / 2 for a in ends for b in ends]
            c.check(np.min(np.abs(np.array(ends) / got[k] - 1)) < 1e-9,
                    "density at the fovea", got=got[k])
            continue
        funcs = [(field, None), (lambda r, m: field(r, m, False), "far-term")] \
            if which == "field" else [(cells, None)]
        for func, fkey in funcs:
            for byy in (True, False):
                w = both(p90, func, byy)
                if abs(got[k] / w - 1) < 1e-9:
                    c.checks += 1
                    c.run.nchecks += 1
                    if fkey:
                        c.known("watson-far-term", "density of the field differs from "
                                "Watson's equation", point=p)
                    if not byy:
                        c.known("vertical-meridian-by-x", "superior or inferior "
                                "density chosen by the sign of x", point=p)
                    break
            else:
                continue
            break
        else:
            c.fail("density of the model", point=p, got=got[k],
                   want=both(p90, funcs[0][0], True))
    c.event("points", len(xy))


@workload(P, quick=200, thorough=2000)
def meridians(c):
    """along a meridian: the published curve, falling with eccentricity (field)"""
    deg = np.sort(c.rng.uniform(0, 90, int(c.rng.integers(2, 40))))
    if c.rng.random() < .3:
        deg = c.rng.permutation(deg)
    mi = c.rng.integers(0, 4, len(deg))
    if c.rng.random() < .5:
        mi[:] = mi[0]
    c.let(deg=deg, mi=mi)
    d0, m0 = deg.copy(), mi.copy()
    got = retina.rgcf_density_on_meridian(deg, mi)
    full = np.array([field(r, m) for r, m in zip(deg, mi)])
    part = np.array([field(r, m, False) for r, m in zip(deg, mi)])
    if np.allclose(got, full, rtol=1e-10, atol=0):
        c.checks += 1
        c.run.nchecks += 1
    else:
        c.close(got, part, "field density on a meridian", rtol=1e-10)
        c.known("watson-far-term", "density of the field differs from Watson's equation")
    if np.all(mi == mi[0]):
        o = np.argsort(deg)
        c.check(np.all(np.diff(got[o]) <= 0), "field density falls with eccentricity")
    got = retina.rgc_density_on_meridian(deg, mi)
    c.close(got, [cells(r, m) for r, m in zip(deg, mi)], "measured density", rtol=1e-12)
    c.check(np.all(got >= 1), "at least 1")
    c.same(deg, d0, "eccentricities")
    c.same(mi, m0, "meridians")
    c.event("eccentricities", len(deg))


@workload(P, quick=200, thorough=2000)
def spread(c):
    n = int(c.pick(c.rng.integers(1, 20), 300))
    w = float(c.rng.uniform(.02, 3))
    x = c.rng.uniform(0, 10, n)
    default = c.rng.random() < .3
    c.let(fwhm=w, x=x, default=default)
    a = () if default else (w,)
    w = 0.183333 if default else w
    x0 = x.copy()
    y = retina.hpsf(x, *a)
    c.close(y, 1 / (1 + (2 * x / w) ** 2), "Lorentz curve", rtol=1e-9)
    c.close(retina.hpsf(-x, *a), y, "both sides", rtol=0)
    c.close(retina.hpsf(w / 2, *a), .5, "half width at half of the peak", rtol=1e-12)
    c.close(retina.hpsf(0., *a), 1, "peak", rtol=0)
    c.close(retina.inv_hpsf(y, *a), x, "inverse", rtol=1e-6, atol=1e-6)
    c.close(retina.hpsf(retina.inv_hpsf(y, *a), *a), y, "inverse of the inverse",
            rtol=1e-9)
    c.close(retina.hpsf(float(x[0]), *a), y[0], "one number", rtol=1e-14)
    c.same(x, x0, "angles")
    c.event("angles", n)


@workload(P, quick=400, thorough=4000)
def sun(c):
    """correction of a small bright source: never below 1, grows with the peak up to a
    limit, shrinks with the size; omega*factor is the blurred disk"""
    n = int(c.pick(c.rng.integers(1, 12), c.rng.integers(1, 12), 200))
    om = 10.0 ** c.rng.uniform(-6 if c.rng.random() < .7 else -10, -1, n)
    lmin = float(10.0 ** c.rng.uniform(0, 4)) if c.rng.random() < .6 else 279.33
    lmax = lmin * 10.0 ** c.rng.uniform(-1.5, 5, n)
    w = float(c.rng.uniform(.05, .5)) if c.rng.random() < .5 else 0.183333
    kind = c.cycle(["arrays", "scalar", "omega", "lmax", "each", "column"])
    if kind in ("scalar", "lmax"):
        om = float(om[0])
    if kind in ("scalar", "omega"):
        lmax = float(lmax[0])
    kw = {}
    if kind == "each":
        lmin = 10.0 ** c.rng.uniform(0, 4, n)
    if kind in ("each", "column") and c.rng.random() < .5:
        w = c.rng.uniform(.05, .5, n)
    if kind == "column":
        lmax = lmax[:, None]
        om = om[None]
    c.let(kind=kind, omega=om, lmax=lmax, lmin=lmin, fwhm=w)
    if np.any(lmin != 279.33):
        kw["lmin"] = lmin
    if np.any(w != 0.183333):
        kw["fwhm"] = w
    keep = np.copy(om), np.copy(lmax)
    got = retina.blur_sun(om, lmax, **kw)
    c.same(np.asarray(om), keep[0], "omega")
    c.same(np.asarray(lmax), keep[1], "lmax")
    # the cap is the default width's spread at one degree
    top = lmin * (1 + (2 / 0.183333) ** 2)
    cap = np.clip(lmax, lmin, top)
    r0 = np.degrees(np.sqrt(np.asarray(om) / np.pi))
    grow = w / 2 * np.sqrt(cap / lmin - 1)
    want = ((r0 + grow) / r0) ** 2
    c.close(got, want + np.zeros(np.shape(got)), "correction", rtol=1e-7)
    c.check(np.shape(got) == np.shape(np.asarray(om) * np.asarray(lmax)), "shape")
    c.check(np.all(np.asarray(got) >= 1), "at least 1")
    low = np.asarray(lmax) * np.ones(np.shape(got)) <= lmin * np.ones(np.shape(got))
    c.close(np.asarray(got)[low], np.ones(int(np.sum(low))),
            "dim sources are left alone", rtol=1e-9)
    more = retina.blur_sun(om, np.asarray(lmax) * 2, **kw)
    c.check(np.all(more >= got - 1e-12), "brighter spreads further")
    big = retina.blur_sun(np.asarray(om) * 2, lmax, **kw)
    c.check(np.all(big <= got + 1e-12), "larger spreads relatively less")
    c.event("sources", np.size(got))
