"""C25 peak normalization conserves energy and touches nothing but the peak"""
import numpy as np

from raytools import imagetools
from raytools.evaluate import retina
from rv import gen, ref
from rv.core import workload

P = "C25"
LEVEL = "exploration"
RULE = ("random image volumes with full, partial, blurred, split and missing suns, gray "
        "and color; conservation of luminous energy, the location and size of the "
        "consolidated source and the identity of all other rays are checked")
ASSUMPTIONS = ["finite non negative values; unit direction vectors"]
RAD = (0.265, 0.670, 0.065)


def scene(c):
    n = int(c.pick(50, 300))
    kind = c.cycle(["full", "partial", "none", "two", "single", "blurred", "wide"])
    d = gen.unit(gen.direction(c.rng))
    v = gen.hemisphere(c.rng, n, d)
    o = c.rng.random(n) * 2e-3 + 1e-4
    lum = 10.0 ** c.rng.uniform(0, 3.5, n)
    peaka = float(c.pick(6.7967e-05, 6.7967e-05, 1e-3))
    peakt = float(c.pick(1e5, 1e5, 2e4))
    sun = gen.hemisphere(c.rng, 1, d, 1.2)[0]
    m = {"none": 0, "single": 1}.get(kind, int(c.pick(4, 9, 25)))
    rad = (peaka / np.pi) ** .5
    if m:
        sv = gen.hemisphere(c.rng, m, sun, rad * (1.5 if kind != "wide" else 6))
        so = c.rng.random(m) * peaka / m + 1e-8
        if kind == "partial":
            so *= .3
        elif kind in ("full", "single"):
            so *= 4
        sl = 10.0 ** c.rng.uniform(np.log10(peakt) + .05, np.log10(peakt) + 3.5, m)
        if kind == "blurred":
            sl = peakt * 40 * c.rng.uniform(.78, 1, m)
        v, o, lum = np.vstack((v, sv)), np.concatenate((o, so)), \
            np.concatenate((lum, sl))
        if kind == "two":
            s2 = gen.hemisphere(c.rng, 6, -0 * sun + gen.unit(
                sun + gen.sphere(c.rng, 1)[0] * .5), rad)
            v = np.vstack((v, s2))
            o = np.concatenate((o, c.rng.random(6) * peaka / 6))
            lum = np.concatenate((lum, 10.0 ** c.rng.uniform(np.log10(peakt) + .1,
                                                             np.log10(peakt) + 3, 6)))
    p = c.rng.permutation(len(v))
    c.let(kind=kind, n=n, m=m, peaka=peaka, peakt=peakt)
    return v[p], o[p], lum[p], peaka, peakt, kind


@workload(P, quick=250, thorough=3000)
def normalize(c):
    v, o, lum, peaka, peakt, kind = scene(c)
    scale = float(c.pick(179, 179, 1, 100.))
    color = c.rng.random() < .4
    w = c.pick(RAD, tuple(c.rng.random(3) + .1)) if color else RAD
    if color:
        tint = c.rng.random((len(lum), 3)) + .2
        tint /= (tint @ np.array(w))[:, None]
        l = tint * (lum / scale)[:, None]
    else:
        l = lum / scale
    kw = dict(scale=scale, peaka=peaka, peakt=peakt)
    if color and w != RAD:
        kw["vlambda"] = w
    if c.rng.random() < .3:
        kw["peakr"] = float(c.pick(2, 10))
    if c.rng.random() < .3:
        kw["peakc"] = float(c.pick(1.5, .7, 1.2))
    if c.rng.random() < .3:
        kw["blurtol"] = float(c.pick(1, .5))
    if c.rng.random() < .3:
        kw["peakrad"] = float(c.pick(.5, 2, 8, 16))
    if c.rng.random() < .3:
        kw["blursun"] = True
    c.let(color=color, kw={k: q for k, q in kw.items() if k != "vlambda"})
    keep = v.copy(), o.copy(), l.copy()
    wt = np.array(w)
    y = l @ wt if color else l

    def energy(om, lu):
        return np.sum(om * (lu @ wt if color else lu))

    nv, no, nl = imagetools.normalize_peak(v, o, l, **kw)
    pk, pv, po, pl = imagetools.normalize_peak(v, o, l, returnparts=True, **kw)
    only = imagetools.normalize_peak(v, o, l, returnall=False, **kw)
    zk, zv, zo, zl = imagetools.normalize_peak(v, o, l, returnparts=True, keepzeros=True,
                                               **kw)
    for a, b, t in zip((v, o, l), keep, "vol"):
        c.same(a, b, f"input {t}")
    hot = y * scale > peakt
    if not hot.any():
        c.same(nv, v, "no peak: vectors")
        c.same(no, o, "no peak: solid angles")
        c.same(nl, l, "no peak: values")
        c.same(po, o, "no peak: parts")
        c.check(not np.any(only), "no peak: empty source")
        c.event("no_peak")
        return
    c.event("peaks")
    c.check(nv.shape == (len(no), 3) and len(nl) == len(no), "shapes")
    c.close(energy(no, nl), energy(o, l), "luminous energy", rtol=1e-6)
    # which rays were merged: the others are unchanged and in order
    gone = (zo == 0) & (o > 0)
    c.check(gone.any(), "no ray was merged")
    c.same(pv, v[~gone], "other rays: vectors")
    c.same(po, o[~gone], "other rays: solid angles")
    c.close(pl, l[~gone], "other rays: values", rtol=1e-12)
    c.same(zv, v, "keepzeros: vectors")
    c.same(zo[~gone], o[~gone], "keepzeros: solid angles")
    c.check(not np.any(zl[gone]), "keepzeros: merged rays have no light")
    c.close(zl[~gone], l[~gone], "keepzeros: values", rtol=1e-12)
    c.close(nv[:-1], pv, "all: vectors", rtol=1e-12)
    c.close(no[:-1], po, "all: solid angles", rtol=1e-12)
    c.close(nl[:-1], pl, "all: values", rtol=1e-12)
    c.check(len(no) == len(po) + 1, "one source is added")
    for a, b in ((only, pk), (zk, pk)):
        c.close(a[0], b[0], "source direction", rtol=0, atol=1e-12)
        c.close(a[1], b[1], "source area", rtol=1e-12)
        c.close(np.ravel(a[2]), np.ravel(b[2]), "source value", rtol=1e-12)
    c.close(nv[-1], pk[0], "added direction", rtol=0, atol=1e-12)
    c.close(no[-1], pk[1], "added solid angle", rtol=1e-12)
    c.close(np.ravel(nl[-1]), np.ravel(pk[2]), "added value", rtol=1e-12)
    # merged rays are peak rays around the brightest one
    c.check(np.all(hot[gone]), "a ray below the threshold was merged")
    b = int(np.argmax(y))
    c.check(gone[b], "the brightest ray is part of the source")
    rad = (peaka / np.pi) ** .5 * kw.get("peakrad", 4.0)
    ang = ref.angle(v[b], v)
    c.check(np.all(ang[gone] <= rad + 1e-6), "a ray far from the peak was merged")
    left = hot & ~gone & (ang < rad - 1e-6)
    if left.any():
        c.check(y[left].max() <= y[gone].min() * (1 + 1e-12),
                "a brighter ray of the peak was left out")
    c.close(np.linalg.norm(pk[0]), 1.0, "unit source direction", rtol=1e-9)
    cw = (o * y)[gone]
    want = ref.unit(np.sum(v[gone] * cw[:, None], 0))
    c.close(pk[0], want, "source direction is the energy weighted mean", rtol=0,
            atol=1e-9)
    c.close(pk[1] * (np.ravel(pk[2]) @ wt if color else float(np.ravel(pk[2])[0])),
            np.sum(cw), "energy of the source", rtol=1e-6)
    area = pk[1]
    if kw.get("blursun"):
        full = np.isclose(area / float(np.atleast_1d(retina.blur_sun(
            peaka, np.sum(cw) / peaka))[0]), peaka, rtol=1e-6)
    else:
        full = np.isclose(area, peaka, rtol=1e-9)
        if not full:
            # partial sun: the source keeps the luminance of the peak ray
            c.close(np.ravel(pk[2]), np.ravel(l[b]), "value of a partial source",
                    rtol=1e-9)
            c.check(kw.get("peakc", 1) <= 1, "partial sun with peakc > 1")
            c.check(np.all(y[gone] >= y[b] / kw.get("peakr", 4) * (1 - 1e-12)) or
                    not (hot & (ang < rad) & (y < y[b] / kw.get("peakr", 4))).any(),
                    "a ray below the peak ratio was merged")
            c.event("partial")
    if full:
        c.event("full")
        if color and not kw.get("blursun"):
            c.close(np.ravel(pk[2]) * pk[1], np.sum(l[gone] * o[gone][:, None], 0),
                    "energy of each channel", rtol=1e-6)


@workload(P, quick=80, thorough=800)
def expected(c):
    """a sun which is larger than its nominal area is reduced to that area, one with
    too little energy is kept at its own luminance"""
    v, o, lum, peaka, peakt, kind = scene(c)
    use = lum <= peakt
    v, o, lum = v[use], o[use], lum[use]
    d = gen.sphere(c.rng, 1)[0]
    m = int(c.pick(4, 12))
    share = float(c.pick(.2, .6, 1.5, 4))
    sl = peakt * float(c.rng.uniform(3, 300))
    sv = gen.hemisphere(c.rng, m, d, (peaka / np.pi) ** .5)
    so = np.full(m, peaka * share / m)
    c.let(share=share, m=m)
    nv, no, nl = imagetools.normalize_peak(
        np.vstack((v, sv)), np.concatenate((o, so)),
        np.concatenate((lum, np.full(m, sl))) / 179, peaka=peaka, peakt=peakt)
    if share < 1:
        c.check(len(no) == len(o) + 1, "all sun rays are merged")
        c.close(no[-1], peaka * share, "area of a partial sun", rtol=1e-9)
        c.close(nl[-1], sl / 179, "luminance of a partial sun", rtol=1e-9)
    else:
        c.close(no[-1], peaka, "area of a full sun", rtol=1e-9)
        used = m - (len(no) - len(o) - 1)
        c.check(1 <= used <= m, "number of merged rays")
        c.close(nl[-1] * peaka, used * so[0] * sl / 179, "energy of a full sun",
                rtol=1e-9)
        c.check(used * so[0] <= peaka * (1 + 1e-9) or used == m,
                "more rays than the expected energy are merged")
    c.event("suns")


@workload(P, quick=80, thorough=800)
def ratio(c):
    """a partial sun collects the pixels down to the ratio to the peak, and nothing
    darker; volumes of any size"""
    peaka = 6.7967e-05
    m = int(c.pick(1, 2, 5, 9))
    n = int(c.pick(0, 0, 1, 2, 40))
    peakr = float(c.pick(2, 4, 8))
    top = 2.0 ** int(c.rng.integers(21, 28))
    d = gen.sphere(c.rng, 1)[0]
    sv = gen.hemisphere(c.rng, m, d, (peaka / np.pi) ** .5)
    # exact fractions of the peak, down to the threshold
    sl = top / c.rng.choice((1, 1.25, 2, 2.5, 4, 4.5, 8, 8.25), m)
    sl[0] = top
    so = np.full(m, peaka * .3 / m)
    v = np.vstack((sv, gen.hemisphere(c.rng, n, -d, 1.)))
    o = np.append(so, c.rng.random(n) * .01)
    y = np.append(sl, c.rng.random(n) * 1000)
    color = c.rng.random() < .4
    tint = np.ones(3)
    l = np.outer(y, tint) if color else y
    c.let(m=m, n=n, peakr=peakr, color=color, sl=sl / top)
    p = c.rng.permutation(len(v))
    kw = dict(scale=1., peakr=peakr, vlambda=(.25, .5, .25))
    nv, no, nl = imagetools.normalize_peak(v[p], o[p], l[p], **kw)
    take = y >= top / peakr
    left = int((~take).sum())
    c.check(nv.shape == (left + 1, 3) and no.shape == (left + 1,) and
            nl.shape == (left + 1,) + l.shape[1:],
            f"shapes {nv.shape} {no.shape} {nl.shape} for {left} rays and the source")
    keep = p[~take[p]]
    c.same(nv[:-1], v[keep], "other rays: vectors")
    c.same(no[:-1], o[keep], "other rays: solid angles")
    c.close(nl[:-1], l[keep], "other rays: values", rtol=1e-12)
    c.close(nl[-1], np.broadcast_to(top, l.shape[1:]), "luminance of the peak", rtol=1e-9)
    c.close(no[-1], np.sum((o * y)[take]) / top, "area", rtol=1e-9)
    pk, pv, po, pl = imagetools.normalize_peak(v[p], o[p], l[p], returnparts=True, **kw)
    c.check(pv.shape == (left, 3) and po.shape == (left,) and
            pl.shape == (left,) + l.shape[1:],
            f"shapes of parts {pv.shape} {po.shape} {pl.shape}")
    zk, zv, zo, zl = imagetools.normalize_peak(v[p], o[p], l[p], returnparts=True,
                                               keepzeros=True, **kw)
    c.check(zv.shape == v.shape and zo.shape == o.shape and zl.shape == l.shape,
            f"shapes with zeros {zv.shape} {zo.shape} {zl.shape}")
    c.same(zo == 0, take[p], "merged rays have no area")
    c.event("suns")


@workload(P, quick=60, thorough=600)
def secondary(c):
    """secondary sources are bright groups away from the main one"""
    v, o, lum, peaka, peakt, kind = scene(c)
    l = lum / 179
    pk, strays = imagetools.normalize_peak(v, o, l, peaka=peaka, peakt=peakt,
                                           findsecondary=True)
    if not np.any(lum > peakt):
        c.check(strays is None, "no peak, no secondary sources")
        return
    pv = imagetools.normalize_peak(v, o, l, peaka=peaka, peakt=peakt, returnall=False)
    c.close(pk[0], pv[0], "the main source does not depend on the secondary ones",
            rtol=1e-12)
    c.close(np.ravel(pk[2]) * pk[1], np.ravel(pv[2]) * pv[1], "energy", rtol=1e-12)
    far = (ref.angle(v[np.argmax(lum)], v) > (peaka / np.pi) ** .5 * 32) & \
        (lum > peakt * 4)
    tot = sum(float(np.ravel(s[1])[0] * np.ravel(s[2])[0]) for s in strays)
    c.check(tot <= np.sum((l * o)[far]) * (1 + 1e-6), "secondary sources have more "
            "energy than the rays they stand for")
    if far.sum() > 3:
        c.check(len(strays) > 0, "no secondary source found")
        k = int(np.flatnonzero(far)[np.argmax(lum[far])])
        a = ref.angle(ref.unit(np.ravel(strays[0][0])), v[k])
        c.check(a <= (peaka / np.pi) ** .5 * 32 + 1e-6, "first secondary source is at "
                "the next brightest ray")
        c.event("secondary", len(strays))
    else:
        c.check(len(strays) == 0, "secondary source without rays")


def model(v, o, y, c, kw):
    """the rules of the documentation, written out again: the rays that are merged and
    the source they make; None when a decision is too close to call"""
    peaka = kw.get("peaka", 6.7967e-05)
    t = kw.get("peakt", 1e5) / kw.get("scale", 179)
    if np.any(np.abs(y / t - 1) < 1e-6):
        return None
    hot = np.flatnonzero(y > t)
    hot = hot[np.argsort(-y[hot])]
    ang = ref.angle(v[hot[0]], v[hot])
    r = (peaka / np.pi) ** .5 * kw.get("peakrad", 4.0)
    if np.any(np.abs(ang / r - 1) < 1e-4) or \
            (len(hot) > 1 and np.min(-np.diff(y[hot])) < 1e-9 * y[hot[0]]):
        return None
    hot = hot[ang < r]
    e = np.cumsum(o[hot] * y[hot])
    near = y[hot] / y[hot[0]] / kw.get("blurtol", .75)
    part = y[hot] / y[hot[0]] * kw.get("peakr", 4)
    peakc = kw.get("peakc", 1.0)
    want = y[hot][near >= 1].mean() * peaka * peakc
    if np.any(np.abs(near[1:] - 1) < 1e-6) or np.any(np.abs(part[1:] - 1) < 1e-6) or \
            np.any(np.abs(e / want - 1) < 1e-9):
        return None
    if e[-1] > want:
        # rays in order until the next one brings more than a full sun; if the first
        # alone does, all of them
        m = int((e <= want).sum()) or len(hot)
        return hot[:m], peaka, e[m - 1] / peaka, "full"
    m = int((part >= 1).sum())
    if peakc > 1:
        return hot[:m], peaka, e[m - 1] / peaka, "scaled"
    return hot[:m], e[m - 1] / y[hot[0]], y[hot[0]], "partial"


@workload(P, quick=200, thorough=2500)
def defaults(c):
    """find_peak and normalize_peak follow the documented rules with the documented
    defaults (each setting is given or left out at random)"""
    peaka, peakt, scale = 6.7967e-05, 1e5, 179
    kw = {}
    if c.rng.random() < .3:
        kw["peaka"] = peaka = float(c.pick(1e-3, 1e-5))
    if c.rng.random() < .3:
        kw["peakt"] = peakt = float(c.pick(2e4, 1e6, .7, 2.4))
    if c.rng.random() < .3:
        kw["scale"] = scale = float(c.pick(1., 100.))
    for k, q in (("peakr", (2, 8)), ("blurtol", (1, .4)), ("peakc", (.7, 1.6, 1.1)),
                 ("peakrad", (.5, 2, 8, 16))):
        if c.rng.random() < .3:
            kw[k] = c.pick(*q)
    rad = (peaka / np.pi) ** .5
    sun = gen.sphere(c.rng, 1)[0]
    m, n = int(c.pick(3, 8, 20)), int(c.pick(0, 5, 60))
    pr = kw.get("peakrad", 4.0)
    # on both sides of each limit: angle, threshold, ratio and near-peak share
    a = rad * pr * c.rng.choice((0, .3, .9, .99, 1.01, 1.1), m)
    a[0] = 0
    b = c.rng.random(m) * 2 * np.pi
    u = gen.unit(np.cross(sun, gen.sphere(c.rng, 1)[0]))
    w = np.cross(sun, u)
    sv = ref.unit(np.cos(a)[:, None] * sun + np.sin(a)[:, None] *
                  (np.cos(b)[:, None] * u + np.sin(b)[:, None] * w))
    top = peakt / scale * float(c.pick(3, 30, 1000))
    near, part = kw.get("blurtol", .75), 1 / kw.get("peakr", 4)
    share = c.rng.choice((near * .97, near * 1.03, part * .97, part * 1.03,
                          peakt / scale / top * .98, peakt / scale / top * 1.02, .99), m)
    share[0] = 1
    y = top * np.minimum(share * (1 + c.rng.random(m) * 1e-3), 1)
    y[0] = top
    tot = float(c.pick(.2, .9, 1.1, 4))
    so = c.rng.random(m) + .1
    so *= peaka * tot / so.sum()
    v = np.vstack((sv, gen.sphere(c.rng, max(n, 1))[:n].reshape(-1, 3)))
    o = np.append(so, c.rng.random(n) * 1e-3)
    y = np.append(y, peakt / scale * c.rng.random(n) * .9)
    p = c.rng.permutation(len(y))
    v, o, y = v[p], o[p], y[p]
    color = c.rng.random() < .5
    wt = np.array(RAD)
    if color:
        if c.rng.random() < .3:
            kw["vlambda"] = tuple(wt := np.array((.2, .5, .3)))
        l = c.rng.random((len(y), 3)) + .2
        l *= (y / (l @ wt))[:, None]
        y = l @ wt
    else:
        l = y
    column = not color and c.rng.random() < .2
    if column:
        # one channel, as a column
        l = y[:, None]
        kw["vlambda"] = (1,)
    c.let(kw=kw, m=m, n=n, color=color, tot=tot, column=column)
    want = model(v, o, y, c, kw)
    if want is None:
        c.event("too_close")
        return
    rays, area, value, how = want
    c.event(how)
    src, strays, pc = imagetools.find_peak(v, o, l, **kw)
    c.check(strays is None, "secondary sources without asking")
    c.same(np.sort(pc), np.sort(rays), "merged rays")
    pos = ref.unit(np.sum(v[rays] * (o * y)[rays, None], 0))
    only = imagetools.normalize_peak(v, o, l, returnall=False, **kw)
    nv, no, nl = imagetools.normalize_peak(v, o, l, **kw)
    for s, t in ((src, "find_peak"), (only, "normalize_peak"),
                 ((nv[-1], no[-1], nl[-1]), "volume")):
        c.close(s[0], pos, f"{t}: direction", rtol=0, atol=1e-9)
        c.close(s[1], area, f"{t}: area", rtol=1e-9)
        q = np.ravel(s[2])
        c.check(len(q) == (3 if color else 1), f"{t}: {len(q)} channels")
        c.close(q @ wt if color else q[0], value, f"{t}: value", rtol=1e-6)
        if color:
            e = l[rays[0]] if how == "partial" else \
                np.sum((o[:, None] * l)[rays], 0) / area
            c.close(q, e, f"{t}: channels", rtol=1e-6)
    c.check(len(no) == len(o) - len(rays) + 1, "number of rays left")
    c.check(nl.shape == (len(no),) + l.shape[1:], f"shape {nl.shape} of values")
    # with the eye's blur: same energy, same place
    bk, _, bc = imagetools.find_peak(v, o, l, blursun=True, **kw)
    c.same(np.sort(bc), np.sort(rays), "merged rays, blurred")
    lum = value
    c.close(bk[1], area * float(np.ravel(retina.blur_sun(area, lum))[0]),
            "area, blurred", rtol=1e-9)
    c.close(bk[1] * np.ravel(bk[2]), src[1] * np.ravel(src[2]), "energy, blurred",
            rtol=1e-9)


@workload(P, quick=60, thorough=600)
def nothing(c):
    """without a peak all answers are the input and an empty source"""
    n = int(c.pick(1, 2, 30))
    v = gen.sphere(c.rng, n)
    o = c.rng.random(n) * .1
    k = c.pick(0, 1, 3, 5)
    kw = c.pick({}, {"peakt": 10., "scale": 1.}, {"findsecondary": True})
    top = kw.get("peakt", 1e5) / kw.get("scale", 179)
    l = c.rng.random((n, k) if k else n) * top * .99
    if kw.get("scale") == 1. and k == 0 and c.rng.random() < .5:
        # at the threshold is not above it
        l[int(c.rng.integers(n))] = top
    if k == 5:
        k = 3
        l = l[:, :3]
    c.let(n=n, k=k, kw=kw)
    if k == 1 or k == 2:
        # one column is gray
        l = l[:, 0]
        k = 0
    c.check(imagetools.find_peak(v, o, l, **kw)[0] is None, "no source")
    if kw.get("findsecondary"):
        s, strays = imagetools.normalize_peak(v, o, l, **kw)
        c.check(strays is None, "no secondary sources")
    else:
        s = imagetools.normalize_peak(v, o, l, returnall=False, **kw)
        parts = imagetools.normalize_peak(v, o, l, returnparts=True, **kw)
        full = imagetools.normalize_peak(v, o, l, **kw)
        for a, b in zip(parts[1:], (v, o, l)):
            c.same(a, b, "parts")
        for a, b in zip(full, (v, o, l)):
            c.same(a, b, "volume")
        c.same(parts[0], s, "source")
    c.check(np.size(s) == 4 + (k or 1) and not np.any(s), f"empty source {s}")
    c.event("none")


@workload(P, quick=80, thorough=800)
def groups(c):
    """the secondary sources: groups of more than three rays above four times the
    threshold, brightest first, each the mean of its rays"""
    peaka, peakt, scale = 6.7967e-05, 1e5, 179
    kw = {}
    if c.rng.random() < .4:
        kw["scale"] = scale = 1.
    if c.rng.random() < .4:
        kw["peakt"] = peakt = 2e4
    t = peakt / scale
    rad = (peaka / np.pi) ** .5
    axes = np.vstack((np.eye(3), -np.eye(3)))[c.rng.permutation(6)]
    g = int(c.pick(1, 2, 3, 5))
    sizes = [int(k) for k in c.rng.choice((2, 3, 4, 5, 9), g)]
    tops = np.sort(10 ** c.rng.uniform(.8, 3, g + 1))[::-1] * t
    v, o, y, who = [], [], [], []
    for k, m in enumerate([6] + sizes):
        sv = gen.hemisphere(c.rng, m, axes[k], rad * .8)
        v.append(sv)
        o.append(c.rng.random(m) * peaka / m * .5 + 1e-8)
        f = 1 - .3 * c.rng.random(m)
        f[0] = 1
        q = f * tops[k]
        if c.rng.random() < .3 and k:
            # some rays are above the threshold, but not four times
            q[1:] = t * c.rng.uniform(1.1, 3.9, m - 1)
        y.append(q)
        who += [k] * m
    v, o, y, who = np.vstack(v), np.concatenate(o), np.concatenate(y), np.array(who)
    p = c.rng.permutation(len(y))
    v, o, y, who = v[p], o[p], y[p], who[p]
    color = c.rng.random() < .5
    if color:
        l = c.rng.random((len(y), 3)) + .2
        l *= (y / (l @ np.array(RAD)))[:, None]
    else:
        l = y
    c.let(kw=kw, sizes=sizes, color=color)
    src, strays = imagetools.normalize_peak(v, o, l, findsecondary=True, **kw)
    c.close(np.ravel(src[0]), axes[0], "main source", rtol=0, atol=rad * 2)
    # groups are looked for until too few rays are left
    rest = (who > 0) & (y > 4 * t)
    want = []
    while rest.sum() > 3:
        k = who[np.flatnonzero(rest)[np.argmax(y[rest])]]
        want.append(rest & (who == k))
        rest &= who != k
    c.check(len(strays) == len(want), f"{len(strays)} groups, not {len(want)}")
    for k, (s, r) in enumerate(zip(strays, want)):
        c.close(s[0], v[r].mean(0), f"group {k}: direction", rtol=0, atol=1e-9)
        c.close(s[1], o[r].sum(), f"group {k}: area", rtol=1e-9)
        q = np.ravel(s[2])
        c.check(len(q) == (3 if color else 1), f"group {k}: {len(q)} channels")
        c.close(q, np.ravel(np.sum(l[r].T * o[r], -1)) / o[r].sum(), f"group {k}: value",
                rtol=1e-9)
        c.event("group")
