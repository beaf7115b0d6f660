"""C11 angular coordinates, fisheye coordinates, chords and angles"""
import numpy as np

from raytools import translate
from rv import gen, ref
from rv.core import workload

P = "C11"
LEVEL = "exploration"
RULE = ("random, polar, seam and axis directions and angles, single values and "
        "batches; judged against scalar definitions, inverses and atan2 angles")
ASSUMPTIONS = ["theta in [0, pi] (out of range theta is folded by tpnorm in a way "
               "that is not documented)", "unit vectors as produced by norm"]


def dirs(c, n):
    kind = c.cycle(["random", "axes", "pole", "equator", "grid"])
    v = gen.sphere(c.rng, n)
    if kind == "axes":
        v = np.array(gen.AXES, float)
    elif kind == "pole":
        v[:, :2] *= 10.0 ** -c.rng.uniform(2, 6, (n, 1))
        v[:, 2] = np.sign(v[:, 2])
    elif kind == "equator":
        v[:, 2] *= 10.0 ** -c.rng.uniform(2, 12, n)
    elif kind == "grid":
        v = np.round(v * 2)
        v = v[np.any(v != 0, 1)]
        if len(v) == 0:
            v = np.array([[1., 1, 0]])
    return gen.unit(v), kind


@workload(P, quick=150, thorough=2000)
def spherical(c):
    v, kind = dirs(c, int(c.pick(1, 40, 300)))
    c.let(n=len(v), kind=kind)
    if c.rng.random() < .4:
        # unit vectors after a rotation there and back
        m = ref.unit(gen.sphere(c.rng, 3))
        q, _ = np.linalg.qr(m)
        v = (q.T @ (q @ v.T)).T
        v *= 1 + c.rng.choice((0, 0, 2.0 ** -52), (len(v), 1))
    keep = v.copy()
    arg = v[0] if len(v) == 1 else v
    tp = translate.xyz2tp(arg)
    c.same(v, keep, "input")
    c.check(tp.shape == (len(v), 2), f"shape {tp.shape}")
    c.check(np.all((tp[:, 0] >= 0) & (tp[:, 0] <= np.pi)), "theta in 0..pi")
    c.check(np.all((tp[:, 1] >= 0) & (tp[:, 1] <= 2 * np.pi)), "phi in 0..2 pi")
    th = np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2])
    c.close(tp[:, 0], th, "theta", rtol=0, atol=1.5e-7)
    off = np.hypot(v[:, 0], v[:, 1]) > 1e-7
    ph = np.arctan2(v[:, 1], v[:, 0])
    d = np.abs((tp[:, 1] - ph + np.pi) % (2 * np.pi) - np.pi)
    c.check(np.all(d[off] < 1e-9), f"phi of {v[off][np.argmax(d[off])] if off.any() else ''}")
    back = translate.tp2xyz(tp if len(v) > 1 else tp[0])
    c.close(back, v, "xyz -> tp -> xyz", rtol=0, atol=2e-7)
    # any phi, theta in range
    t = np.stack((c.rng.uniform(0, np.pi, 60), c.rng.uniform(-2, 4, 60) * np.pi
                  * c.pick(1, 1, 9, 300)), -1)
    t[:4] = ((0, 0), (np.pi, 0), (np.pi, 1.), (np.pi / 2, -np.pi))
    tk = t.copy()
    want = np.stack((np.sin(t[:, 0]) * np.cos(t[:, 1]),
                     np.sin(t[:, 0]) * np.sin(t[:, 1]), np.cos(t[:, 0])), -1)
    for nrm in (True, False):
        c.close(translate.tp2xyz(t, normalize=nrm), want, f"tp2xyz {nrm}", rtol=0,
                atol=1e-9)
    c.same(t, tk, "tp2xyz input")
    tn = translate.tpnorm(t)
    c.same(t, tk, "tpnorm input")
    c.close(tn[:, 0], t[:, 0], "tpnorm keeps theta", rtol=0, atol=1e-12)
    c.check(np.all((tn[:, 1] >= 0) & (tn[:, 1] <= 2 * np.pi)), "tpnorm phi range")
    c.close(np.cos(tn[:, 1] - t[:, 1]), np.ones(60), "tpnorm phi", atol=1e-9)
    c.check(np.all((translate.tpnorm(tn)[:, 1] >= 0) & (tn[:, 1] <= 2 * np.pi)), "phi range")
    # altitude azimuth: azimuth 0 is south (-y), positive to the west (-x)
    aa = np.stack((c.rng.uniform(-90, 90, 40), c.rng.uniform(-180, 180, 40)), -1)
    aa[:3] = ((90, 0), (0, 0), (0, 180))
    al, az = np.radians(aa).T
    want = np.stack((-np.cos(al) * np.sin(az), -np.cos(al) * np.cos(az), np.sin(al)), -1)
    ak = aa.copy()
    got = translate.aa2xyz(aa)
    c.same(aa, ak, "aa2xyz input")
    c.close(got, want, "aa2xyz", rtol=0, atol=1e-9)
    b = translate.xyz2aa(v)
    c.close(b[:, 0], np.degrees(np.arctan2(v[:, 2], np.hypot(v[:, 0], v[:, 1]))),
            "altitude", rtol=0, atol=1e-5)
    d = np.abs((b[:, 1] - np.degrees(np.arctan2(-v[:, 0], -v[:, 1])) + 180) % 360 - 180)
    c.check(np.all(d[off] < 1e-7), "azimuth")
    c.close(translate.aa2xyz(b), v, "xyz -> aa -> xyz", rtol=0, atol=2e-7)
    c.event("directions", len(v))


@workload(P, quick=100, thorough=1000)
def fisheye(c):
    v, kind = dirs(c, int(c.pick(1, 40, 300)))
    axes = c.pick((0, 1, 2), (0, 1, 2), (1, 0, 2), (0, 2, 1), (2, 0, 1), (2, 1, 0),
                  (1, 2, 0))
    flip = c.rng.random() < .5
    keepz = v[:, axes[2]] > -1 + 1e-9
    v = v[keepz]
    if len(v) == 0:
        v = np.array([[.6, .48, .64]])
    scale = 10.0 ** c.rng.uniform(-2, 2, (len(v), 1)) if c.rng.random() < .3 else 1.
    c.let(n=len(v), kind=kind, axes=axes, flip=flip)
    a, b, z = (v[:, k] for k in axes)
    s = np.hypot(a, b)
    th = np.arctan2(s, z) / (np.pi / 2)
    f = np.where(s > 0, th / np.where(s > 0, s, 1), 0)
    want = np.stack((a * f * (-1 if flip else 1), b * f), -1)
    arg = v * scale
    k = arg.copy()
    c.close(translate.xyz2xy(arg if len(v) > 1 else arg[0], axes=axes, flip=flip), want,
            "fisheye coordinates", rtol=0, atol=1e-9)
    c.same(arg, k, "input")


@workload(P, quick=80, thorough=800)
def angles(c):
    v, kind = dirs(c, int(c.pick(1, 40, 300)))
    d = np.array(gen.unit(gen.direction(c.rng)))
    if c.rng.random() < .3:
        v[0] = d
        v[-1] = -d
    c.let(n=len(v), kind=kind, d=d)
    ang = ref.angle(d, v)
    arg = v[0] if len(v) == 1 else v
    c.close(translate.ctheta(d, arg), np.clip(v @ d, -1, 1), "ctheta", atol=1e-12)
    for f, k in ((translate.radians, 1), (translate.degrees, 180 / np.pi)):
        got = f(d, arg)
        c.check(np.all(np.isfinite(got)), "angle is not a number")
        c.close(got, ang * k, f.__name__, rtol=0, atol=4e-8 * k)
    t = c.rng.uniform(0, np.pi, 50)
    t[:3] = (0, np.pi, 1e-9)
    ch = translate.theta2chord(t)
    w = np.sqrt((np.cos(t) - 1) ** 2 + np.sin(t) ** 2)
    c.close(ch, w, "chord", atol=1e-9)
    c.close(translate.chord2theta(ch), t, "chord -> theta", atol=2e-7)
    c.close(translate.chord2theta(np.linalg.norm(v - d, axis=1)), ang,
            "angle of a chord", rtol=0, atol=2e-7)
    c.check(np.isclose(float(translate.chord2theta(1.0)), np.pi / 3), "scalar chord")
    # (of a small angle, the chord is the angle)
    t = 10.0 ** c.rng.uniform(-12, -4.5, 20)
    c.close(translate.theta2chord(t), t, "chord of small angles", rtol=1e-6, atol=0)
    c.close(translate.chord2theta(t), t, "angle of small chords", rtol=1e-6, atol=0)
    # norm
    raw = v * 10.0 ** c.rng.uniform(-5, 5, (len(v), 1))
    k = raw.copy()
    c.close(translate.norm(raw), v, "norm", rtol=0, atol=1e-12)
    c.same(raw, k, "norm input")
    c.close(translate.norm1(raw[0]), v[0], "norm1", rtol=0, atol=1e-12)
    c.close(translate.norm1(tuple(raw[0])), v[0], "norm1 tuple", rtol=0, atol=1e-12)
    c.close(translate.norm1(v[0] * 10.0 ** c.rng.uniform(-120, 120)), v[0],
            "norm1 of any length", rtol=0, atol=1e-12)
    c.same(translate.norm1((0, 0, 0)), np.zeros(3), "norm1 of zero")
