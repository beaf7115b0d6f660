"""C12 rotations and reflections"""
import numpy as np

from raytools import translate
from rv import gen, ref
from rv.core import workload

P = "C12"
LEVEL = "exploration"
RULE = ("random, vertical, near vertical and axis directions, batches and single "
        "vectors; judged by orthogonality, the documented targets, Rodrigues' formula "
        "and the mirror formula")
ASSUMPTIONS = ["non zero view vectors"]


@workload(P, quick=150, thorough=2000)
def yawpitch(c):
    n = int(c.pick(1, 1, 2, 15))
    v = np.array([gen.direction(c.rng, None if n > 1 else c.i) for _ in range(n)])
    if c.rng.random() < .3:
        # close to the vertical
        v[0] = (*(c.rng.normal(size=2) * 10.0 ** -c.rng.uniform(2, 7)),
                c.rng.choice((-1, 1)))
    elif c.rng.random() < .4:
        # close to the horizon
        k = int(c.rng.integers(n))
        t = c.rng.uniform(0, 2 * np.pi)
        v[k] = (np.cos(t), np.sin(t), c.rng.choice((-1, 1)) * 10 ** -c.rng.uniform(1, 9))
    if c.rng.random() < .3:
        v *= 10 ** c.rng.uniform(-6, 6, (n, 1))
    c.let(v=v)
    keep = v.copy()
    y, p = translate.rmtx_yp(v, keepdims=True)
    c.same(v, keep, "input")
    c.check(y.shape == (n, 3, 3) and p.shape == (n, 3, 3), f"shapes {y.shape} {p.shape}")
    if n == 1:
        y1, p1 = translate.rmtx_yp(tuple(v[0]) if c.rng.random() < .5 else v[0])
        c.check(y1.shape == (3, 3), f"shape {y1.shape}")
    else:
        y1, p1 = translate.rmtx_yp(v)
        for k in range(n):
            a, b = translate.rmtx_yp(v[k])
            c.close(y[k], a, "yaw of the batch", rtol=0, atol=1e-12)
            c.close(p[k], b, "pitch of the batch", rtol=0, atol=1e-12)
    c.close(y1.reshape(n, 3, 3), y, "keepdims")
    c.close(p1.reshape(n, 3, 3), p, "keepdims")
    for k in range(n):
        d = ref.unit(v[k])
        hor = np.hypot(d[0], d[1])
        for m in (y[k], p[k]):
            c.close(m @ m.T, np.eye(3), "orthogonal", rtol=0, atol=1e-9)
            c.check(abs(np.linalg.det(m) - 1) < 1e-9, "proper rotation")
        m = p[k] @ y[k]
        c.close(m @ d, (0, 0, 1), "v is mapped to z", rtol=0, atol=1e-7)
        if hor > 2e-7:
            up = m @ np.array((0, 0, 1.))
            # precision of the angle from its cosine
            c.check(abs(up[0]) < 1e-7 and up[1] > 0, f"z up stays up (y): {up}")
            c.close(up[2], d[2], "z up", rtol=0, atol=1e-7)
            # the horizontal axis of the view: left handed x as by definition of
            # a proper rotation with those two images
            h = np.cross(d, (0, 0, 1))
            r = m @ (h / np.linalg.norm(h))
            c.close(r, (-1, 0, 0), "the horizontal axis", rtol=0,
                    atol=1e-7 + 1e-14 / hor)
        elif hor == 0 and d[2] > 0:
            c.close(y[k], np.eye(3), "identity for z", atol=1e-12)
            c.close(p[k], np.eye(3), "identity for z", atol=1e-12)
        elif hor == 0:
            c.close(np.abs(m), np.eye(3), "180 degree rotations for -z", atol=1e-12)
    c.event("view_directions", n)


def rodrigues(v, axis, t):
    k = np.eye(3)[axis]
    return (v * np.cos(t) + np.cross(k, v) * np.sin(t) +
            np.outer(v @ k, k) * (1 - np.cos(t)))


@workload(P, quick=80, thorough=800)
def element(c):
    axis = c.cycle([0, 1, 2])
    deg = c.rng.random() < .6
    t = float(c.pick(0, 90, 180, -90, 360, c.rng.uniform(-400, 400), .001))
    n = int(c.pick(1, 5, 100))
    v = c.rng.normal(size=(n, 3)) * 10.0 ** c.rng.uniform(-2, 2)
    c.let(axis=axis, degrees=deg, t=t, n=n)
    keep = v.copy()
    a = t if deg else np.radians(t)
    kw = {} if deg and c.rng.random() < .5 else dict(degrees=deg)
    got = translate.rotate_elem(v, a, axis, **kw)
    c.same(v, keep, "input")
    c.close(got, rodrigues(v, axis, np.radians(t)), "rotation", rtol=1e-9,
            atol=1e-9 * np.abs(v).max())
    m = translate.rmtx_elem(a, axis, **kw)
    c.close((m @ v.T).T, got, "matrix against rotate_elem", rtol=1e-9,
            atol=1e-9 * np.abs(v).max())
    c.close(translate.rotate_elem(got, -a, axis, **kw), v, "inverse", rtol=1e-9,
            atol=1e-9 * np.abs(v).max())
    b = float(c.rng.uniform(-200, 200)) * (1 if deg else np.pi / 180)
    c.close(translate.rotate_elem(got, b, axis, **kw),
            translate.rotate_elem(v, a + b, axis, **kw), "rotations add up", rtol=1e-8,
            atol=1e-8 * np.abs(v).max())
    if axis == 2:
        c.same(translate.rmtx_elem(a, **kw), m, "default axis")


@workload(P, quick=80, thorough=800)
def mirror(c):
    n, m = int(c.pick(1, 2, 7, 40)), int(c.pick(1, 2, 5))
    ray = gen.sphere(c.rng, n)
    nrm = gen.sphere(c.rng, m)
    bad = c.rng.random(m) < .3
    nrm[bad] = 0 if c.rng.random() < .5 else np.nan
    odd = c.rng.random(n) < .3
    ray[odd] *= c.rng.choice((.5, .99, .997, .9995, 1.0005, 1.004, 1.02, 3),
                             int(odd.sum()))[:, None]
    keep = ray.copy(), nrm.copy()
    c.let(n=n, m=m, bad=bad, odd=odd)
    got, mask = translate.reflect(ray, nrm)
    want = np.array([[r - 2 * (r @ k) * k for k in nrm] for r in ray])
    if n == 1:
        want = want[0]
    c.close(got, want, "mirror direction", rtol=0, atol=1e-12)
    ok = np.isclose(np.linalg.norm(want, axis=-1), 1)
    c.same(mask, ok, "mask of unit results")
    if not bad.any():
        c.same(np.reshape(mask, (n, m)), np.repeat(~odd[:, None], m, 1),
               "the mask tells unit rays")
    c.same(translate.reflect(ray, nrm, returnmasked=True), got[mask], "returnmasked")
    c.same(ray, keep[0], "input")
    c.same(nrm, keep[1], "input")
    good = nrm[~bad]
    if len(good):
        for k in good:
            r1, _ = translate.reflect(ray, k[None])
            r1 = r1.reshape(-1, 3)
            c.close(r1 @ k, -(ray @ k), "angle of reflection", rtol=0, atol=1e-12)
            r2, _ = translate.reflect(r1, k[None])
            c.close(r2.reshape(-1, 3), ray, "reflecting twice", rtol=0, atol=1e-12)
