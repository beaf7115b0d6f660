"""C10 uv and sky bins partition the square and the sky, and agree with Radiance"""
import subprocess

import numpy as np

from raytools import translate
from rv import gen, ref
from rv.core import workload

P = "C10"
LEVEL = "exploration"
RULE = ("every bin of random grid sizes, random and edge coordinates; judged by the "
        "partition laws, a scalar reference and by evaluating the exported .cal "
        "expressions with Radiance's rcalc")
ASSUMPTIONS = ["v < 1 and u < 2 (the far border of the square wraps)",
               "sky directions with z > 1e-6"]


@workload(P, quick=120, thorough=1500)
def bins(c):
    side = int(c.pick(1, 2, 3, 7, 10, 16, 18, 29, 46, 64))
    c.let(side=side)
    b = np.arange(2 * side * side)
    uv = translate.bin2uv(b, side)
    c.check(uv.shape == (len(b), 2), f"shape {uv.shape}")
    want = np.stack(((b // side + .5) / side, (b % side + .5) / side), -1)
    c.close(uv, want, "bin centers", rtol=1e-12)
    c.same(translate.uv2bin(uv, side).astype(int), b, "bin of the bin center")
    off = float(c.pick(c.rng.uniform(.01, .99), c.rng.uniform(.01, .99), 1e-6,
                       1 - 1e-6))
    c.close(translate.bin2uv(b, side, off), want + (off - .5) / side, "offset",
            rtol=1e-9, atol=1e-12)
    c.same(translate.uv2bin(translate.bin2uv(b, side, off), side).astype(int), b,
           "bin of any point of the bin")
    # every coordinate has one bin, whose square holds it
    n = 500
    q = c.rng.random((n, 2)) * (2, 1)
    if c.i % 2:
        q[: n // 2] = np.floor(q[: n // 2] * side) / side
        q[: n // 4] += c.rng.choice((-1, 1), (n // 4, 2)) * \
            10. ** -c.rng.integers(3, 13, (n // 4, 2))
        q[: n // 4] = np.clip(q[: n // 4], 0, (2 - 1e-12, 1 - 1e-12))
    got = translate.uv2bin(q, side)
    c.check(np.all((got >= 0) & (got < 2 * side * side)), "bin out of range")
    c.check(np.all(got == np.floor(got)), "whole numbers")
    ctr = want[got.astype(int)]
    c.check(np.all(np.abs(ctr - q) <= .5 / side + 1e-14), "point outside of its bin")
    ij = translate.uv2ij(q, side)
    c.check(ij.dtype.kind == "i", "indices are integers")
    c.same(ij[:, 0] * side + ij[:, 1], got.astype(int), "uv2ij against uv2bin")
    j = translate.uv2ij(q, side, aspect=1)
    c.same(j[:, 0], ij[:, 0] % side, "aspect 1")
    c.same(j[:, 1], ij[:, 1], "aspect 1, v")
    one = tuple(q[0])
    c.same(translate.uv2bin(one, side), got[:1], "single coordinate")
    # equal population of a finer grid
    k = 4
    f = (np.stack(np.mgrid[0:2 * side * k, 0:side * k], -1).reshape(-1, 2) + .5) / \
        (side * k)
    cnt = np.bincount(translate.uv2bin(f, side).astype(int), minlength=2 * side ** 2)
    c.same(cnt, np.full(2 * side ** 2, k * k), "points per bin")
    c.event("bins", len(b))


@workload(P, quick=40, thorough=400)
def fine(c):
    """grids too large to visit every bin of"""
    side = int(c.pick(100, 181, 200, 256, 1000, 33333, 50000, 2 ** 20))
    n = 300
    c.let(side=side)
    b = c.rng.integers(0, 2 * side * side, n)
    b[:4] = 0, side * side - 1, side * side, 2 * side * side - 1
    uv = translate.bin2uv(b, side)
    want = np.stack(((b // side + .5) / side, (b % side + .5) / side), -1)
    c.close(uv, want, "bin centers", rtol=1e-12)
    c.same(translate.uv2bin(uv, side).astype(np.int64), b, "bin of the bin center")
    ij = translate.uv2ij(uv, side)
    c.same(ij.astype(np.int64), np.stack((b // side, b % side), -1), "uv2ij")
    q = c.rng.random((n, 2)) * (2, 1)
    got = translate.uv2bin(q, side).astype(np.int64)
    ctr = np.stack(((got // side + .5) / side, (got % side + .5) / side), -1)
    c.check(np.all(np.abs(ctr - q) <= .5 / side + 1e-14), "point outside of its bin")
    low = b % (side * side)
    xyz = translate.skybin2xyz(low, side)
    want = np.array([ref.sc_xyz((k // side + .5) / side, (k % side + .5) / side)
                     for k in low.tolist()])
    c.close(xyz, want, "patch centers", rtol=0, atol=2e-8)
    if side <= 1000:
        c.same(translate.xyz2skybin(xyz, side).astype(np.int64), low,
               "patch of its center")
    c.event("bins", n)


@workload(P, quick=100, thorough=1000)
def sky(c):
    side = int(c.pick(1, 2, 5, 18, 20, 30))
    n = int(c.pick(1, 60, 300))
    c.let(side=side, n=n)
    b = np.arange(side * side)
    ctr = translate.skybin2xyz(b, side)
    want = np.array([ref.sc_xyz((q // side + .5) / side, (q % side + .5) / side)
                     for q in b.tolist()])
    c.close(ctr, want, "patch centers", rtol=0, atol=2e-8)
    c.check(np.all(ctr[:, 2] > 0), "patches are above the horizon")
    c.same(translate.xyz2skybin(ctr, side).astype(int), b, "patch of its center")
    low = translate.skybin2xyz(np.arange(side ** 2, 2 * side ** 2), side)
    c.same(low, np.broadcast_to((0., 0., -1.), low.shape), "the ground is one direction")
    # any mix and order of sky and ground bins
    mix = c.rng.integers(0, 2 * side ** 2, int(c.rng.integers(1, 40)))
    if c.rng.random() < .3:
        mix = np.append(mix, [side ** 2, side ** 2 - 1])[::-1]
    want = np.array([ref.sc_xyz((q // side + .5) / side, (q % side + .5) / side)
                     if q < side ** 2 else (0., 0., -1.) for q in mix.tolist()])
    mk = mix.copy()
    c.close(translate.skybin2xyz(mix, side), want, "sky and ground, mixed", rtol=0,
            atol=2e-8)
    c.same(mix, mk, "bins")
    v = gen.hemisphere(c.rng, n)
    v = v[v[:, 2] > 1e-6]
    if len(v) == 0:
        v = np.array([[0, 0, 1.]])
    scale = 10.0 ** c.rng.uniform(-3, 3, (len(v), 1))
    keep = v.copy()
    got = translate.xyz2skybin(v, side)
    c.same(v, keep, "input")
    c.same(translate.xyz2skybin(v * scale, side, normalize=True).shape, got.shape,
           "normalize")
    uv = translate.xyz2uv(v)
    safe = np.all(np.abs(uv * side - np.round(uv * side)) > 1e-6, 1)
    c.same(translate.xyz2skybin(v * scale, side, normalize=True)[safe], got[safe],
           "normalized directions")
    c.check(np.all((got >= 0) & (got < side * side)), "patch out of range")
    # the patch holds the direction: its reference uv square does
    i = got.astype(int)
    sq = np.stack((i // side, i % side), -1)
    c.check(np.all((uv * side >= sq - 1e-6) & (uv * side <= sq + 1 + 1e-6)),
            "direction outside of its patch")
    g = v.copy()
    g[:, 2] *= -1
    c.check(np.all(translate.xyz2skybin(g, side) >= side * side), "the ground")
    # neighbours
    tol = float(c.pick(.1, .51, .9))
    k = int(c.rng.integers(len(v)))
    nb = translate.xyz2skybin(v[k], side, tol=tol)
    pts = [uv[k] + np.array((a, d)) * tol / side for a in (-1, 0, 1) for d in (-1, 0, 1)]
    inside = all(0 <= q[0] < 1 and 0 <= q[1] < 1 for q in pts)
    away = all(np.all(np.abs(q * side - np.round(q * side)) > 1e-6) for q in pts)
    if inside and away:
        w = sorted({int(q[0] * side) * side + int(q[1] * side) for q in pts})
        c.same(nb.tolist(), w, "patches within the tolerance")
        c.event("neighbourhoods")
    # at the border of the square there are only patches of the sky
    for cu in ((0, 0), (1, 0), (0, 1), (1, 1), (1, .5), (.5, 1), tuple(c.rng.random(2))):
        q = np.clip(np.array(cu) + c.rng.normal(size=2) * .3 / side, 1e-9, 1 - 1e-9)
        d = np.array(ref.sc_xyz(*q))
        d[2] = max(d[2], 2e-6)
        own = int(translate.xyz2skybin(d, side, normalize=True)[0])
        nb = translate.xyz2skybin(d, side, tol=tol, normalize=True).tolist()
        c.check(own in nb, f"patch {own} is one of its neighbourhood {nb}")
        c.check(all(0 <= k < side * side for k in nb), f"no sky patch in {nb}, {side}")
        c.same(nb, sorted(set(nb)), "each once")
    c.event("directions", len(v))


def rcalc(expr, data, side):
    inp = "\n".join(" ".join(f"{q:.17g}" for q in np.atleast_1d(r)) for r in data)
    p = subprocess.run(["rcalc", "-f", "rayinit.cal"] + sum(
        (["-e", e] for e in expr), []), input=inp.encode(), capture_output=True)
    if p.returncode != 0:
        raise AssertionError(f"rcalc rejects the expressions: {p.stderr.decode()[:400]}")
    return np.array(p.stdout.split(), float)


@workload(P, quick=25, thorough=200)
def radiance(c):
    side = int(c.pick(1, 2, 5, 18, 20, 30))
    c.let(side=side)
    b = np.arange(side * side)
    got = rcalc([f"bin=$1;side={side}", translate.scxyzcal.replace("\n", ""),
                 "$1=Dx;$2=Dy;$3=Dz"], b, side).reshape(-1, 3)
    c.close(translate.skybin2xyz(b, side), got, "centers against rcalc", rtol=0,
            atol=1e-6)
    v = gen.hemisphere(c.rng, 400)
    uv = translate.xyz2uv(v)
    v = v[(v[:, 2] > 1e-4) & np.all(np.abs(uv * side - np.round(uv * side)) > 1e-5, 1)]
    # just below the horizon is ground
    low = gen.hemisphere(c.rng, 40)
    low[:, 2] = -10.0 ** c.rng.uniform(-9, 0, 40)
    v = np.vstack((v, [[.1, .2, -.97]], ref.unit(low)))
    got = rcalc([f"Dx=$1;Dy=$2;Dz=$3;side={side}",
                 translate.scbinscal.replace("\n", ""), "$1=bin"], v, side)
    mine = np.minimum(translate.xyz2skybin(v, side, normalize=True), side * side)
    c.same(mine.astype(int), got.astype(int), "bins against rcalc")
    c.event("rcalc_directions", len(v))
