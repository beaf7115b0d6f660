"""C15 culling duplicate directions keeps one representative of every group"""
import numpy as np
from scipy.spatial import cKDTree

from raytools import translate
from rv import gen
from rv.core import workload

P = "C15"
LEVEL = "exploration"
RULE = ("random, clustered, chained and duplicated point sets, given as arrays or "
        "prebuilt trees; judged by the separation and cover of the kept points and by "
        "first-come selection")
ASSUMPTIONS = ["no pair of points lies exactly at the tolerance"]


@workload(P, quick=200, thorough=3000)
def cull(c):
    n = int(c.pick(1, 2, 5, 40, 200, 600))
    dim = int(c.pick(2, 3, 3))
    kind = c.cycle(["random", "cluster", "chain", "duplicates", "grid"])
    tol = 10.0 ** (c.rng.uniform(-3, -.5) if c.rng.random() < .8 else c.rng.uniform(-12, -3))
    v = c.rng.normal(size=(n, dim))
    if kind == "cluster":
        v = v[c.rng.integers(0, max(1, n // c.pick(5, 5, 100)), n)] + c.rng.normal(size=(n, dim)) * tol / 2
    elif kind == "chain":
        v = np.zeros((n, dim))
        v[:, 0] = np.arange(n) * tol * c.pick(.004, .02, .1, .4, .7, .95)
        v = v[c.rng.permutation(n)]
    elif kind == "duplicates":
        v = v[c.rng.integers(0, max(1, n // 3), n)]
    elif kind == "grid":
        s = int(np.ceil(n ** .5))
        v = np.zeros((n, dim))
        v[:, 0] = np.arange(n) % s
        v[:, 1] = np.arange(n) // s
        v *= tol * c.pick(.06, .3, .8)
        v = v[c.rng.permutation(n)]
    if dim == 3 and kind == "random":
        v = gen.unit(v)
    d = np.linalg.norm(v[:, None] - v[None], axis=-1)
    if np.any(np.abs(d - tol) < 1e-9 * tol):
        tol *= 1.0001
        if np.any(np.abs(d - tol) < 1e-9 * tol):
            return
    c.let(n=n, kind=kind, tol=tol, dim=dim)
    keep = v.copy()
    tree = c.rng.random() < .4
    got = translate.cull_vectors(cKDTree(v) if tree else v, tol)
    c.same(v, keep, "input")
    c.check(got.dtype == bool and got.shape == (n,), f"mask {got.dtype} {got.shape}")
    near = d <= tol
    kept = np.flatnonzero(got)
    c.check(got[0], "the first point is kept")
    a = near[np.ix_(kept, kept)] & ~np.eye(len(kept), dtype=bool)
    c.check(not a.any(), "two kept points within the tolerance")
    c.check(np.all(near[:, kept].any(1)), "a point without a kept neighbour was culled")
    want = np.ones(n, bool)
    for j in range(n):
        if want[j]:
            want[near[j] & (np.arange(n) > j)] = False
    c.same(got, want, "the first point of each group is kept")
    again = translate.cull_vectors(v[got], tol)
    c.check(again.all(), "culling twice removes more points")
    c.event("points", n)
    c.event("culled", int((~got).sum()))
