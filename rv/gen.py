"""hostile input generators shared by the workloads"""
import numpy as np

AXES = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def sphere(rng, n):
    return unit(rng.normal(size=(n, 3)))


def hemisphere(rng, n, d=(0, 0, 1), half=np.pi / 2):
    """uniform over the cap of half angle half about d"""
    d = unit(d)
    z = 1 - rng.random(n) * (1 - np.cos(half))
    p = rng.random(n) * 2 * np.pi
    s = np.sqrt(np.maximum(0, 1 - z * z))
    a = np.array((1., 0, 0)) if abs(d[0]) < .9 else np.array((0, 1., 0))
    u = unit(np.cross(d, a))
    w = np.cross(d, u)
    return unit((s * np.cos(p))[:, None] * u + (s * np.sin(p))[:, None] * w +
                z[:, None] * d)


def direction(rng, i=None, vertical=True):
    """a view direction: the axes, near vertical, diagonals, random"""
    k = int(rng.integers(10)) if i is None else i % 14
    if k < 6:
        a = AXES[k]
        if vertical or a[2] == 0:
            return tuple(float(q) for q in a)
        return (0.0, 1.0, 0.0)
    if k == 6 and vertical:
        d = rng.normal(size=3)
        d[2] = 0
        return tuple(unit(d) * 10.0 ** -rng.integers(2, 5) +
                     np.array((0, 0, rng.choice((-1, 1)))))
    if k == 7:
        return tuple(float(q) for q in rng.choice((-1, 1), 3))
    if k == 8:
        d = rng.normal(size=3)
        d[2] = 0
        return tuple(unit(d))
    return tuple(unit(rng.normal(size=3)) * float(rng.choice((1, 1, 3.7, .02))))


def image(rng, shape, kind=None):
    """non negative image values with a large dynamic range"""
    if kind is None:
        kind = rng.choice(["log", "log", "uniform", "sparse", "const", "ramp"])
    n = int(np.prod(shape))
    if kind == "log":
        a = 10.0 ** rng.uniform(-5, 5, n)
    elif kind == "uniform":
        a = rng.random(n)
    elif kind == "sparse":
        a = np.where(rng.random(n) < .2, 10.0 ** rng.uniform(-2, 6, n), 0)
    elif kind == "const":
        a = np.full(n, 10.0 ** rng.uniform(-3, 3))
    else:
        a = np.arange(n) + 1.0
    return a.reshape(shape)


def header_words(rng, n, words=None):
    if words is None:
        words = ["rpict", "-ab", "2", "pfilt", "-1", "-x", "100", "oconv", "a=b",
                 "scene.rad", "/path/to/f.oct", "x:y", "50%", "~", "*", "(a)"]
    return " ".join(rng.choice(words, n))
