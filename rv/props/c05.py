"""C05 binary and text array data survive serialization"""
import io as stdio
import os

import numpy as np

from raytools import io
from rv.core import workload

P = "C05"
LEVEL = "exploration"
RULE = ("random arrays (shape, memory layout, source dtype) x storage dtypes "
        "(width, signedness, byte order) through memory, files and streams, appended "
        "in random histories; judged bit for bit against struct packing")
ASSUMPTIONS = []
DTYPES = ["<f", ">f", "<d", ">d", "<i4", ">i4", "<u2", ">u2", "u1", "<f8", "<i8", "f2"]


def arr(c, dt):
    nd = int(c.rng.integers(1, 5))
    shape = tuple(int(q) for q in c.rng.integers(1, 8, nd))
    if c.rng.random() < .1:
        shape = shape[:-1] + (0,)
    src = c.pick("f8", "f4", "i8", "u1", "i4")
    d = np.dtype(dt)
    if d.kind == "u" or src == "u1":
        a = c.rng.integers(0, 250, shape)
        if d.kind == "u" and src[0] == "f":
            # fractions are cut off, as by a numpy cast
            a = a + c.rng.choice((0, .25, .5, .75, .999), shape)
    elif d.kind == "i" or src[0] == "i":
        a = c.rng.integers(-1000, 1000, shape)
        if d.kind == "i" and src[0] == "f":
            a = a + c.rng.choice((0, .25, .5, .75, .999), shape)
    else:
        a = c.rng.normal(size=shape) * 10.0 ** c.rng.integers(-3, 3)
        if c.rng.random() < .2 and a.size:
            a.flat[0] = c.pick(np.nan, np.inf, -np.inf, -0.0)
    a = a.astype(src)
    lay = c.pick("C", "F", "T", "step", "rev")
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "T":
        a = a.T
    elif lay == "step":
        a = np.repeat(a, 2, -1)[..., ::2]
    elif lay == "rev":
        a = a[::-1]
    c.let(shape=a.shape, src=src, dtype=dt, layout=lay)
    return a


def pack(a, dt):
    """row major bytes of every element, one at a time"""
    d = np.dtype(dt)
    with np.errstate(all="ignore"):
        return b"".join(np.array(v).astype(d).tobytes() for v in a.flat) \
            if False else b"".join(
                np.array(a[k]).astype(d).tobytes() for k in np.ndindex(*a.shape))


@workload(P, quick=240, thorough=3000)
def memory(c):
    dt = c.cycle(DTYPES)
    a = arr(c, dt)
    keep = a.copy()
    with np.errstate(all="ignore"):
        b = io.np2bytes(a, dt)
        want = a.astype(np.dtype(dt))
    c.check(isinstance(b, bytes), "np2bytes is bytes")
    c.same(b, pack(a, dt), "row major bytes")
    r = io.bytes2np(b, a.shape, dt)
    c.same(r, want, "bytes2np(np2bytes)")
    c.same(r.dtype, np.dtype(dt), "dtype")
    c.same(a, keep, "input unchanged")
    if a.size > 1:
        c.raises(ValueError, lambda: io.bytes2np(b[:-1], a.shape, dt), "short buffer")
        c.raises(ValueError, lambda: io.bytes2np(b + b, a.shape, dt), "long buffer")
    if dt == "<f":
        with np.errstate(all="ignore"):
            c.same(io.np2bytes(a), b, "default storage is little endian float32")
        c.same(io.bytes2np(b, a.shape), r, "default bytes2np")


@workload(P, quick=60, thorough=800)
def files(c):
    """histories of overwriting and appending writes"""
    dt = c.cycle(DTYPES)
    f = c.path("a b.bin")
    model = b""
    n = int(c.rng.integers(1, 7))
    for k in range(n):
        a = arr(c, dt)
        mode = c.pick("wb", "ab", "ab", "default", "r+b" if k else "xb")
        with np.errstate(all="ignore"):
            if mode == "default":
                io.np2bytefile(a, f, dtype=dt)
                model = pack(a, dt)
            else:
                io.np2bytefile(a, f, dtype=dt, mode=mode)
                new = pack(a, dt)
                model = model + new if mode == "ab" else \
                    new + (model[len(new):] if mode == "r+b" else b"")
        c.same(open(f, "rb").read(), model, f"file after write {k} ({mode})")
    count = len(model) // np.dtype(dt).itemsize
    with open(f, "rb") as s:
        r = io.bytefile2np(s, (count,), dt)
    c.same(r, np.frombuffer(model, np.dtype(dt)), "bytefile2np")
    if count > 1:
        with open(f, "rb") as s:
            c.raises(ValueError, lambda: io.bytefile2np(s, (count - 1,), dt), "long file")
    # a stream is read from where it stands
    skip = int(c.rng.integers(0, count + 1))
    s = stdio.BytesIO(model)
    s.read(skip * np.dtype(dt).itemsize)
    r = io.bytefile2np(s, (count - skip,), dt)
    c.same(r, np.frombuffer(model, np.dtype(dt))[skip:], "bytefile2np mid stream")
    c.let(writes=n, count=count, skip=skip)


@workload(P, quick=60, thorough=400)
def text(c):
    kind = c.cycle(["ok", "ok", "missing", "words", "ragged", "none", "array", "list",
                    "dir", "bytes", "int", "delim"])
    c.let(kind=kind)
    f = c.path(c.pick("t x.txt", " t.txt", "t.txt ", "~t.txt", "t#1.txt", "t\u00fcx.txt", "it's.txt", "\u6570.txt"))
    a = c.rng.normal(size=(int(c.rng.integers(2, 9)), int(c.rng.integers(2, 5))))
    if c.rng.random() < .4:
        # what numpy writes for missing and overflown values
        a[int(c.rng.integers(len(a))), int(c.rng.integers(a.shape[1]))] = \
            c.pick(np.nan, np.inf, -np.inf, -0., 1e300, 1e-310)
    if kind in ("ok", "bytes"):
        np.savetxt(f, a, fmt="%.18e")
        c.same(io.load_txt(os.fsencode(f) if kind == "bytes" else f), a, "values")
    elif kind == "delim":
        np.savetxt(f, a, fmt="%.18e", delimiter=",", header="x")
        c.same(io.load_txt(f, delimiter=","), a, "delimited values")
        c.same(io.load_txt(f, delimiter=",", usecols=1), a[:, 1], "usecols")
        c.raises(ValueError, lambda: io.load_txt(f), "wrong delimiter")
    elif kind in ("missing", "dir"):
        if kind == "dir":
            os.mkdir(f)
        c.raises(FileNotFoundError, lambda: io.load_txt(f), kind)
    elif kind in ("words", "ragged"):
        open(f, "w").write(c.pick("a b c\n", "1 2 x\n3 4 5\n") if kind == "words" else "1 2 3\n4 5\n")
        c.raises(ValueError, lambda: io.load_txt(f), kind)
    else:
        bad = {"none": None, "array": a, "list": [1, 2], "int": 3}[kind]
        c.raises(TypeError, lambda: io.load_txt(bad), kind)
