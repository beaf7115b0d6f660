"""C01 HDR images survive a write/read round trip"""
import os
import subprocess

import numpy as np

from raytools import io
from rv import gen, ref
from rv.core import workload

P = "C01"
LEVEL = "exploration"
RULE = ("random images (shape, dtype, memory layout, dynamic range, path, header, "
        "reader) are written with the real writer and read with the real readers; "
        "non-trivial: an independent RGBE decoder and the round trip oracle judged "
        "every pixel")
ASSUMPTIONS = ["values in [0, 1e37]; standard -Y +X images; no active EXPOSURE "
               "line is supplied by the caller (those are read back as exposure)"]

# half a mantissa step plus the truncation of the Radiance writer
TOL = 0.0045
NAMES = ["a.hdr", "with space.hdr", "quo'te.hdr", 'dq".hdr', "ünï.hdr", "a.b.c.hdr",
         "noext", "semi;amp&.hdr", "dollar$HOME.hdr", " lead and trail ", "~root.hdr", "paren(1).hdr", "-x.hdr", "a - b -c.hdr"]
SIZES = [1, 2, 3, 5, 7, 8, 9, 13, 16, 31, 64, 127, 128, 129, 200]


def tolerance(a):
    """absolute tolerance for each value"""
    m = a.max(0) if a.ndim == 3 else a
    return np.broadcast_to(TOL * m, a.shape) + 2e-32


def agree(c, got, a, what):
    c.check(isinstance(got, np.ndarray), f"{what}: not an array")
    c.check(got.shape == a.shape, f"{what}: shape {got.shape} written {a.shape}")
    bad = ~(np.abs(got - a) <= tolerance(a))
    if np.any(bad):
        k = tuple(int(q) for q in np.argwhere(bad)[0])
        c.fail(f"{what}: pixel {k} is {got[k]} written {a[k]} "
               f"({int(bad.sum())}/{bad.size} wrong)")
    c.event("pixels_compared", a.size)


def make(c):
    color = bool(c.i % 2)
    if c.i % 17 == 16:
        shape = c.pick([(1, 300), (300, 1), (1, 1), (700, 9), (9, 700), (1030, 8),
                        (600, 500)])
    else:
        shape = (int(c.pick(SIZES)), int(c.pick(SIZES)))
    kind = c.pick(["log", "uniform", "sparse", "const", "ramp", "extreme", "primary"])
    full = (3,) + shape if color else shape
    if kind == "extreme":
        a = 10.0 ** c.rng.uniform(-40, 36.9, full)
        a[c.rng.random(full) < .1] = 0
    elif kind == "primary":
        a = np.zeros(full)
        idx = c.rng.random(full) < .4
        a[idx] = 10.0 ** c.rng.uniform(-3, 4, int(idx.sum()))
    else:
        a = gen.image(c.rng, full, kind)
    dt = c.pick(["f8", "f4", ">f8", "f8", "int" if kind == "ramp" else "f8"])
    a = a.astype(dt)
    layout = c.pick(["C", "F", "strided", "rev", "readonly"])
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "strided":
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        big[..., ::2] = a
        a = big[..., ::2]
    elif layout == "rev":
        a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    elif layout == "readonly":
        a = a.copy()
        a.setflags(write=False)
    c.let(color=color, shape=shape, kind=kind, dtype=dt, layout=layout)
    return a, color


@workload(P, quick=330, thorough=4000)
def roundtrip(c):
    a, color = make(c)
    keep = a.copy()
    name = c.pick(*NAMES)
    f = c.path(name)
    if c.i % 5 == 4 and name[0] != "-":
        # an older, larger file has to be replaced as a whole
        with open(f, "wb") as o:
            o.write(os.urandom(20000))
    header = c.pick([None, [], ["VIEW= -vta -vh 180 -vv 180"],
                     ["foo=bar", "a line with spaces", "it's"],
                     [f"step{k}= x {k}" for k in range(int(c.rng.integers(3, 500)))]])
    clean = c.pick(False, False, True) and bool(header)
    writer = c.pick("array2hdr", "array2hdr", "carray2hdr") if color else "array2hdr"
    rel = name[0] == "-" or c.rng.random() < .2
    if rel:
        os.chdir(c.tmp)
        f = "./" + name
    c.let(name=name, header=header and header[:4], clean=clean, writer=writer, rel=rel)
    out = getattr(io, writer)(a, f, header=header, clean=clean)
    c.check(out == f, f"returned {out!r}, expected the path {f!r}")
    c.same(a, keep, "the written array was modified")
    if c.i % 5 == 4:
        fresh = c.path("fresh.hdr")
        getattr(io, writer)(a, fresh, header=header, clean=clean)
        c.check(open(f, "rb").read() == open(fresh, "rb").read(),
                "the file does not depend on what was there before")
    lines, px = ref.read_hdr(f)
    if header and not clean:
        c.same([q.strip() for q in lines if q.strip() in header], header, "header lines")
    c.event("files_decoded")
    vals = ref.hdr_values(f)
    want = a.astype(float)
    agree(c, vals if color else vals[1], want, "file content")
    if not color:
        c.same(vals[0], vals[1], "gray file: red == green")
        c.same(vals[2], vals[1], "gray file: blue == green")
    # the readers
    g = io.hdr2array(f)
    cc = io.hdr2carray(f)
    c.check(cc.shape == (3,) + want.shape[-2:], f"color read shape {cc.shape}")
    c.check(g.shape == want.shape[-2:], f"gray read shape {g.shape}")
    c.close(cc, vals, "color reader against file", rtol=1e-5, atol=1e-37)
    c.close(g, np.einsum("ijk,i->jk", vals, ref.RAD_LUM), "gray reader against file",
            rtol=1.5e-3, atol=1e-30)
    if color:
        agree(c, cc, want, "color round trip")
    else:
        agree(c, g, want, "gray round trip")
        for k in range(3):
            agree(c, cc[k], want, f"gray image read as color, channel {k}")
    # other ways to read the same file
    way = c.cycle(["header", "vlambda", "stdin", "vlambda", "cstdin", "again"])
    c.let(way=way)
    if way == "header":
        g2, h = io.hdr2array(f, header=True)
        c2, h2 = io.hdr2carray(f, header=True)
        c.check(isinstance(h, list) and h == h2, "header of both readers")
        c.check(any("FORMAT=32-bit_rle_" in q for q in h), f"header of the file: {h[:5]}")
    elif way == "vlambda":
        # (weights of a difference between bands can be negative)
        vl = c.rng.random(3) * 2 - (c.rng.random() < .5) * c.rng.random(3) * 3
        c2 = cc
        g2 = g
        vl = c.pick(list, tuple, np.array)(vl)
        if c.rng.random() < .5:
            gv, hv = io.hdr2array(f, vlambda=vl, header=True)
            c.check(hv == io.hdr_header(f), "header with weights")
            c.check(any("FORMAT=32-bit_rle_" in q for q in hv), f"header of the file: "
                    f"{hv[:5]}")
        else:
            gv = io.hdr2array(f, vlambda=vl)
        mx = float(np.max(cc, initial=0)) * float(np.max(np.abs(vl)))
        c.close(gv, np.einsum("ijk,i->jk", cc.astype(float), vl), "vlambda read",
                rtol=1e-5, atol=1e-37 + (1e-6 * mx if np.min(vl) < 0 else 0))
    elif way == "stdin":
        with open(f, "rb") as s:
            g2 = io.hdr2array("", stdin=s)
            vl = c.rng.random(3) * 2
            s.seek(0)
            gv = io.hdr2array("", stdin=s, vlambda=vl)
        c.close(gv, np.einsum("ijk,i->jk", cc.astype(float), vl),
                "vlambda read of a stream", rtol=1e-5, atol=1e-37)
        c2 = cc
    elif way == "cstdin":
        # (the color output of pvalue needs a seekable stream)
        with open(f, "rb") as s:
            c2 = io.hdr2carray("", stdin=s)
        p = subprocess.Popen(["cat", f], stdout=subprocess.PIPE)
        g2 = io.hdr2array("", stdin=p.stdout)
        p.stdout.close()
        p.wait()
    else:
        g2 = io.hdr2array(f)
        c2 = io.hdr2carray(f)
    c.same(g2, g, f"gray read via {way}")
    c.same(c2, cc, f"color read via {way}")
    if c.rng.random() < .25 and writer == "array2hdr":
        # another image of the same size under the same name, within one clock tick
        st = os.stat(f)
        io.array2hdr(np.ascontiguousarray(a[..., ::-1]), f, header=header, clean=clean)
        os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        c.same(io.hdr2carray(f), cc[..., ::-1], "color read of the replaced image")
        c.same(io.hdr2array(f), g[..., ::-1], "gray read of the replaced image")
        c.event("replaced")


@workload(P, quick=60, thorough=800)
def foreign(c):
    """files written by an independent encoder (flat and run length encoded),
    with exposure lines, are read as the values they hold"""
    h, w = int(c.pick(SIZES)), int(c.pick(SIZES))
    px = c.rng.integers(0, 256, (h, w, 4)).astype(np.uint8)
    px[..., 3] = c.rng.integers(90, 170, (h, w))
    if c.rng.random() < .5:
        px[c.rng.random((h, w)) < .5] = px[0, 0]
    if c.rng.random() < .3:
        px[c.rng.random((h, w)) < .3] = 0
    # a flat pixel must not look like an RLE marker
    px[..., 0] = np.maximum(px[..., 0], 3) * (px[..., 3] > 0)
    rle = bool(c.i % 2)
    ex = c.pick([[], ["EXPOSURE=2.5"], ["EXPOSURE=4", "x", "EXPOSURE= 0.125"],
                 ["\tEXPOSURE=3"]])
    c.let(h=h, w=w, rle=rle, exposure=ex)
    f = c.path("f.hdr")
    ref.write_hdr(f, px, ["some tool -x"] + ex, rle)
    want = np.transpose(ref.rgbe_decode(px), (2, 1, 0))[:, :, ::-1]
    for e in ex:
        if e.startswith("EXPOSURE"):
            want = want / float(e.split("=")[1])
    gray = np.einsum("ijk,i->jk", want, ref.RAD_LUM)
    c.close(io.hdr2carray(f), want, "color values", rtol=1e-5, atol=1e-30)
    c.close(io.hdr2array(f), gray, "gray values", rtol=1.5e-3, atol=1e-30)
    vl = c.rng.random(3)
    weighted = np.einsum("ijk,i->jk", want, vl)
    c.close(io.hdr2array(f, vlambda=vl), weighted, "weighted", rtol=1e-5, atol=1e-30)
    with open(f, "rb") as s:
        c.close(io.hdr2carray("", stdin=s), want, "color stream", rtol=1e-5, atol=1e-30)
    with open(f, "rb") as s:
        c.close(io.hdr2array("", stdin=s), gray, "gray stream", rtol=1.5e-3, atol=1e-30)
    with open(f, "rb") as s:
        c.close(io.hdr2array("", stdin=s, vlambda=vl), weighted, "weighted stream",
                rtol=1e-5, atol=1e-30)
    p = subprocess.Popen(["cat", f], stdout=subprocess.PIPE)
    c.close(io.hdr2array("", stdin=p.stdout), gray, "gray pipe", rtol=1.5e-3, atol=1e-30)
    p.stdout.close()
    p.wait()
    c.close(io.hdr2carray(f, header=True)[0], want, "color with header", rtol=1e-5,
            atol=1e-30)
    c.close(io.hdr2array(f, header=True)[0], gray, "gray with header", rtol=1.5e-3,
            atol=1e-30)
    c.event("pixels_compared", want.size)


@workload(P, quick=25, thorough=200)
def stable(c):
    """writing what was read does not drift: the second generation file holds
    the same pixels (up to the half step of the format)"""
    a, color = make(c)
    a = np.clip(np.abs(a.astype(float)), 0, 1e30)
    # around 1e-32 the format itself cuts off to black, so that a value which
    # is just kept may be read as one which is just not
    a[a < 1e-31] = 0
    f1, f2 = c.path("1.hdr"), c.path("2.hdr")
    io.array2hdr(a, f1)
    r1 = io.hdr2carray(f1)
    io.carray2hdr(r1, f2)
    r2 = io.hdr2carray(f2)
    c.same(ref.read_hdr(f1)[1], ref.read_hdr(f2)[1], "pixels after two generations")
    c.same(r1, r2, "values after two generations")
