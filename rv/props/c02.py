"""C02 a damaged or missing image is never turned into pixels"""
import os

import numpy as np

from raytools import imagetools, io
from rv import gen, ref
from rv.core import workload

P = "C02"
LEVEL = "fault_enumeration"
RULE = ("every truncation offset of each generated image (header, resolution line "
        "and pixel data) plus missing, empty, foreign and directory inputs is given "
        "to every reader; a case is non-trivial when the undamaged file was read "
        "first and the monitor classified every outcome of the damaged one")
ASSUMPTIONS = ["the format has no checksum: damage which leaves a complete, valid "
               "image (e.g. flipped mantissa bits, bytes after the end) is "
               "undetectable and outside of the property"]

VIEW = "VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vp 0 0 0 -vu 0 0 1"


def no_pixels(c, what, func):
    """func has to raise an ordinary exception"""
    try:
        r = func()
    except Exception as ex:
        c.event("raised_" + type(ex).__name__)
        c.run.nchecks += 1
        c.checks += 1
        return ex
    c.fail(f"{what} returned {type(r).__name__} "
           f"{getattr(r, 'shape', '')} from damaged input")


def build(c, res=None):
    w = int(c.pick(3, 8, 9, 12)) if res is None else res
    h = int(c.pick(3, 8, 5)) if res is None else res
    rle = bool(c.i % 2)
    px = ref.rgbe_encode(gen.image(c.rng, (h, w, 3), "log"))
    f = c.path("good.hdr")
    how = c.pick("own", "repo")
    if how == "own":
        ref.write_hdr(f, px, [VIEW, "foo=bar"], rle)
    else:
        io.array2hdr(np.transpose(ref.rgbe_decode(px), (2, 1, 0)), f, [VIEW, "foo=bar"])
    c.let(w=w, h=h, rle=rle, writer=how)
    return f, open(f, "rb").read()


@workload(P, quick=10, thorough=60, timeout=400)
def truncated(c):
    """all prefixes"""
    f, b = build(c)
    g0 = io.hdr2carray(f)
    c.check(g0.ndim == 3, "undamaged image is readable")
    t = c.path("cut.hdr")
    end = len(b)
    reader = c.cycle([io.hdr2array, io.hdr2carray])
    c.let(reader=reader.__name__, size=end)
    for k in range(end):
        with open(t, "wb") as o:
            o.write(b[:k])
        no_pixels(c, f"{reader.__name__} of {k}/{end} bytes",
                  lambda: reader(t))
        c.event("fault_points")


@workload(P, quick=8, thorough=60, timeout=400)
def truncated_tools(c):
    """file level functions do not produce results from a cut image"""
    f, b = build(c, res=8)
    t = c.path("cut.hdr")
    nl = b.index(b"\n\n") + 2
    ks = sorted({int(q) for q in c.rng.integers(nl, len(b), 8)} |
                {0, 5, nl - 1, nl, nl + 3, len(b) - 1})
    outs = [("vlambda", lambda: io.hdr2array(t, vlambda=(.3, .6, .1))),
            ("stdin", lambda: _stdin(io.hdr2array, t)),
            ("cstdin", lambda: _stdin(io.hdr2carray, t)),
            ("header", lambda: io.hdr2array(t, header=True)),
            ("imgmetric", lambda: imagetools.imgmetric(t, ["illum"])),
            ("hdr2vol", lambda: imagetools.hdr2vol(t, None)),
            ("ang2uv", lambda: imagetools.hdr_ang2uv(t, outf=c.path("o.hdr"))),
            ("uv2ang", lambda: imagetools.hdr_uv2ang(t, outf=c.path("o.hdr"))),
            ("rotate", lambda: imagetools.hdr_rotate(t, outf=c.path("o.hdr"),
                                                     rotate=90)),
            ("solid2ang", lambda: imagetools.hdr_solid2ang(t, outf=c.path("o.hdr")))]
    for k in ks:
        with open(t, "wb") as o:
            o.write(b[:k])
        for name, func in outs:
            no_pixels(c, f"{name} of {k}/{len(b)} bytes", func)
            c.check(not os.path.exists(c.path("o.hdr")),
                    f"{name} left an output image from a cut input")
            c.event("fault_points")


@workload(P, quick=10, thorough=80, timeout=400)
def truncated_large(c):
    """images of thousands of pixels, in which more than one buffer of every tool
    and pipe on the way is filled before the end is missing"""
    w = int(c.pick(64, 100, 200, 333))
    h = int(c.pick(64, 80, 150))
    kind = c.pick("flat", "log", "const")
    if kind == "flat":
        img = gen.image(c.rng, (h, w, 3), "uniform")
    elif kind == "log":
        img = gen.image(c.rng, (h, w, 3), "log")
    else:
        img = np.full((h, w, 3), 3.)
    rle = bool(c.i % 2)
    f = c.path("good.hdr")
    ref.write_hdr(f, ref.rgbe_encode(img), [VIEW], rle)
    b = open(f, "rb").read()
    nl = b.index(b"\n\n") + 2
    c.let(w=w, h=h, rle=rle, kind=kind, size=len(b))
    t = c.path("cut.hdr")
    ks = [len(b) - 1, len(b) - 2, len(b) - 4 * w // 2, nl + (len(b) - nl) // 2,
          *c.rng.integers(nl, len(b), 3), *(len(b) - c.rng.integers(1, 5 * w, 3))]
    want = io.hdr2array(f)
    c.same(want.shape, (w, h) if want.ndim == 2 else want.shape, "whole image")
    for k in ks:
        k = min(max(int(k), nl), len(b) - 1)
        with open(t, "wb") as o:
            o.write(b[:k])
        for name, func in (("hdr2array", io.hdr2array), ("hdr2carray", io.hdr2carray)):
            no_pixels(c, f"{name} of {k}/{len(b)} bytes", lambda: func(t))
            no_pixels(c, f"{name} stdin of {k}/{len(b)} bytes",
                      lambda: _stdin(func, t))
        no_pixels(c, f"imgmetric of {k}/{len(b)} bytes",
                  lambda: imagetools.imgmetric(t, ["illum"]))
        c.event("fault_points")


def _stdin(func, t):
    with open(t, "rb") as s:
        return func("", stdin=s)


@workload(P, quick=12, thorough=40)
def foreign(c):
    """things which are no images"""
    kind = c.cycle(["missing", "empty", "text", "binary", "dir", "png", "nores",
                    "headeronly", "badres", "zeros", "missingdir", "badformat"])
    t = c.path("bad.hdr")
    c.let(kind=kind)
    if kind == "missingdir":
        t = c.path("no/such/dir.hdr")
    elif kind == "dir":
        os.mkdir(t)
    elif kind != "missing":
        data = {"empty": b"", "text": b"some text\nof two lines\n",
                "binary": c.rng.integers(0, 256, 400).astype(np.uint8).tobytes(),
                "png": b"\x89PNG\r\n\x1a\n" + bytes(200), "zeros": bytes(500),
                "nores": b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n",
                "headeronly": b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n",
                "badres": b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y a +X b\n" +
                          bytes(100),
                "badformat": b"#?RADIANCE\nFORMAT=ascii\n\n-Y 2 +X 2\n" + bytes(16),
                }[kind]
        with open(t, "wb") as o:
            o.write(data)
    no_pixels(c, f"hdr2array of {kind}", lambda: io.hdr2array(t))
    no_pixels(c, f"hdr2carray of {kind}", lambda: io.hdr2carray(t))
    no_pixels(c, f"hdr2array vlambda of {kind}",
              lambda: io.hdr2array(t, vlambda=(1, 1, 1)))
    no_pixels(c, f"imgmetric of {kind}", lambda: imagetools.imgmetric(t, ["illum"]))
    if kind in ("missing", "missingdir"):
        c.raises(FileNotFoundError, lambda: io.hdr_header(t), "hdr_header missing file")
        c.raises(FileNotFoundError, lambda: imagetools.hdr2vm(t), "hdr2vm missing file")
        c.raises(FileNotFoundError, lambda: io.load_txt(t), "load_txt missing file")
    if kind in ("text", "png", "empty"):
        c.raises(OSError, lambda: io.hdr_header(t), "hdr_header of a non image")
    if kind != "dir" and os.path.exists(t):
        want = open(t, "rb").read(10) == b"#?RADIANCE"
        c.same(bool(io.is_hdr(t)), want, "is_hdr")


@workload(P, quick=30, thorough=300)
def recognise(c):
    """is_hdr says yes exactly for files which start with the magic"""
    f, b = build(c)
    c.same(bool(io.is_hdr(f)), True, "is_hdr of an image")
    n = int(c.rng.integers(0, 12))
    d = bytearray(b)
    if n < 10:
        d[n] ^= int(c.rng.integers(1, 256))
    c.let(flip=n)
    t = c.path("t.hdr")
    open(t, "wb").write(bytes(d))
    c.same(bool(io.is_hdr(t)), n >= 10, "is_hdr of a changed magic")
    open(t, "wb").write(b[:n])
    c.same(bool(io.is_hdr(t)), n >= 10, "is_hdr of a short file")
    magic = b"#?RADIANCE"
    k = int(c.rng.integers(2, 10))
    for other in (magic.lower(), magic[:k] + magic[k:].lower(),
                  magic[:k] + magic[k:k + 1].lower() + magic[k + 1:], b" " + magic,
                  b"\n" + magic, b"\xef\xbb\xbf" + magic, magic[1:], b"#?RGBE\n",
                  magic.replace(b"?", b"!")):
        open(t, "wb").write(other + b[10:])
        c.same(bool(io.is_hdr(t)), False, f"is_hdr of {other!r}")
    open(t, "wb").write(magic + c.pick(b"", b"x", b"\r\n", b"\0"))
    c.same(bool(io.is_hdr(t)), True, "is_hdr of just the magic")
