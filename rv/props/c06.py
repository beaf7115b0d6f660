"""C06 colour to luminance conversions agree with each other and Radiance"""
import numpy as np

from raytools import io
from rv import gen, ref
from rv.core import workload

P = "C06"
LEVEL = "exploration"
RULE = ("random colour data (leading shape, channel count, dtype) and all RGBE "
        "exponents; judged against explicit weighted sums and Radiance's own gray "
        "reader on the same pixels")
ASSUMPTIONS = []


@workload(P, quick=150, thorough=2000)
def weights(c):
    nd = int(c.rng.integers(1, 5))
    lead = tuple(int(q) for q in c.rng.integers(1, 6, nd - 1))
    nch = 3 if c.i % 3 else int(c.rng.integers(1, 24))
    dt = c.pick("f8", "f4", "i4", "u1", "f2", "i2", "u2")
    a = gen.image(c.rng, lead + (nch,), "uniform" if dt == "f2" else "log") \
        if dt[0] == "f" else \
        c.rng.integers(0, 256, lead + (nch,))
    a = a.astype(dt)
    if c.rng.random() < .2:
        a = np.asfortranarray(a)
    keep = a.copy()
    vl = None if nch == 3 and c.rng.random() < .5 else c.rng.random(nch)
    form = c.pick("tuple", "list", "array")
    c.let(lead=lead, nch=nch, dtype=dt, default=vl is None, form=form)
    kw = {}
    w = np.array((.265, .67, .065)) if vl is None else vl
    if vl is not None:
        kw = dict(vlambda=dict(tuple=tuple, list=list, array=np.array)[form](vl))
    want = np.zeros(lead)
    for k in range(nch):
        want = want + a[..., k].astype(float) * float(w[k])
    c.close(io.rgb2rad(a, **kw), want, "rgb2rad", rtol=1e-5)
    c.close(io.rgb2lum(a, **kw), want * 179, "rgb2lum is 179 x rgb2rad", rtol=1e-5)
    c.same(a, keep, "input unchanged")
    if nch == 3 and vl is None:
        c.close(io.rgb2lum([[1, 1, 1]]), [179.], "white is 179 lm/W", rtol=1e-9)


@workload(P, quick=60, thorough=500)
def rgbe(c):
    """4 byte pixels as the integers of the file, any integer type"""
    n = int(c.pick(1, 7, 64, 300))
    px = c.rng.integers(0, 256, (n, 4)).astype(np.uint8)
    px[:, 3] = np.resize(np.arange(256), n) if n >= 256 else \
        c.rng.integers(1, 256, n)
    zero = c.rng.random(n) < .1
    px[zero] = 0
    dt = c.cycle(["u1", "i8", "i4", "u2", "i2", "f8"])
    c.let(n=n, dtype=dt)
    src = px.astype(dt)
    keep = src.copy()
    lum = io.rgbe2lum(src)
    c.check(np.shape(lum) == (n,), f"shape {np.shape(lum)}")
    e = px[:, 3].astype(int)
    want = np.zeros(n)
    for k, w in enumerate((.265, .67, .065)):
        ch = np.where(px[:, k] == 0, 0, (px[:, k] + .5)) * 2.0 ** (e - 128) / 256
        want += ch * w * 179
    c.close(lum, want, "luminance", rtol=1e-6, atol=0)
    c.same(src, keep, "input unchanged")


@workload(P, quick=40, thorough=400)
def radiance(c):
    """gray reader == weighted colour reader == rgb2rad == rgbe2lum / 179"""
    h, w = int(c.rng.integers(1, 20)), int(c.rng.integers(1, 20))
    px = c.rng.integers(3, 256, (h, w, 4)).astype(np.uint8)
    px[..., 3] = c.rng.integers(100, 160, (h, w))
    c.let(h=h, w=w)
    f = c.path("f.hdr")
    ref.write_hdr(f, px, [], bool(c.i % 2))
    col = io.hdr2carray(f)
    gray = io.hdr2array(f)
    rad = io.rgb2rad(np.moveaxis(col, 0, -1))
    c.close(gray, rad, "gray against rgb2rad", rtol=3e-3)
    c.close(io.hdr2array(f, vlambda=(.265, .67, .065)), rad, "vlambda read",
            rtol=1e-5)
    vl = np.array(c.pick(c.rng.random(3), c.rng.random(3), (0, 0, 0), (0, 0, 1.)))
    c.close(io.hdr2array(f, vlambda=vl), io.rgb2rad(np.moveaxis(col, 0, -1), vl),
            "vlambda read, other weights", rtol=1e-5)
    flat = px.transpose(1, 0, 2)[:, ::-1].reshape(-1, 4)
    c.close(io.rgbe2lum(flat).reshape(w, h), rad * 179, "rgbe2lum of the file pixels",
            rtol=1e-4)
    c.event("pixels_compared", gray.size)
