"""C21 the view in an image header is read back as it was written"""
import numpy as np

from raytools import imagetools, io
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C21"
LEVEL = "exploration"
RULE = ("random views, view points, option orders, number formats, image shapes and "
        "competing header lines; the parsed view is compared with the generated one "
        "and with the mapper that wrote the header")
ASSUMPTIONS = ["-vta views with equal -vh and -vv per image half"]


def image(c, path, lines, w, h, writer):
    if writer == "ref":
        px = np.full((h, w, 4), 128, np.uint8)
        ref.write_hdr(path, px, lines)
    else:
        io.array2hdr(np.ones((w, h)), path, header=list(lines))


@workload(P, quick=150, thorough=1500)
def written(c):
    d = gen.direction(c.rng, c.i if c.i % 2 else None)
    va = c.pick(180, 360, 180.0, 360, float(np.round(c.rng.uniform(3, 179), 3)))
    res = int(c.pick(1, 2, 7, 12))
    pt = tuple(float(q) for q in c.rng.normal(size=3) * 10.0 ** c.rng.uniform(-3, 3)) \
        if c.rng.random() < .6 else None
    name = c.pick("a.hdr", "a b.hdr", "it's.hdr", 'q".hdr', "b X.hdr", "-Y 3 +X.hdr",
                  "a +X 3 -Y 4.hdr", "cannot open.hdr", "x: cannot open.hdr", "a:b X 2")
    writer = c.pick("ref", "io", "io")
    before = [c.pick("rpict x", "foo= bar", "oconv: cannot open -Y 3 +X 5", "\tVIEW= -vta -vh 90 -vv 90 -vd 1 0 0",
                     "VIEW= -vta -vh 90 -vv 90 -vd 1 0 0")] if c.rng.random() < .5 else []
    c.let(d=d, viewangle=va, res=res, pt=pt, name=name, before=before, writer=writer)
    vm = ViewMapper(d, va)
    f = c.path(name)
    head = vm.header() if pt is None else vm.header(pt)
    hp = head.split()
    vu, hd = (np.array([float(q) for q in hp[hp.index(k) + 1:hp.index(k) + 4]])
              for k in ("-vu", "-vd"))
    # (else it is no view for other programs)
    c.check(np.linalg.norm(np.cross(vu, hd)) > 1e-6, f"view up along the view: {head}")
    image(c, f, before + [head, "after=1"], res * vm.aspect, res, writer)
    with open(f, "rb") as s:
        raw = s.read()
    ask = c.rng.random() < .6
    got = imagetools.hdr2vm(f, vpt=True) if ask else (imagetools.hdr2vm(f), None)
    g, p = got
    c.check(isinstance(g, ViewMapper), f"{g!r} is no view")
    # the solid angle the mapper covers
    c.check(abs(g.viewangle - vm.viewangle) < 1e-6 and g.aspect == vm.aspect,
            f"view angle {g.viewangle}/{g.aspect}, written {vm.viewangle}/{vm.aspect}")
    c.close(g.dxyz, vm.dxyz, "view direction", rtol=0, atol=1e-9)
    if ask:
        c.close(p, pt or (0., 0., 0.), "view point", rtol=1e-9, atol=1e-12)
    c.close(g.pixelrays(5), vm.pixelrays(5), "pixel rays", rtol=0, atol=1e-6)
    c.close(g.area, vm.area, "area", rtol=1e-6)
    c.same(tuple(imagetools.img_size(f)), (res * vm.aspect, res), "image size")
    with open(f, "rb") as s:
        c.same(s.read(), raw, "file")
    c.event("headers")


@workload(P, quick=200, thorough=2000)
def foreign(c):
    """view lines as Radiance programs and users write them"""
    d = np.round(gen.unit(gen.direction(c.rng)), 5)
    if not np.any(d):
        d = np.array((0, 0, 1.))
    pt = np.round(c.rng.normal(size=3) * 10, 3)
    va = c.pick(180, 180, float(np.round(c.rng.uniform(3, 179), 2)))
    fmt = c.pick("{:g}", "{:.6f}", "{}", "{:.5e}")

    def num(v):
        return " ".join(fmt.format(float(q)) for q in v)

    have_d, have_p = c.rng.random() < .7, c.rng.random() < .6
    opts = ["-vh " + fmt.format(va), "-vv " + fmt.format(va)]
    if have_d:
        opts.append("-vd " + num(d))
    if have_p:
        opts.append("-vp " + num(pt))
    opts += [o for o in ("-vu 0 0 1", "-vs 0", "-vl 0", "-vo 0 -va 0")
             if c.rng.random() < .4]
    opts = [opts[k] for k in c.rng.permutation(len(opts))]
    key = c.cycle(["VIEW= -vta ", "rvu -vta ", "\tVIEW= -vta ", "none", "other",
                   "VIEW= -vta ", "both"])
    noise = [o for o in ("rpict -vta -vh 20 -vd 1 1 1 scene.oct",
                         "pfilt -1 -e 2", "GAMMA= 1", "VIEWX= 3", "x-vh 3",
                         "VIEW= -vtv -vh 30 -vv 20 -vd 0 0 1")
             if c.rng.random() < .3]
    other = "VIEW= -vta -vh 33 -vv 33 -vd 0.6 0 0.8 -vp 7 7 7"
    line = " ".join(opts)
    if key == "none":
        lines = noise
    elif key == "other":
        lines = noise + ["VIEW= -vtv " + line, "VIEW= -vtl " + line]
    elif key == "both":
        lines = ["rvu -vta -vh 33 -vv 33 -vd 0.6 0 0.8"] + noise + ["VIEW= -vta " + line]
    else:
        lines = noise + [key + line]
        if c.rng.random() < .4:
            # the last view counts
            lines = [other if "VIEW" in key else "rvu -vta -vh 33 -vv 33 -vd 0.6 0 0.8 "
                     "-vp 7 7 7"] + lines
    tail = [o for o in ("CAPDATE= 2020:01:01", "pcond -h") if c.rng.random() < .4]
    h = int(c.pick(1, 4, 6))
    w = h * 2 if va == 180 and c.rng.random() < .4 else h
    c.let(key=key, d=d, pt=pt, viewangle=va, fmt=fmt, w=w, h=h, noise=noise,
          have=(have_d, have_p), order=[o.split()[0] for o in opts])
    f = c.path("f.hdr")
    image(c, f, lines + tail, w, h, c.pick("ref", "ref", "io"))
    vm, p = imagetools.hdr2vm(f, vpt=True)
    only = imagetools.hdr2vm(f)
    if key in ("none", "other"):
        c.check(vm is None and p is None and only is None, "no fisheye view: None")
        c.event("no_view")
        return
    tol = dict(rtol=1e-5, atol=1e-5)
    want_va = va * w / h
    c.close(vm.viewangle * vm.aspect if want_va == 360 else vm.viewangle, want_va,
            "view angle", **tol)
    c.check(vm.aspect == (2 if want_va == 360 else 1), "aspect")
    c.close(vm.dxyz, ref.unit(d) if have_d else (0., 1., 0.), "view direction", **tol)
    c.close(p, pt if have_p else (0., 0., 0.), "view point", **tol)
    c.close(only.dxyz, vm.dxyz, "with and without the view point", atol=1e-12)
    c.same(tuple(imagetools.img_size(f)), (w, h), "image size")
    if c.rng.random() < .1:
        # long files
        big = int(c.pick(10000, 12345, 32000)), int(c.pick(1, 2))
        big = big[::int(c.pick(1, -1))]
        ref.write_hdr(f, np.full(big[::-1] + (4,), 128, np.uint8), [], False)
        c.same(tuple(imagetools.img_size(f)), big, "image size of a large image")
    # view file
    vf = c.path("v.vf")
    n = int(c.pick(1, 2))
    with open(vf, "w") as s:
        if n == 2:
            s.write("rvu -vta -vh 20 -vd 0 0 1\n")
        s.write("rvu -vta " + " ".join(o for o in opts if o[:3] != "-vd") + " -vd " +
                num(d) + "\n")
        if c.rng.random() < .4:
            s.write("rvu -vtv -vh 33 -vd 0 0 1\n")
    m = imagetools.vf_to_vm(vf)
    c.close(m.dxyz, ref.unit(d), "direction of the view file", **tol)
    c.close(m.viewangle, va, "angle of the view file", **tol)
    with open(vf, "w") as s:
        s.write("rvu -vtv -vh 33 -vd 0 0 1\n")
    c.raises(ValueError, lambda: imagetools.vf_to_vm(vf), "no fisheye in the view file")
    c.event("headers")
