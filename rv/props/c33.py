"""C33 glare sensation score: stages, independence of history, parallel computation"""
import contextlib
import io as stdio
import os
import shutil
import warnings

import numpy as np
from scipy.ndimage import convolve, gaussian_filter

from raytools import imagetools, io
from raytools.evaluate import hvsgsm
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import workload

P = "C33"
LEVEL = "exploration"
RULE = ("random fisheye images; each stage of the model is compared with an independent "
        "transcription of the published equations, whole scores with the chain of the "
        "stages; recorded histories of images on one object are compared with fresh "
        "objects, pools with loops, saved responses with the response arrays")
ASSUMPTIONS = ["180 degree images with some light; the geometry of the point spread "
               "kernel (pixel rays and solid angles) is judged by C17 and C19"]
POLY = [33.12797281708, 2.28728777265947, -104.614198351476, -275.450102180091,
        1587.82553529394, -2570.6813747583033, 1837.1741161137818, -499.849190278]


def write(c, name, res, view=None, dark=False):
    lum = 10.0 ** c.rng.uniform(-1, 1, (res, res)) * 10.0 ** c.rng.uniform(-1, 1)
    for _ in range(int(c.rng.integers(0, 4))):
        k = c.rng.integers(1, res - 1, 2)
        lum[k[0], k[1]] *= 10.0 ** c.rng.uniform(1, 5)
    if c.rng.random() < .15:
        # the disk of the sun
        k = c.rng.integers(res // 3, res - res // 3, 2)
        lum[k[0], k[1]] = 10 ** c.rng.uniform(5.5, 7.2)
    rgb = np.stack((lum, lum * .9, lum * 1.2))
    lines = ["rpict"]
    if view is not None:
        lines.append("VIEW= -vta -vh 180 -vv 180 -vd %.8f %.8f %.8f" % tuple(view))
    f = c.path(name)
    ref.write_hdr(f, ref.rgbe_encode(np.transpose(rgb[:, :, ::-1], (2, 1, 0))), lines)
    return f


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stderr(stdio.StringIO()):
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return f()


# ---------------------------------------------------------------- reference
def r_pupil(ev, age):
    d = 5 - 3 * np.tanh(.4 * np.log10(ev / 1600)) - .043 * (age - 10) * np.exp(-ev / 174)
    return np.pi * d * d / 4, d


def r_coef(age, p, pig):
    """Ijspeert et al. 1993"""
    d = 3.2
    af = 1 + (age / 70) ** 4
    pf = 1 / pig - 1
    csa, cla = 1 / (1 + af / pf), 1 / (1 + pf / af)
    b = 9000 - 936 * af ** .5
    e = af ** .5 / 2000
    q, s = 1 + (p / d) ** 2, 1 + (d / p) ** 2
    c3 = cla / ((1 + 25 * pig) * (1 + 1 / af))
    return ([q / (b * p), s * (e - 1 / (b * p)), 1 / (10 + 60 * pig - 5 / af), 1.],
            [csa / q, csa / s, c3, cla - c3])


def r_psf(bs, cs, phi):
    return sum(c * b / (2 * np.pi * (np.sin(phi) ** 2 + b * b * np.cos(phi) ** 2) ** 1.5)
               for b, c in zip(bs, cs))


def r_lsf(bs, cs, phi):
    return sum(c * b / (np.pi * (np.sin(phi) ** 2 + b * b * np.cos(phi) ** 2))
               for b, c in zip(bs, cs))


class Model:
    contrast, norm, fr_a, fr_b, fr_k, emin, emax = .8, 4, 22, .25, .67, .009, .12

    def __init__(self, lum, age=40, f=16.67, scale=179, pig=.106, fwidth=10, **consts):
        self.__dict__.update(consts)
        self.lum = lum * scale
        self.res = res = lum.shape[0]
        self.age, self.f, self.pig, self.fwidth = age, f, pig, fwidth
        vm = ViewMapper(viewangle=180)
        self.xy = ref.pixel_grid(res)
        v = ref.fisheye_rays((0, 1, 0), 180, self.xy)
        self.mask = np.hypot(self.xy[..., 0], self.xy[..., 1]) < 1
        self.om = np.where(self.mask, vm.pixel2omega(vm.pixels(res), res), 0)
        self.ct = np.maximum(0, v[..., 1])
        self.pp = res / 180 / 60
        x, y = self.xy[..., 0] / 1.05556, self.xy[..., 1]
        y = np.where(y >= 0, y / .61111, y / .94444)
        self.sig = np.minimum(1, np.hypot(x, y)) * (self.emax - self.emin) + self.emin

    def kernels(self, p):
        """kernel candidates (the brightest pixel of an even window is a tie), and the
        share of the light in the window"""
        bs, cs = r_coef(self.age, p, self.pig)
        n = int(self.fwidth / .002 / 2) * 2 + 1
        t = np.radians(np.linspace(-self.fwidth / 2, self.fwidth / 2, n))
        cap = np.sum(r_lsf(bs, cs, t)) * (t[1] - t[0])
        w = self.fwidth * 60 * self.pp
        vm = ViewMapper(viewangle=self.fwidth)
        out = []
        # (rounding decides about windows that are a whole number of pixels wide)
        for w in {int(np.ceil(w * (1 - 1e-9))), int(np.ceil(w * (1 + 1e-9)))}:
            img, vecs, mask, _, _ = vm.init_img(w)
            phi = vm.radians(vecs[mask])
            img[mask] = r_psf(bs, cs, phi)
            img *= vm.pixel2omega(vm.pixels(w), w)
            for k in np.argwhere(img >= img.max() * (1 - 1e-6)):
                q = img.copy()
                q[tuple(k)] = 0
                q[tuple(k)] = cap - q.sum()
                out.append(q)
        return out, cap

    def psf(self, er, p):
        ks, cap = self.kernels(p)
        base = np.sum((er * self.om)[self.mask]) * (1 - cap) / np.sum(self.om)
        return [convolve(er, k) + base for k in ks]

    def move1(self, er):
        b, d = 3 * 2 ** -.5 / .501 * self.pp, 2 ** -.5 / .05 * self.pp
        return (.62 * gaussian_filter(er, 4.2341723424 * self.pp) +
                .38 * gaussian_filter(er, d, truncate=30 * self.pp / d))

    def move2(self, er, eg):
        t = .1 / (eg * self.f ** 2) ** .12
        for q in (30, 250):
            er = gaussian_filter(er, 2 * np.sqrt(q * t) * self.pp)
        return er

    def local(self, er, eg):
        p = self.contrast
        return np.where(er > 0, np.abs(er) ** p, 1) * eg ** (1 - p)

    @staticmethod
    def cone(er, ea):
        s = (5.701055 ** (1 / 2.55) + ea ** (1 / 2.55)) ** 2.55
        return er ** .74 / (er ** .74 + s ** .74)

    def field(self, v):
        steps = np.exp(np.linspace(np.log(self.emin), np.log(self.emax), 31))
        mid = (steps[1:] + steps[:-1]) / 2
        k = np.digitize(self.sig, mid)
        out = np.zeros(v.shape)
        for i, s in enumerate(steps):
            if np.any(k == i):
                r = gaussian_filter(v, s * self.pp * 60) - \
                    self.fr_k * gaussian_filter(v, s * self.pp * 60 * 3.5)
                out[k == i] = r[k == i]
        return out

    def response(self, r):
        a = 1 / (1 + np.exp(-self.fr_a * (r - self.fr_b)))
        b = 1 / (1 + np.exp(self.fr_a * (r + self.fr_b)))
        return np.stack((np.where(self.mask, a, 0), np.where(self.mask, b, 0)))

    def score(self, rg, raw=False):
        s = np.sum(rg ** self.norm * self.om) ** (1 / self.norm)
        if raw:
            return s
        w = self.lum ** 4 * self.om
        e = (np.sum(self.sig * w) / np.sum(w) - .009) / (.12 - .009)
        return s * sum(q * e ** i for i, q in enumerate(POLY))


# ---------------------------------------------------------------- workloads
def settings(c):
    kw = {}
    if c.rng.random() < .4:
        kw["age"] = float(c.pick(10, 20, 60, 75, 80, 95))
    if c.rng.random() < .3:
        kw["pigmentation"] = float(c.pick(.16, .056, .04, .25))
    if c.rng.random() < .2:
        kw["f"] = 17.5
    if c.rng.random() < .2:
        kw["scale"] = 100
    if c.rng.random() < .2:
        kw["fwidth"] = c.pick(20, 60, 90)
    return kw


@workload(P, quick=60, thorough=800, timeout=240)
def stages(c):
    res = int(c.pick(12, 18, 36, 54, 54, 90, 13, 27, 45))
    view = gen.unit(gen.direction(c.rng)) if c.rng.random() < .5 else None
    f = write(c, "a.hdr", res, view)
    kw = settings(c)
    flags = c.cycle([(True, True, True), (False, False, False), (True, False, True),
                     (False, True, False), (True, True, True)])
    raw = c.rng.random() < .3
    ev = float(10.0 ** c.rng.uniform(-1, 6.5)) if c.rng.random() < .4 else None
    c.let(res=res, view=view, kw=kw, flags=flags, raw=raw, ev=ev)
    # the constants of the model can be calibrated
    consts = {}
    if c.rng.random() < .4:
        for k, v in dict(contrast=(.9, .5), norm=(2, 3.5, 8), fr_a=(10, 30), fr_b=(.1, .4),
                         fr_k=(.5, .9), emin=(.02, .005), emax=(.2, .1)).items():
            if c.rng.random() < .4:
                consts[k] = c.pick(*v)
    c.let(consts=consts)
    cls = type("Calibrated", (hvsgsm.GSS,), consts)
    g = cls(f, psf=flags[0], adaptmove=flags[1], directmove=flags[2], raw=raw, **kw)
    if "contrast" not in consts and c.rng.random() < .3:
        # or those of one object
        g.contrast = consts["contrast"] = float(c.pick(.9, .5))
    if "norm" not in consts and c.rng.random() < .3:
        g.norm = consts["norm"] = c.pick(2, 3)
    m = Model(io.hdr2array(f), kw.get("age", 40), kw.get("f", 16.67),
              kw.get("scale", 179), kw.get("pigmentation", .106), kw.get("fwidth", 10),
              **consts)
    c.close(g.lum, m.lum, "luminance", rtol=1e-6)
    c.close(np.reshape(g.omega, (res, res)), m.om, "solid angles", rtol=1e-6)
    c.close(g.ctheta, m.ct, "cosines", rtol=0, atol=1e-7)
    c.close(g.sigma_c, m.sig, "eccentricity", rtol=1e-6)
    e = float(np.sum((m.ct * m.lum * m.om)[m.mask])) if ev is None else ev
    eg, pa, pd = g.adapt(ev)
    wa, wd = r_pupil(e, m.age)
    c.close([pa, pd], [wa, wd], "pupil", rtol=1e-6)
    c.close(eg, wa / m.f ** 2 * e / np.pi, "global retinal irradiance", rtol=1e-6)
    bs, cs = g.psf_coef(pd)
    rb, rc = r_coef(m.age, pd, m.pig)
    c.close(bs, rb, "psf b", rtol=1e-9)
    c.close(cs, rc, "psf c", rtol=1e-9)
    c.close(np.sum(cs), 1, "the point spread function sums to one", rtol=1e-9)
    rg, st = g.glare_response(g.lum, eg, pa, pd, return_arrays=True)
    c.same(rg, g.glare_response(g.lum, eg, pa, pd), "asked twice")
    er = wa / m.f ** 2 * m.lum
    c.close(st["01_retinal_irrad"], er, "retinal irradiance", rtol=1e-6)
    er = st["01_retinal_irrad"]
    ep = er
    if flags[0]:
        ep = st["02_psf"]
        err = [np.max(np.abs(ep - q) / (np.abs(q) + 1e-9 * np.abs(q).max()))
               for q in m.psf(er, pd)]
        c.check(min(err) < 1e-5, f"point spread, off by {min(err)}")
    if flags[1]:
        c.close(st["03_adapt_eye_movement"], m.move1(ep), "eye movement (adaptation)",
                rtol=1e-6)
    if flags[2]:
        c.close(st["04_direct_eye_movement"], m.move2(ep, eg), "eye movement (direct)",
                rtol=1e-6)
    c.same(sorted(st), ["01_retinal_irrad"] + ["02_psf"] * flags[0] +
           ["03_adapt_eye_movement"] * flags[1] + ["04_direct_eye_movement"] * flags[2] +
           ["05_local_adaptation", "06_response_ratio", "07_response_lin",
            "08_response_log"], "stages")
    rgm = st.get("03_adapt_eye_movement", ep)
    rcm = st.get("04_direct_eye_movement", ep)
    c.close(st["05_local_adaptation"], m.local(rgm, eg), "local adaptation", rtol=1e-6)
    c.close(st["06_response_ratio"], m.cone(rcm, st["05_local_adaptation"]),
            "cone response", rtol=1e-6)
    c.check(np.nanmin(st["06_response_ratio"]) >= 0 and
            np.nanmax(st["06_response_ratio"]) <= 1, "response of 0 to 1")
    c.close(st["07_response_lin"], m.field(st["06_response_ratio"]), "field response",
            rtol=1e-6, atol=1e-12)
    want = m.response(st["07_response_lin"])
    c.close(rg, want, "ganglion response", rtol=1e-6, atol=1e-12)
    c.close(st["08_response_log"][:2], want, "stored response", rtol=1e-6, atol=1e-12)
    some = 10.0 ** c.rng.uniform(-12, 8, (3, 7))
    some[c.rng.random((3, 7)) < .2] = 0
    c.close(g.local_eye_adaptation(some, eg), m.local(some, eg), "local adaptation to "
            "other values", rtol=1e-6)
    ea = 10.0 ** c.rng.uniform(-6, 6, (3, 7))
    c.close(g.cone_response(some, ea), m.cone(some, ea), "cone response to other values",
            rtol=1e-6)
    s = g.compute(ev_eye=ev)
    c.close(s, m.score(rg, raw), "score", rtol=1e-6)
    c.close(g.gss(rg), s, "score of the response", rtol=1e-12)
    c.event("stages", len(st))


@workload(P, quick=30, thorough=300, timeout=240)
def histories(c):
    """images of changing size on one object; results of fresh objects"""
    kw = settings(c)
    if c.rng.random() < .5:
        kw.update(psf=False)
    n = int(c.pick(3, 5))
    fs = [write(c, f"i{j}.hdr", int(c.pick(12, 18, 30, 30))) for j in range(n)]
    for j in range(2):
        # the same pixels in other places: equal size, peak and sum
        lines, px = ref.read_hdr(fs[j])
        fs.append(c.path(f"v{j}.hdr"))
        k = int(c.rng.integers(3))
        ref.write_hdr(fs[-1], px[::-1] if k == 0 else (px[:, ::-1] if k == 1 else
                      np.transpose(px, (1, 0, 2))), ["x"])
    for j in range(2):
        # nearly the same image: the pupil differs by less than a hundredth of a mm
        lines, px = ref.read_hdr(fs[j])
        fs.append(c.path(f"e{j}.hdr"))
        ref.write_hdr(fs[-1], px, [f"EXPOSURE={c.pick(1.0004, .999, 1.003)}"])
    cur = c.path("current.hdr")
    start = c.pick("first", "none", "mapper")
    vm = ViewMapper(gen.unit(gen.direction(c.rng)), 180)
    g = hvsgsm.GSS({"first": fs[0], "none": None, "mapper": vm}[start], **kw)
    c.let(start=start, n=n, kw=kw)
    if start != "first":
        c.raises(ValueError, g.compute, "no image yet")
        c.raises(ValueError, g.adapt, "no image yet")
        c.raises(ValueError, lambda: g.glare_response(None, 1, 1, 1), "no image yet")
    log, now = [], kw
    for _ in range(n + 3):
        f = fs[int(c.rng.integers(len(fs)))]
        if c.rng.random() < .4:
            # one file name, new content
            shutil.copyfile(f, cur)
            g.lum = cur
        else:
            g.lum = f
        ev = float(c.pick(500., 20000.)) if c.rng.random() < .3 else None
        if c.rng.random() < .3:
            g.adapt()
        if c.rng.random() < .3:
            # another parameter on the same object
            k, v = [("age", 20.), ("age", 75.), ("pigmentation", .3), ("fwidth", 8.),
                    ("fwidth", 5.)][int(c.rng.integers(5))]
            if not (k == "fwidth" and "fwidth" in kw):
                now = dict(now, **{k: v})
                setattr(g, k, v)
        log.append((f, ev, g.compute(ev_eye=ev), g.lum.copy(), g.res, float(g.ecc), now))
        if c.rng.random() < .3:
            log.append((f, ev, g.compute(ev_eye=ev), g.lum.copy(), g.res, float(g.ecc), now))
    for k, v in (("age", 50.), ("fwidth", 12.), ("age", 70.)):
        # the same image again
        now = dict(now, **{k: v})
        setattr(g, k, v)
        log.append((f, ev, g.compute(ev_eye=ev), g.lum.copy(), g.res, float(g.ecc), now))
    for f, ev, s, lum, res, ecc, at in log:
        h = hvsgsm.GSS(f, **at)
        w = h.compute(ev_eye=ev)
        # (the same operations on the same numbers)
        c.close(s, w, f"score of {os.path.basename(f)}", rtol=1e-9)
        c.same(lum, h.lum, "luminance")
        c.same(res, h.res, "resolution")
        c.close(ecc, float(h.ecc), "eccentricity", rtol=1e-7)
    c.event("requests", len(log))


@workload(P, quick=30, thorough=250, timeout=240)
def parallel(c):
    """many images: order, saved responses, illuminances"""
    n = int(c.pick(1, 2, 4, 6))
    res = 18
    os.makedirs(c.path("im"))
    name = c.pick("im/i%d.b.hdr", "im/a.hdr.%d.hdr", "im/x%d.pic", "im/%d.hdr.old", "im/n%d.HDR")
    fs = [write(c, name % j, res) for j in range(n)]
    fs = [fs[int(j)] for j in c.rng.permutation(n)]
    kw = settings(c)
    ev = [float(q) for q in 10.0 ** c.rng.uniform(-1, 6.5, n)] if c.rng.random() < .4 else \
        None
    save = c.rng.random() < .6
    outdir = c.path("out") if c.rng.random() < .5 else None
    suffix = c.pick("_rg.hdr", "_rg.hdr", "-x.hdr")
    call = dict(kw)
    if ev is not None:
        call["illums"] = ev
    if save:
        call["save"] = True
    if outdir:
        call["outdir"] = outdir
    if suffix != "_rg.hdr":
        call["suffix"] = suffix
    c.let(n=n, kw=kw, illums=ev is not None, save=save, outdir=bool(outdir),
          suffix=suffix)
    raw = [open(f, "rb").read() for f in fs]
    got = quiet(lambda: hvsgsm.gss_compute(fs, **call))
    c.check(len(got) == n, "one score per image")
    left = set(os.listdir(c.path("im"))) - {os.path.basename(f) for f in fs}
    names = [f.rsplit(".", 1)[0] + suffix for f in fs]
    if outdir:
        names = [os.path.join(outdir, os.path.basename(q)) for q in names]
    if not save:
        c.check(not left and not os.path.exists(c.path("out")), "files were written")
    else:
        there = os.listdir(outdir) if outdir else left
        c.same(sorted(there), sorted(os.path.basename(q) for q in names), "saved files")
        if outdir:
            c.check(not left, "files next to the images")
    for j, f in enumerate(fs):
        c.same(open(f, "rb").read(), raw[j], "image file")
        g = hvsgsm.GSS(f, **kw)
        e = ev[j] if ev else None
        c.close(got[j], g.compute(ev_eye=e), "score", rtol=1e-9)
        if save:
            a = g.glare_response(g.lum, *g.adapt(e))
            px = ref.hdr_values(names[j])
            c.close(px[:2], a, "saved response", rtol=0,
                    atol=.005 * max(a.max(), 1e-6) + 1e-9)
            c.check(np.all(px[2] <= .005 * np.max(px[:2], 0) + 1e-12), "third channel")
    c.event("images", n)


@workload(P, quick=25, thorough=250, timeout=240)
def symmetric(c):
    """the score does not depend on where the view looks; mirrored pictures have the
    same score (without the pixelated point spread function)"""
    res = int(c.pick(18, 30, 54))
    f = write(c, "a.hdr", res)
    d = gen.unit(gen.direction(c.rng, c.i))
    blur = c.rng.random() < .5
    a = hvsgsm.GSS(None, psf=blur)
    b = hvsgsm.GSS(ViewMapper(d, 180), psf=blur)
    c.let(res=res, vd=d, psf=blur)
    a.lum = f
    b.lum = f
    c.close(b.compute(), a.compute(), "direction of the view", rtol=1e-5)
    lines, px = ref.read_hdr(f)
    m = c.path("m.hdr")
    ref.write_hdr(m, px[:, ::-1], ["x"])
    x = hvsgsm.GSS(m, psf=False).compute()
    y = hvsgsm.GSS(f, psf=False).compute()
    c.close(x, y, "mirrored picture", rtol=1e-5)
    vf = c.path("v.vf")
    with open(vf, "w") as o:
        o.write("rvu -vta -vp 0 0 0 -vd %.8f %.8f %.8f -vh 180 -vv 180\n" % tuple(d))
    g = hvsgsm.GSS(vf, psf=blur)
    c.close(g.vm.dxyz, d, "view file", rtol=0, atol=1e-7)
    g.lum = f
    c.close(g.compute(), b.compute(), "view file", rtol=1e-6)
    c.event("pairs")


@workload(P, quick=25, thorough=250, timeout=240)
def direct(c):
    """one image at a time: the worker of the pool, the saved response, the view setter"""
    res = int(c.pick(12, 18))
    d = gen.unit(gen.direction(c.rng, c.i))
    os.makedirs(c.path("im"))
    f = write(c, "im/a.b.hdr", res, d if c.rng.random() < .5 else None)
    g = hvsgsm.GSS(None, psf=False)
    c.check(g.age == 40 and g.f == 16.67 and
            g.scale == 179 and g.pigmentation == .106 and g.fwidth == 10, "defaults")
    view = c.cycle(["none", "mapper", "image", "plain", "nowhere"])
    ev = c.pick(None, 3000.)
    c.let(res=res, view=view, ev=ev)
    want = [0, 1, 0]
    if view == "none":
        g.vm = None
    elif view == "mapper":
        want = d
        g.vm = ViewMapper(d, 180)
    elif view in ("image", "plain"):
        if view == "image":
            want = d
        g.vm = write(c, "view.hdr", 9, d if view == "image" else None)
    else:
        n = c.path("planar.hdr")
        ref.write_hdr(n, np.zeros((4, 4, 4), np.uint8) + 128,
                      ["rpict", "VIEW= -vtv -vp 0 0 0 -vd 0 1 0 -vh 45 -vv 45"])
        g.vm = n
    c.close(g.vm.dxyz, want, "view direction", rtol=0, atol=1e-6)
    c.close(g.vm.viewangle, 180, "view angle")
    fresh = hvsgsm.GSS(None, psf=False)
    fresh.lum = f
    score = fresh.compute(ev_eye=ev)
    got = quiet(lambda: hvsgsm.process_gss(f, ev, g))
    c.close(got, score, "score", rtol=1e-5)
    c.same(os.listdir(c.path("im")), ["a.b.hdr"], "files")
    arr = fresh.glare_response(fresh.lum, *fresh.adapt(ev))
    out = c.pick(None, c.tmp)
    kw = {} if out is None else {"outdir": out}
    if c.rng.random() < .5:
        kw["suffix"] = "+r.hdr"
    got = quiet(lambda: hvsgsm.process_gss(f, ev, g, outf=True, **kw))
    c.close(got, score, "score with an image", rtol=1e-5)
    name = "a.b" + kw.get("suffix", "_rg.hdr")
    saved = [os.path.join(out or c.path("im"), name), c.path("direct.hdr")]
    g.compute(save=saved[1], ev_eye=ev)
    for s in saved:
        c.check(os.path.exists(s), f"no {s}")
        px = ref.hdr_values(s)
        c.close(px[:2], arr, "saved response", rtol=0,
                atol=.005 * max(arr.max(), 1e-6) + 1e-9)
        c.check(np.all(px[2] <= .005 * np.max(px[:2], 0) + 1e-12), "third channel")
    c.event("saved", 2)


@workload(P, quick=24, thorough=240, timeout=240)
def movement(c):
    """eye movements at resolutions at which they are larger than a pixel (a pixel of
    1 to 8 arc minutes)"""
    if c.i % 8 == 7:
        va, res = 180., int(c.pick(1200, 1700))
    else:
        # (sizes where no kernel ends on the border between two pixels)
        va, res = float(c.pick(5.1, 12.2, 20.3)), int(c.pick(60, 100, 150))
    d = gen.unit(gen.direction(c.rng))
    lum = 10.0 ** c.rng.uniform(-1, 1, (res, res))
    k = c.rng.integers(0, res, (5, 2))
    lum[k[:, 0], k[:, 1]] *= 1e4
    f = c.path("a.hdr")
    io.array2hdr(lum, f)
    # (a window of up to 30 pixels)
    fw = 10 if va > 100 else round(float(c.rng.uniform(12, 30)) * va / res, 1)
    g = hvsgsm.GSS(ViewMapper(d, va), psf=False, f=float(c.pick(16.67, 17.5)), fwidth=fw)
    g.lum = f
    pp = res / va / 60
    m = Model.__new__(Model)
    m.pp, m.f = pp, g.f
    m.age, m.pig, m.fwidth = 40, .106, fw
    er = g.lum * 1e-3
    keep = er.copy()
    eg = float(10.0 ** c.rng.uniform(-4, 2))
    c.let(va=va, res=res, eg=eg, f=g.f)
    c.close(g.apply_eye_movement_1(er), m.move1(er), "eye movement (adaptation)",
            rtol=1e-6)
    c.close(g.apply_eye_movement_2(er, eg), m.move2(er, eg), "eye movement (direct)",
            rtol=1e-6)
    c.same(er, keep, "input")
    if va < 100:
        # the other stages, where their kernels are larger than a pixel
        xy = ref.pixel_grid(res)
        x, y = xy[..., 0] / 1.05556, xy[..., 1]
        y = np.where(y >= 0, y / .61111, y / .94444)
        m.sig = np.minimum(1, np.hypot(x, y)) * (.12 - .009) + .009
        c.close(g.sigma_c, m.sig, "eccentricity", rtol=1e-6)
        v = c.rng.random((res, res))
        c.close(g.field_response(v), m.field(v), "field response", rtol=1e-6, atol=1e-9)
        m.mask = np.hypot(xy[..., 0], xy[..., 1]) < 1
        m.om = np.where(m.mask, np.reshape(g.omega, (res, res)), 0)
        pd = float(c.rng.uniform(2, 8))
        ep = g.apply_psf(er, pd)
        err = [np.max(np.abs(ep - q) / (np.abs(q) + 1e-9 * np.abs(q).max()))
               for q in m.psf(er, pd)]
        c.check(min(err) < 1e-5, f"point spread, off by {min(err)}")
        c.same(er, keep, "input")
    # movement moves light, it does not make any
    c.close(np.sum(g.apply_eye_movement_1(np.pad(np.ones((9, 9)), 200))), 81,
            "light moved", rtol=1e-6)
    c.event("pixels", res * res)


@workload(P, quick=24, thorough=200, timeout=240)
def views(c):
    """the view of an object is changed between images: scores of fresh objects"""
    kw = settings(c)
    kw["psf"] = c.rng.random() < .3
    vas = [180, float(c.pick(60, 90)), float(c.pick(120, 179, 180))]
    res = int(c.pick(14, 20))
    fs = [write(c, f"i{j}.hdr", res if c.rng.random() < .8 else 17) for j in range(3)]
    vms = [ViewMapper(gen.unit(gen.direction(c.rng)), va) for va in vas]
    g = hvsgsm.GSS(vms[int(c.rng.integers(3))], **kw)
    log = []
    c.let(views=vas, res=res, kw=kw)
    for _ in range(6):
        j = int(c.rng.integers(3))
        f = fs[int(c.rng.integers(3))]
        if c.rng.random() < .7 or not log:
            vm = vms[j]
            if c.rng.random() < .3:
                # an equal view
                vm = ViewMapper(vm.dxyz, vas[j])
            g.vm = vm
        g.lum = f
        log.append((f, g.vm, g.compute(), float(g.ecc), np.array(g.mask), g.omega.copy()))
    for f, vm, s, ecc, mask, oga in log:
        h = hvsgsm.GSS(vm, **kw)
        h.lum = f
        c.close(s, h.compute(), "score of the view", rtol=1e-9, viewangle=vm.viewangle)
        c.close(ecc, float(h.ecc), "eccentricity", rtol=1e-9)
        c.same(mask, np.array(h.mask), "pixels in view")
        c.close(oga, h.omega, "solid angles", rtol=1e-9)
    c.event("views", len(log))
