"""C27 metrics of image files and the metric command, end to end"""
import os

import numpy as np
from click.testing import CliRunner

from raytools import cli, imagetools, io
from raytools.evaluate import hvsgsm
from rv import gen, ref
from rv.core import SkipCase, workload

P = "C27"
LEVEL = "exploration"
RULE = ("angular images of random views, headers and dynamic range are written by an "
        "independent encoder; the metrics of the real code (function, command, serial "
        "and parallel) are compared with rays, view and formulas of a reference model")
ASSUMPTIONS = ["square -vta images up to 180 degrees",
               "the source normalization itself is judged by C25, the glare sensation "
               "score by C33, the solid angles of pixels by C19"]
RAD = (0.265, 0.670, 0.065)
PLAIN = ["illum", "avglum", "ugp", "dgp", "loggcr", "gcr", "tasklum", "backlum",
         "dgp_t1", "dgp_t2", "log_gc", "ugr", "threshold", "pwsl2", "view_area",
         "backlum_true", "srcillum", "srcarea", "maxlum", "pwgcr", "logpwgcr",
         "pwavglum", "density", "avgraylum"]


def picture(c, name="im.hdr", res=None, va=None):
    res = int(c.pick(7, 16, 25, 40)) if res is None else res
    lines = ["rpict"]
    vd = (0., 1., 0.)
    if va is None:
        va = float(c.pick(180, 180, 180, 100))
    if va != 180 or c.rng.random() < .7:
        vd = tuple(float("%.6f" % q) for q in gen.unit(gen.direction(c.rng)))
        if c.rng.random() < .3:
            lines.append("VIEW= -vta -vd 0 0 1 -vh 33 -vv 33")
        lines.append("VIEW= -vta -vp 1 2 3 -vd %.6f %.6f %.6f -vh %g -vv %g" %
                     (*vd, va, va))
    lum = 10.0 ** c.rng.uniform(-.5, 1.2, (res, res))
    hot = c.rng.random((res, res)) < c.rng.choice((0, .02, .1))
    lum[hot] *= 10.0 ** c.rng.uniform(1, 4, int(hot.sum()))
    if c.rng.random() < .6:
        k = c.rng.integers(res // 4, res - res // 4, 2)
        lum[k[0], k[1]] = 10.0 ** c.rng.uniform(3, 7.5)
        if c.rng.random() < .5:
            lum[k[0] + 1, k[1]] = lum[k[0], k[1]] * c.rng.choice((.9, .2))
    if c.rng.random() < .2:
        lum *= c.pick(1e-3, 1e-2, .1)
    tint = c.rng.random((3, res, res)) * .8 + .4
    rgb = lum * tint
    rgbh = c.pick(None, None, None, (.3, .6, .1), (.7, .35, -.05), (.265, .67, .065), (.2651, .6695, .0652),
                  (.27, .67, .06), tuple(np.round(np.array(RAD) + c.rng.uniform(
                      -.03, .03, 3), 4)))
    if rgbh and .0008 < np.max(np.abs(np.subtract(rgbh, ref.RAD_LUM))) < .0013:
        rgbh = RAD
    if rgbh:
        lines.append("LuminanceRGB= %g %g %g" % rgbh)
    elif c.rng.random() < .3:
        # (not the weights of three channels)
        lines.append("LuminanceRGB=" + c.pick(" .2 .3 .1 .4", " .5", " .6 .4", ""))
    if c.rng.random() < .2:
        lines.append("EXPOSURE=%g" % c.rng.choice((.5, 3)))
    f = c.path(name)
    ref.write_hdr(f, ref.rgbe_encode(np.transpose(rgb[:, :, ::-1], (2, 1, 0))), lines)
    return f, vd, va, res, rgbh


def expected(f, vd, va, res, rgbh, metrics, lumrgb=None, peakn=False, scale=179,
             threshold=2000., lowlight=False, peak=None):
    color = "irradiance" in metrics
    w = lumrgb or rgbh
    if not lumrgb and w and not color and np.allclose(w, ref.RAD_LUM, atol=.001):
        w = None
    if color and w is None:
        w = RAD
    half = ref.chord_half(va)
    xy = ref.pixel_grid(res)
    v = ref.fisheye_rays(vd, half * 360 / np.pi, xy).reshape(-1, 3)
    vm = imagetools.ViewMapper(vd, va)
    o = vm.pixel2omega(vm.pixels(res).reshape(-1, 2), res)
    vals = ref.hdr_values(f).reshape(3, -1).T
    if color:
        l = vals
    elif w is not None:
        l = vals @ np.array(w)
    else:
        l = io.hdr2array(f).astype(float).ravel()
    if peakn:
        kw = dict(peak or {})
        if color:
            kw["vlambda"] = w
        v, o, l = imagetools.normalize_peak(v, o, l, scale, **kw)
    y = l @ np.array(w) if color else l
    keep, vec, om, area = ref.clip_view(vd, va, v, o, y, True)
    m = ref.metrics(vd, vec, om, y[keep], area, scale=scale, threshold=threshold,
                    lowlight=lowlight)
    if m["backlum"] < 1e-6 * m["illum"] and {"ugp", "ugr", "backlum"} & set(metrics):
        # the rounding of a difference of almost equal numbers
        raise ref.Ambiguous
    if color:
        ct = np.clip(vec @ ref.unit(vd), -1, 1)
        m["irradiance"] = list(np.einsum("i,ij,i->j", ct, l[keep], om) * scale)
    out = []
    for k in metrics:
        if isinstance(m[k], list):
            out += m[k]
        else:
            out.append(m[k])
    return np.array(out, float)


def options(c):
    ms = [str(q) for q in c.rng.permutation(PLAIN)[:int(c.rng.integers(1, 9))]]
    if c.rng.random() < .3:
        ms.insert(int(c.rng.integers(len(ms) + 1)), "irradiance")
    o = dict(peakn=c.rng.random() < .6)
    if c.rng.random() < .3:
        o["scale"] = float(c.pick(1., 100., 179.))
    if c.rng.random() < .5:
        o["threshold"] = float(c.pick(5., 7., 500., 101., 3000., .4, .02))
    if c.rng.random() < .4:
        o["lowlight"] = True
        if "dgp" not in ms:
            ms.insert(int(c.rng.integers(len(ms) + 1)), "dgp")
    if c.rng.random() < .25:
        o["lumrgb"] = c.pick((.3, .5, .2), (.2126, .7152, .0722))
    peak = {}
    if o["peakn"] and c.rng.random() < .5:
        peak = dict(peaka=float(c.pick(1e-4, 1e-2)), peakt=float(c.pick(5e4, 1e4)),
                    peakr=float(c.pick(2., 8.)))
        if c.rng.random() < .4:
            peak["blursun"] = True
    return ms, o, peak


@workload(P, quick=200, thorough=2500)
def function(c):
    f, vd, va, res, rgbh = picture(c)
    ms, o, peak = options(c)
    c.let(res=res, vd=vd, va=va, header=rgbh, metrics=ms, options=o, peak=peak)
    raw = open(f, "rb").read()
    try:
        with np.errstate(all="ignore"):
            want = expected(f, vd, va, res, rgbh, ms, peak=peak, **o)
    except ref.Ambiguous:
        raise SkipCase
    keep = list(ms)
    got = imagetools.imgmetric(f, ms, **o, **peak)
    c.same(ms, keep, "metric names")
    c.close(got, want, "metrics", rtol=1e-5, atol=1e-9)
    c.same(open(f, "rb").read(), raw, "the image file changed")
    c.event("values", len(want))


def text(c, args):
    r = CliRunner(**({"mix_stderr": False} if _MIX else {})).invoke(cli.main, args)
    c.check(r.exit_code == 0, f"exit {r.exit_code}: {r.output[-300:]} {r.exception!r}")
    return [ln.split("\t") for ln in r.stdout.splitlines() if "\t" in ln]


try:
    CliRunner(mix_stderr=False)
    _MIX = True
except TypeError:
    _MIX = False


def configured(c, pre, args):
    """some of the options in a configuration file"""
    cfg = {"raytools_metric": [], "raytools_align": ["rotate = 90"], "other": ["x = 1"]}
    rest, k = [args[0]], 1
    while k < len(args):
        two = k + 1 < len(args) and not args[k].startswith("--")
        name = args[k].lstrip("-")
        if name == "metrics" or c.rng.random() < .7:
            line = f"{name} = {args[k + 1]}" if two else \
                f"{name[3:]} = False" if name.startswith("no-") else f"{name} = True"
            cfg["raytools_metric"].append(line)
            if two and name == "threshold" and c.rng.random() < .5:
                # the command line comes first
                cfg["raytools_metric"][-1] = f"{name} = 77777"
                rest += args[k:k + 2]
        else:
            rest += args[k:k + 1 + two]
        k += 1 + two
    f = c.path("set tings.cfg")
    with open(f, "w") as o:
        for s, lines in cfg.items():
            o.write(f"[{s}]\n" + "".join(q + "\n" for q in lines) + "\n")
    c.let(configuration=open(f).read())
    c.event("configuration_files")
    return pre + [c.pick("-config", "-c"), f], rest


@workload(P, quick=60, thorough=500)
def command(c):
    """command line: several images, in order, serial or parallel"""
    n = int(c.pick(1, 2, 3, 5))
    res = int(c.pick(12, 20))
    ims = [picture(c, f"p{j}.hdr", res) for j in range(n)]
    ims = [ims[int(j)] for j in c.rng.permutation(n)]
    if c.rng.random() < .3:
        # one of them once more
        ims.append(ims[int(c.rng.integers(n))])
    ms, o, peak = options(c)
    args = ["metric", "-metrics", " ".join(ms)]
    if not o["peakn"]:
        args.append("--no-peakn")
    elif c.rng.random() < .5:
        args.append("--peakn")
    for k in ("scale", "threshold"):
        if k in o:
            args += ["-" + k, str(o[k])]
    for k in ("peaka", "peakt", "peakr"):
        if k in peak:
            args += ["-" + k, str(peak[k])]
    if "lowlight" in o:
        args.append("--lowlight")
    if "blursun" in peak:
        args.append("--blursun")
    if "lumrgb" in o:
        args += ["-lumrgb", " ".join(str(q) for q in o["lumrgb"])]
    serial = c.rng.random() < .3
    if serial:
        args.append("--no-parallel")
    pre = ["-n", str(c.pick(1, 2))] if c.rng.random() < .3 else []
    c.let(args=pre + args, n=n, res=res)
    if c.rng.random() < .3:
        pre, args = configured(c, pre, args)
    args.append(" ".join(q[0] for q in ims))
    try:
        with np.errstate(all="ignore"):
            want = [expected(*q, ms, peak=peak, **o) for q in ims]
    except ref.Ambiguous:
        raise SkipCase
    rows = text(c, pre + args)
    c.same(rows[0], ["image"] + ms, "first line")
    c.same([q[0] for q in rows[1:]], [q[0] for q in ims], "images, in order")
    for r, w in zip(rows[1:], want):
        c.close([float(q) for q in r[1:]], w, f"metrics of {os.path.basename(r[0])}",
                rtol=2e-5, atol=1e-9)
        # six digits, no more
        for q, k in zip(r[1:], w):
            c.check(len(q.lstrip("-0.").replace(".", "").split("e")[0]) <= 6,
                    f"six digits: {q}")
    c.event("rows", n)


@workload(P, quick=16, thorough=120, timeout=300)
def sensation(c):
    """glare sensation columns follow the other metrics"""
    n = int(c.pick(1, 2, 3))
    which = c.cycle([["gss"], ["gssnb"], ["gss", "gssnb"], ["gssnb", "gss"]])
    ms = c.pick([], ["illum"], ["illum", "dgp", "avglum"])
    # eye movements are seen where pixels are small
    narrow = c.rng.random() < .5
    res, va = (60, 8.) if narrow else (24, 180.)
    if narrow:
        ms = []
    ims = [picture(c, f"p{j}.hdr", res, va) for j in range(n)]
    fs = [q[0] for q in ims]
    both = list(which) + list(ms)
    both = [both[int(j)] for j in c.rng.permutation(len(both))]
    c.let(metrics=both, n=n, va=va)
    try:
        with np.errstate(all="ignore"):
            want = [expected(*q, ms, peakn=True) for q in ims] if ms else \
                [np.zeros(0)] * n
    except ref.Ambiguous:
        raise SkipCase
    rows = text(c, ["metric", "-metrics", " ".join(both), " ".join(fs)])
    plain = [q for q in both if q in ms]
    order = plain + [q for q in ("gss", "gssnb") if q in which]
    c.same(rows[0], ["image"] + order, "first line")
    idx = [ms.index(q) for q in plain]
    nb = dict(psf=False, adaptmove=False, directmove=False)
    gs = {"gss": hvsgsm.gss_compute(fs), "gssnb": hvsgsm.gss_compute(fs, **nb)}
    c.check(len(rows) == n + 1, "one line per image")
    for j, r in enumerate(rows[1:]):
        c.same(r[0], fs[j], "image")
        w = [want[j][k] for k in idx] + [gs[q][j] for q in order if q in gs]
        c.close([float(q) for q in r[1:]], w, "values", rtol=2e-5, atol=1e-9)
    c.event("rows", n)


@workload(P, quick=60, thorough=600)
def usual(c):
    """what happens without options: images whose rays lie on both sides of every
    default (glare threshold, sun threshold, ratio and area of the sun)"""
    res = int(c.pick(24, 31))
    f, vd, va, res, rgbh = picture(c, "u.hdr", res)
    lines, px = ref.read_hdr(f)
    vals = ref.hdr_values(f)
    top = 1e5 * float(c.pick(1.3, 4, 60)) / 179
    lum = c.rng.choice((300, 1850, 1950, 2060, 2190, 5e4, 9.3e4), vals.shape[1:],
                       p=(.6, .08, .08, .08, .08, .04, .04)) / 179
    rays = int(c.pick(0, 1, 2, 5))
    k = c.rng.integers(res // 3, 2 * res // 3, 2)
    for j in range(rays):
        lum[k[0] + j % 2, k[1] + j // 2] = top * (1, .97, .8, .28, .23)[j]
    tint = c.rng.random(vals.shape) * .5 + .75
    rgb = lum * tint / np.tensordot(rgbh or ref.RAD_LUM, tint, 1)
    lines = [q for q in lines if "EXPOSURE" not in q]
    ref.write_hdr(f, ref.rgbe_encode(np.transpose(rgb[:, :, ::-1], (2, 1, 0))), lines)
    how = c.cycle(["command", "function", "metrics", "options", "serial"])
    ms = ["illum", "dgp", "ugp"]
    kw = {}
    args = ["metric"]
    if how == "metrics":
        ms = ["threshold", "srcarea", "dgp"]
        args += ["-metrics", " ".join(ms)]
    elif how == "options":
        for q, w in (("peaka", (1e-3, 6.8e-5)), ("peakt", (9e4, 3e4)), ("peakr", (3., 5.)),
                     ("threshold", (1900., 2100.)), ("scale", (170., 190.))):
            if c.rng.random() < .5:
                kw[q] = c.pick(*w)
                args += ["-" + q, repr(kw[q])]
    elif how == "serial":
        args.append("--no-parallel")
    c.let(how=how, res=res, rays=rays, header=rgbh, kw=kw)
    flags = dict(peakn=how != "function")
    try:
        peak = {q: kw[q] for q in ("peaka", "peakt", "peakr") if q in kw}
        with np.errstate(all="ignore"):
            want = expected(f, vd, va, res, rgbh, ms, peak=peak, scale=kw.get("scale", 179),
                            threshold=kw.get("threshold", 2000.), **flags)
    except ref.Ambiguous:
        raise SkipCase
    if how == "function":
        got = imagetools.imgmetric(f, ms)
        c.close(got, want, "metrics", rtol=1e-5, atol=1e-9)
    else:
        rows = text(c, args + [f])
        c.same(rows[0], ["image"] + ms, "first line")
        c.check(len(rows) == 2 and rows[1][0] == f, "one line")
        c.close([float(q) for q in rows[1][1:]], want, "metrics", rtol=2e-5, atol=1e-9)
    c.event(how)


@workload(P, quick=12, thorough=80, timeout=300)
def response(c):
    """--gssimage keeps the response images next to the images, nothing does by default"""
    os.makedirs(c.path("i"))
    n = int(c.pick(1, 2))
    fs = [picture(c, f"i/p{j}.hdr", 16, 180.)[0] for j in range(n)]
    which = c.cycle(["gss", "gssnb"])
    save = c.pick(None, "--gssimage", "--no-gssimage", "--gssimage")
    args = ["metric", "-metrics", which] + ([save] if save else [])
    c.let(args=args, n=n)
    rows = text(c, args + [" ".join(fs)])
    c.same(rows[0], ["image", which], "first line")
    kw = {} if which == "gss" else dict(psf=False, adaptmove=False, directmove=False)
    names = [os.path.basename(f) for f in fs]
    if save == "--gssimage":
        names += [q[:-4] + "_rg.hdr" for q in names]
    c.same(sorted(os.listdir(c.path("i"))), sorted(names), "files")
    for f, r in zip(fs, rows[1:]):
        g = hvsgsm.GSS(f, **kw)
        c.close(float(r[1]), g.compute(), "score", rtol=2e-5)
        if save == "--gssimage":
            a = g.glare_response(g.lum, *g.adapt())
            q = ref.hdr_values(f[:-4] + "_rg.hdr")
            c.close(q[:2], a, "saved response", rtol=0,
                    atol=.005 * max(a.max(), 1e-6) + 1e-9)
    c.event("rows", n)
