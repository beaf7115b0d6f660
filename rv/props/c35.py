"""C35 calls have no side effects: inputs, settings, files and earlier results are
left alone and a repeated call gives the same result"""
import copy
import gc
import hashlib
import logging
import multiprocessing
import os
import signal
import subprocess
import sys
import threading
import time
import warnings

import numpy as np

from raytools import imagetools, io, translate
from raytools.evaluate import (BaseMetricSet, ColorMetricSet, MetricSet,
                               PositionIndex, retina)
from raytools.evaluate.hvsgsm import GSS, gss_compute
from raytools.mapper import Mapper, SolidViewMapper, ViewMapper
from raytools.utility import pool_call
from rv import core, gen, ref
from rv.core import workload

P = "C35"
LEVEL = "exploration"
RULE = ("random histories of calls over the public functions of every module; a monitor "
        "photographs arguments (with the memory around array views), earlier results, "
        "floating point and warning settings, random state, environment, directories, "
        "files, descriptors, threads and children around each call, and repeats calls "
        "later in the history; distinct orders are counted")
ASSUMPTIONS = ["the worker cap setters and pool_call's own pools are judged by C07/C08",
               "functions with random jitter (idx2uv, pixels with jitter) are judged for "
               "side effects only"]


def photo(o, depth=0):
    """value of an argument, independent of identity"""
    if isinstance(o, np.ndarray):
        b = o if o.base is None or not isinstance(o.base, np.ndarray) else o.base
        return ("a", o.shape, str(o.dtype), o.tobytes(),
                b.tobytes() if b is not o else None)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(photo(q, depth + 1) for q in o)
    if isinstance(o, dict):
        return ("d",) + tuple((k, photo(v, depth + 1)) for k, v in o.items())
    if isinstance(o, Mapper):
        return ("m", type(o).__name__, photo(np.array(o.dxyz)), float(o.viewangle)
                if hasattr(o, "viewangle") else None, float(o.aspect),
                repr((o.name, o.jitterrate)), photo(np.array(o.origin)),
                float(o.area),
                photo(np.array(o.bbox)), photo(getattr(o, "ivm", None), 1)
                if depth == 0 else None)
    if isinstance(o, (int, float, str, bytes, bool, type(None), np.generic)):
        return ("v", type(o).__name__, repr(o))
    if isinstance(o, slice):
        return ("s", repr(o))
    return ("o", type(o).__name__)


def files(*dirs):
    out = {}
    for d in dirs:
        for root, sub, names in os.walk(d):
            for n in names + sub:
                p = os.path.join(root, n)
                out[p] = (hashlib.sha1(open(p, "rb").read()).hexdigest(),
                          os.stat(p).st_mode) if os.path.isfile(p) else "dir"
    return out


CLASSES = (BaseMetricSet, MetricSet, ColorMetricSet, PositionIndex, GSS, Mapper,
           ViewMapper, SolidViewMapper)


def world():
    """process wide state"""
    st = np.random.get_state()
    w = dict(geterr=np.geterr(), errcall=np.geterrcall(), cwd=os.getcwd(),
             environ=dict(os.environ), print=np.get_printoptions(),
             random=(st[0], st[1].tobytes(), st[2:]),
             filters=[str(f) for f in warnings.filters],
             show=warnings.showwarning, path=list(sys.path),
             std=(sys.stdout, sys.stderr, sys.stdin),
             level=logging.getLogger().level,
             alarm=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM,
                                                  signal.SIGALRM, signal.SIGPIPE)],
             recursion=sys.getrecursionlimit(),
             start=multiprocessing.get_start_method())
    u = os.umask(0)
    os.umask(u)
    w["umask"] = u
    for k in CLASSES:
        for name, v in vars(k).items():
            if isinstance(v, (list, tuple, dict, int, float, str, np.ndarray)) \
                    and not name.startswith("__"):
                w[f"{k.__name__}.{name}"] = photo(v)
    return w


# every path which this process opens for writing, moves, removes or creates
TOUCHED = None


def audit(event, args):
    if TOUCHED is None:
        return
    if event == "open":
        path, mode, flags = (tuple(args) + (None,) * 3)[:3]
        if not isinstance(path, (str, bytes)):
            return
        if (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) \
                or (isinstance(mode, str) and set(mode) & set("wax+")):
            TOUCHED.append((event, os.path.abspath(os.fsdecode(path))))
    elif event in ("os.remove", "os.rename", "os.truncate", "os.mkdir", "os.rmdir",
                   "os.chmod", "os.link", "os.symlink", "os.utime", "os.chdir"):
        TOUCHED.extend((event, os.path.abspath(os.fsdecode(a))) for a in args
                       if isinstance(a, (str, bytes)))


sys.addaudithook(audit)


def opened():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append(f"{n}: {os.readlink('/proc/self/fd/' + n)}")
        except OSError:
            pass
    return out


def handles():
    # tqdm's monitor is one thread per process
    return dict(threads=sum("tqdm" not in t.name for t in threading.enumerate()),
                fds=len(opened()),
                children=len(multiprocessing.active_children()))


def settled(h0, seconds=20):
    """pools end shortly after they were dropped"""
    t = time.time()
    h = handles()
    while any(h[k] > h0[k] for k in h) and time.time() - t < seconds:
        gc.collect()
        # CPython reaps children nobody waited for at the next Popen
        subprocess._cleanup()
        time.sleep(.02)
        h = handles()
    return h


class Maker:
    """arguments: arrays sometimes as views of larger arrays, or in odd layouts"""

    def __init__(self, c):
        self.c = c
        self.rng = c.rng

    def arr(self, a):
        a = np.asarray(a)
        k = int(self.rng.integers(4))
        if k == 0 or a.ndim == 0:
            return a
        if k == 1:
            big = np.full(tuple(2 * s + 3 for s in a.shape), 7, a.dtype)
            v = big[tuple(slice(2, 2 + 2 * s, 2) for s in a.shape)]
            v[...] = a
            return v
        if k == 2:
            return np.asfortranarray(a)
        return a[::-1].copy()[::-1]

    def many(self, n):
        """sometimes a lot more"""
        return n if n == 1 or self.rng.random() < .7 else n * int(self.rng.integers(6, 20))

    def vec(self, n=12):
        n = self.many(n)
        return self.arr(gen.sphere(self.rng, n))

    def up(self, n=12):
        n = self.many(n)
        return self.arr(gen.hemisphere(self.rng, n, (0, 0, 1), 1.5))

    def uv(self, n=12, a=1):
        n = self.many(n)
        return self.arr(self.rng.random((n, 2)) * (a, 1) * .999)

    def img(self, n=None, color=None):
        n = n or int(self.rng.integers(4, 12)) * 2
        color = self.rng.random() < .5 if color is None else color
        return self.arr(gen.image(self.rng, (3, n, n) if color else (n, n), "log"))

    def vm(self, va=None):
        return ViewMapper(gen.direction(self.rng), va or self.c.pick(180, 180, 100, 360))

    def view(self):
        return ViewMapper(gen.direction(self.rng), 180)

    def rays(self, vm):
        n = 150
        v = gen.hemisphere(self.rng, n, np.ravel(vm.dxyz)[:3], 1.5)
        o = self.rng.random(n) + .1
        o *= 6.2 / np.sum(o)
        lum = 10.0 ** self.rng.uniform(-2, 3, n)
        lum[3], o[3] = 1e6, 6e-5
        return self.arr(v), self.arr(o), self.arr(lum)

    def file(self, color=True, view=True, square=True):
        n = 2 * int(self.rng.integers(4, 9))
        a = gen.image(self.rng, (3, n, n), "log")
        a[:, 0, 0] = 0
        p = self.c.path(f"img{int(self.rng.integers(1e9))}.hdr")
        head = ["rpict -x 10"]
        if view:
            head.append("VIEW= -vta -vp 0 0 0 -vd 0 1 0 -vu 0 0 1 -vh 180 -vv 180 -vs 0 "
                        "-vl 0")
        ref.write_hdr(p, ref.rgbe_encode(np.transpose(a, (1, 2, 0))), head)
        return p


def T(name):
    return getattr(translate, name)


def entries():
    """name -> function of the maker: (callable, args, kwargs, written files)"""
    e = {}

    def add(name, build):
        e[name] = build

    def tr(name, build, **kw):
        add("translate." + name, lambda m: (T(name), build(m), kw, ()))

    tr("norm", lambda m: [m.arr(m.vec() * 3)])
    tr("norm1", lambda m: [m.vec(1)[0] * 3])
    tr("uv2xy", lambda m: [m.uv()])
    tr("uv2xyz", lambda m: [m.uv()])
    tr("xyz2uv", lambda m: [m.up()])
    add("translate.xyz2uv.normalize",
        lambda m: (T("xyz2uv"), [m.arr(m.vec() * 2)],
                   dict(normalize=True, axes=(0, 2, 1), flipu=True), ()))
    tr("xyz2skybin", lambda m: [m.up(), 5])
    tr("skybin2xyz", lambda m: [m.arr(np.arange(9)), 5])
    tr("xyz2xy", lambda m: [m.vec()])
    tr("tpnorm", lambda m: [m.arr(m.rng.random((9, 2)) * (3, 12) - (0, 6))])
    tr("tp2xyz", lambda m: [m.arr(m.rng.random((9, 2)) * (3, 12) - (0, 6))])
    tr("xyz2tp", lambda m: [m.vec()])
    tr("aa2xyz", lambda m: [m.arr(m.rng.random((9, 2)) * (180, 360) - (90, 180))])
    tr("xyz2aa", lambda m: [m.vec()])
    tr("chord2theta", lambda m: [m.arr(m.rng.random(9) * 2)])
    tr("theta2chord", lambda m: [m.arr(m.rng.random(9) * 3)])
    for f in ("ctheta", "radians", "degrees"):
        tr(f, lambda m: [m.arr(m.vec(1)[0]), m.vec()])
    tr("uv2ij", lambda m: [m.uv(), 7])
    tr("uv2bin", lambda m: [m.uv(), 7])
    tr("bin2uv", lambda m: [m.arr(np.arange(20)), 7])
    tr("resample", lambda m: [m.arr(m.rng.random((4, 6))), (8, 12)])
    add("translate.resample.down",
        lambda m: (T("resample"), [m.arr(m.rng.random((8, 6))), (4, 3)], {}, ()))
    add("translate.resample.same",
        lambda m: (T("resample"), [m.arr(m.rng.random((8, 6)))], dict(radius=2), ()))
    tr("weighted_quantile", lambda m: [m.arr(m.rng.permutation(9) * 1.), m.arr(m.rng.random(9)),
                                       m.arr([.1, .5, .9])])
    tr("weighted_median", lambda m: [m.arr(m.rng.permutation(9) * 1.), m.arr(m.rng.random(9))])
    tr("non_uniform_gaussian_filter",
       lambda m: [m.arr(m.rng.permutation(30) * 1.), m.arr(m.rng.random((2, 30)))],
       sigma=2., bw=29)
    add("translate.non_uniform_gaussian_filter.median",
        lambda m: (T("non_uniform_gaussian_filter"),
                   [m.arr(m.rng.permutation(30) * 1.), m.arr(m.rng.random((2, 30))),
                    m.arr(np.linspace(1, 25, 7))],
                   dict(sigma=2., bw=29, amethod="median"), ()))
    add("translate.non_uniform_gaussian_filter.quantiles",
        lambda m: (T("non_uniform_gaussian_filter"),
                   [m.arr(m.rng.permutation(30) * 1.), m.arr(m.rng.random((1, 30)))],
                   dict(sigma=2., bw=29, amethod=m.arr([.9, .1, .5])), ()))
    tr("rmtx_elem", lambda m: [30, 1])
    tr("rotate_elem", lambda m: [m.vec(), 30, 1])
    tr("rmtx_yp", lambda m: [m.vec(5)])
    tr("cull_vectors", lambda m: [m.vec(30), .3])
    tr("reflect", lambda m: [m.vec(3), m.vec(4)])
    tr("simple_take", lambda m: [m.arr(m.rng.random((4, 5, 3))), [0, 2], None,
                                 slice(0, 2)])
    add("translate.simple_take.whole",
        lambda m: (T("simple_take"), [m.arr(m.rng.random((4, 5)))], {}, ()))

    # mappers
    def mp(name, build, va=None, solid=False, deterministic=True, tag=""):
        def b(m):
            vm = m.vm(va) if not solid else SolidViewMapper(gen.direction(m.rng), 180)
            args, kw = build(m, vm)
            return (lambda vm, *a, **k: getattr(vm, name)(*a, **k)), [vm] + args, kw, ()
        b.random = not deterministic
        add(("solid." if solid else "mapper.") + name + tag, b)

    mp("xyz2uv", lambda m, vm: ([m.vec()], {}))
    mp("uv2xyz", lambda m, vm: ([m.uv(a=vm.aspect)], {}))
    mp("xyz2vxy", lambda m, vm: ([m.vec()], {}))
    mp("vxy2xyz", lambda m, vm: ([m.uv()], {}))
    mp("world2view", lambda m, vm: ([m.vec()], {}))
    mp("view2world", lambda m, vm: ([m.vec()], {}))
    mp("pixelrays", lambda m, vm: ([8], {}))
    mp("pixels", lambda m, vm: ([8], {}))
    mp("pixels", lambda m, vm: ([8], dict(jitter=.5)), deterministic=False, tag=".jitter")
    mp("ray2pixel", lambda m, vm: ([m.vec(), 16], {}))
    mp("pixel2ray", lambda m, vm: ([m.arr(m.rng.integers(0, 16, (9, 2))), 16], {}))
    mp("pixel2omega", lambda m, vm: ([m.arr(m.rng.integers(0, 16, (9, 2))), 16], {}))
    mp("in_view", lambda m, vm: ([m.vec()], dict(indices=False)))
    mp("header", lambda m, vm: ([], {}))
    mp("init_img", lambda m, vm: ([12], {}))
    mp("ctheta", lambda m, vm: ([m.vec()], {}), va=180)
    mp("radians", lambda m, vm: ([m.vec()], {}), va=180)
    mp("degrees", lambda m, vm: ([m.vec()], {}), va=180)
    mp("uv2idx", lambda m, vm: ([m.uv(a=vm.aspect), (8, 8)], {}))
    mp("idx2uv", lambda m, vm: ([m.arr(np.arange(20)), (8, 8)], {}), deterministic=False)
    mp("xyz2vxy", lambda m, vm: ([m.vec()], {}), solid=True)
    mp("vxy2xyz", lambda m, vm: ([m.uv()], {}), solid=True)
    add("mapper.transform_to",
        lambda m: ((lambda vm, im, o: vm.transform_to(im, o)),
                   [m.view(), m.img(), m.view()], {}, ()))
    add("mapper.create", lambda m: (lambda v: photo(ViewMapper(v, 90)),
                                    [m.arr(m.rng.normal(size=3))], {}, ()))
    add("mapper.create.list", lambda m: (lambda v: photo(ViewMapper(v, 180)),
                                         [[0.0, 2.0, 1.0]], {}, ()))
    add("plane.pixelrays", lambda m: (lambda b: Mapper((0, 0, 1), bbox=b).pixelrays(4),
                                      [m.arr([[0., 0.], [2., 3.]])], {}, ()))

    # io
    add("io.np2bytes", lambda m: (io.np2bytes, [m.img()], {}, ()))
    add("io.bytes2np", lambda m: (io.bytes2np, [m.rng.random(6).astype("<f").tobytes(),
                                                (2, 3)], {}, ()))
    for f in ("rgb2rad", "rgb2lum"):
        add("io." + f, lambda m, f=f: (getattr(io, f), [m.arr(m.rng.random((9, 3)))],
                                       {}, ()))
    add("io.rgbe2lum", lambda m: (io.rgbe2lum, [m.arr(m.rng.integers(
        0, 255, (9, 4)).astype(np.uint8))], {}, ()))
    for f in ("hdr2array", "hdr2carray", "hdr_header", "is_hdr"):
        add("io." + f, lambda m, f=f: (getattr(io, f), [m.file()], {}, ()))
    add("io.hdr2carray.header", lambda m: (io.hdr2carray, [m.file()], dict(header=True),
                                           ()))
    add("io.clean_header", lambda m: (io.clean_header,
                                      [["a.hdr", "\tVIEW= -vta", "\tb=c", "x y"]], {}, ()))
    add("io.header_items", lambda m: (io.header_items,
                                      [["a=1", "VIEW= -vta", "b= 2"], ["VIEW", "view", "b"]],
                                      {}, ()))
    add("io.hdr_header.items", lambda m: (io.hdr_header, [m.file()],
                                          dict(items=["View", "b", "LuminanceRGB"]), ()))

    def wr(f, color):
        def b(m):
            p = m.c.path(f"out{int(m.rng.integers(1e9))}.hdr")
            return (getattr(io, f), [m.img(color=color), p],
                    dict(header=m.c.pick(["VIEW= -vta", "x=y"], ["b= ", "  a", "\tz  "],
                                         ["x\r", "a", "a"], ["b", "", "a=\t"], []),
                         clean=bool(m.rng.integers(2))), (p,))
        return b

    add("io.array2hdr", wr("array2hdr", False))
    add("io.carray2hdr", wr("carray2hdr", True))

    def ltxt(m):
        p = m.c.path(f"t{int(m.rng.integers(1e9))}.txt")
        np.savetxt(p, m.rng.random((3, 4)))
        return io.load_txt, [p], {}, ()
    add("io.load_txt", ltxt)

    # images
    add("imagetools.array_uv2ang", lambda m: (imagetools.array_uv2ang, [m.img()], {}, ()))
    add("imagetools.array_ang2uv", lambda m: (imagetools.array_ang2uv, [m.img()], {}, ()))
    add("imagetools.array_ang2uv.vm", lambda m: (imagetools.array_ang2uv,
                                                 [m.img(), m.view()], {}, ()))

    def rot(m):
        center = m.c.pick(None, [4, 5], [[4, 5], [6, 3]])
        return (imagetools.array_rotate, [m.img(), float(m.c.pick(0, 30, 90)), center],
                dict(rotate_first=bool(m.rng.integers(2)),
                     nearest=bool(m.rng.integers(2))), ())
    add("imagetools.array_rotate", rot)
    add("imagetools.array_solid2ang", lambda m: (
        imagetools.array_solid2ang, [m.img()],
        dict(returnvm=False, reverse=bool(m.rng.integers(2))), ()))
    for f, kw in (("hdr_uv2ang", {}), ("hdr_ang2uv", {}), ("hdr_solid2ang", {}),
                  ("hdr_rotate", dict(rotate=90.)), ("hdr_rotate", dict(center=[3, 4])),
                  ("hdr_rotate", {})):
        def b(m, f=f, kw=kw):
            p = m.file()
            o = m.c.path(f"o{int(m.rng.integers(1e9))}.hdr")
            if m.rng.random() < .5:
                return getattr(imagetools, f), [p], dict(kw), "?"
            return getattr(imagetools, f), [p], dict(outf=o, **kw), (o,)
        add(f"imagetools.{f}{'.' + '-'.join(kw) if kw else ''}", b)
    add("imagetools.hdr2vol", lambda m: (imagetools.hdr2vol, [m.file()],
                                         dict(color=bool(m.rng.integers(2))), ()))
    add("imagetools.hdr2vol.vm", lambda m: (imagetools.hdr2vol, [m.file(), m.view()],
                                            {}, ()))
    add("imagetools.hdr2vm", lambda m: (lambda p: photo(imagetools.hdr2vm(p)),
                                        [m.file(view=bool(m.rng.integers(2)))], {}, ()))

    def vf(m):
        p = m.c.path(f"v{int(m.rng.integers(1e9))}.vf")
        with open(p, "w") as f:
            f.write("rvu -vta -vp 0 0 0 -vd 1 2 0 -vu 0 0 1 -vh 90 -vv 90\n" *
                    int(m.rng.integers(1, 3)))
        return lambda p: photo(imagetools.vf_to_vm(p)), [p], {}, ()
    add("imagetools.vf_to_vm", vf)
    add("imagetools.img_size", lambda m: (imagetools.img_size, [m.file()], {}, ()))

    def peak(m):
        v, o, l = m.rays(m.view())
        kw = dict(m.c.pick(dict(), dict(keepzeros=True), dict(returnparts=True),
                           dict(blursun=True), dict(findsecondary=True),
                           dict(returnall=False), dict(peakt=1e12)))
        if m.rng.random() < .5:
            l = m.arr(np.stack((l, l * .9, l * .7), 1))
        return imagetools.normalize_peak, [v, o, l], kw, ()
    add("imagetools.normalize_peak", peak)

    def imet(m):
        names = [list(("illum", "dgp", "ugr", "avglum", "maxlum")), ["dgp"],
                 ["illum", "srcarea"], ["irradiance", "ugp", "illum"]]
        return imagetools.imgmetric, [m.file(), m.c.pick(names)], \
            dict(peakn=bool(m.rng.integers(2)), peakt=1000.), ()
    add("imagetools.imgmetric", imet)

    # evaluate
    def mset(cls):
        def b(m):
            vm = m.view()
            v, o, l = m.rays(vm)
            kw = {}
            if cls is ColorMetricSet:
                l = m.arr(np.stack((l, l * .9, l * .7), 1))
                names = ["illum", "srcillum", "avglum"]
            elif cls is MetricSet:
                names = m.c.pick(["dgp", "ugr", "illum"], ["tasklum", "dgp", "threshold"],
                                 None)
            else:
                names = ["illum", "avglum", "density"]
            if cls is MetricSet and m.rng.random() < .5:
                kw = dict(threshold=5.)
            if m.rng.random() < .4:
                kw["warnings"] = True

            def f(v, o, l, vm, names):
                return np.array(cls(v, o, l, vm, names, scale=179, **kw)())
            return f, [v, o, l, vm, names], {}, ()
        return b

    for k in (BaseMetricSet, MetricSet, ColorMetricSet):
        add("evaluate." + k.__name__, mset(k))
    add("evaluate.PositionIndex", lambda m: (
        PositionIndex(bool(m.rng.integers(2))).positions, [m.view(), m.vec()], {}, ()))
    add("evaluate.positions_vec", lambda m: (
        lambda a, b: PositionIndex().positions_vec(tuple(a), b), [(0., 1., 0.), m.vec()],
        {}, ()))

    def disk(m):
        n = m.many(9)
        t, r = m.rng.random(n) * 6, m.rng.random(n)
        return m.arr(np.stack((r * np.cos(t), r * np.sin(t)), 1))
    add("retina.rgcf_density", lambda m: (retina.rgcf_density, [disk(m)], {}, ()))
    add("retina.rgc_density", lambda m: (retina.rgc_density, [disk(m)], {}, ()))
    add("retina.rgcf_density_xy", lambda m: (retina.rgcf_density_xy,
                                             [m.arr(disk(m) * 90)], {}, ()))
    add("retina.hpsf", lambda m: (retina.hpsf, [m.arr(m.rng.random(9))], {}, ()))
    add("retina.inv_hpsf", lambda m: (retina.inv_hpsf, [m.arr(m.rng.random(9) + .01)],
                                      {}, ()))
    add("retina.blur_sun", lambda m: (retina.blur_sun, [m.arr(m.rng.random(9) + .01),
                                                        m.arr(m.rng.random(9) * 1e5)],
                                      {}, ()))

    def gss(m):
        def f(p, vm):
            g = GSS(vm, psf=bool(len(p) % 2))
            g.lum = p
            return np.array(g.compute())
        return f, [m.file(), ViewMapper((0, 1, 0), 180)], {}, ()
    add("evaluate.GSS", gss)
    add("evaluate.gss_compute", lambda m: (
        lambda a: np.array(gss_compute(a, psf=False)), [[m.file()]], {}, ()))
    add("utility.pool_call", lambda m: (
        lambda a: pool_call(np.sum, a, expandarg=False, pbar=False, cap=2,
                            workers=m.c.pick("t", True)),
        [[m.vec(3), m.uv(4)]], {}, ()))
    return e


ENTRIES = entries()


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and \
            bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and \
            all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, Mapper):
        return photo(a) == photo(b)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def arrays(o, depth=0):
    """the arrays an object holds"""
    if isinstance(o, np.ndarray):
        yield o
    elif isinstance(o, (list, tuple)):
        for q in o:
            yield from arrays(q, depth)
    elif isinstance(o, dict):
        for q in o.values():
            yield from arrays(q, depth)
    elif hasattr(o, "__dict__") and depth < 3 and not isinstance(o, type):
        for q in vars(o).values():
            yield from arrays(q, depth + 1)


def scribble(r, mine):
    """the caller owns what it got, and writes to it"""
    done = False
    for a in (r if isinstance(r, (list, tuple)) else [r]):
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f" and \
                not any(np.may_share_memory(a, b) for b in mine):
            a[...] = -77
            done = True
    return done


@workload(P, quick=110, thorough=1500, timeout=200)
def histories(c):
    names = sorted(ENTRIES)
    n = len(names)
    # every entry is called in each sweep; cases walk through shuffled sweeps
    per = 12
    sweep = c.i * per // n
    order = np.random.default_rng([c.run.seed, 35, sweep]).permutation(n)
    take = [names[order[(c.i * per + k) % n]] for k in range(per)]
    take += [names[k] for k in c.rng.integers(0, n, 3)]
    c.let(calls=take)
    m = Maker(c)
    made = []
    for name in take:
        made.append((name, ENTRIES[name](m), getattr(ENTRIES[name], "random", False)))
    # histories: each call once, then all again in another order
    seq = list(c.rng.permutation(len(made))) + list(c.rng.permutation(len(made)))
    if c.rng.random() < .3:
        np.seterr(**{k: c.pick("ignore", "warn") for k in
                     ("divide", "over", "under", "invalid")})
    results = {}
    kept = []
    with np.errstate(), warnings.catch_warnings():
        # (no filter the code would add itself)
        warnings.filterwarnings("ignore", message=".*|", category=Warning)
        np.seterr(divide="ignore", invalid="ignore", over="warn", under="ignore")
        for k in seq:
            name, (f, args, kw, outs), rand = made[k]
            before = photo(args), photo(kw), world(), files(c.tmp, os.getcwd())
            h0 = handles()
            global TOUCHED
            TOUCHED = []
            mine = list(arrays((args, kw)))
            try:
                r = f(*args, **kw)
            finally:
                touched, TOUCHED = TOUCHED, None
            h1 = settled(h0)
            after = photo(args), photo(kw), world(), files(c.tmp, os.getcwd())
            c.event("calls")
            c.check(after[0] == before[0], f"{name} changed its arguments", args=args)
            c.check(after[1] == before[1], f"{name} changed its keyword arguments")
            for q in before[2]:
                c.check(after[2].get(q) == before[2][q], f"{name} changed {q}",
                        was=str(before[2][q])[:300], now=str(after[2].get(q))[:300])
            c.check(set(after[2]) == set(before[2]), f"{name} changed settings")
            written = {p for p in set(before[3]) | set(after[3])
                       if before[3].get(p) != after[3].get(p)}
            allowed = set(outs) if outs != "?" else {r} - set(args)
            c.check(written <= allowed, f"{name} wrote files", files=sorted(written),
                    expected=sorted(map(str, allowed)))
            inside = tuple(os.path.join(d, "") for d in (c.tmp, os.getcwd(), core.REPO))
            touched = sorted({(ev, q) for ev, q in touched
                              if q.startswith(inside) and q not in allowed})
            c.check(not touched, f"{name} writes next to the user's files",
                    operations=touched)
            c.check(h1["threads"] <= h0["threads"] and h1["children"] <= h0["children"],
                    f"{name} left threads or processes", before=h0, after=h1)
            c.check(h1["fds"] <= h0["fds"], f"{name} left open files", before=h0, after=h1,
                    files=opened())
            if not rand:
                if k in results:
                    c.check(same(r, results[k][1]), f"{name}: a repeated call gives "
                            f"another result")
                else:
                    results[k] = (name, copy.deepcopy(r))
                    if c.rng.random() < .3 and scribble(r, mine):
                        c.event("results_overwritten")
                    else:
                        kept.append((name, r, results[k][1]))
            # results handed out earlier are the caller's
            for nm, live, was in kept[-40:]:
                c.check(same(live, was), f"{name} changed the result of an earlier "
                        f"{nm}")
    c.event("orders")
