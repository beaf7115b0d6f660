"""C36 failed writes and dying helper programs are reported"""
import gc
import os
import resource
import shutil
import stat
import subprocess
import sys
import time

import numpy as np

from raytools import imagetools, io
from raytools.evaluate.hvsgsm import GSS, gss_compute
from raytools.mapper import SolidViewMapper, ViewMapper
from rv import gen, ref
from rv.core import REPO, workload

P = "C36"
LEVEL = "fault_enumeration"
RULE = ("every writer runs with a file size limit at enumerated offsets, on a full "
        "device and on impossible targets; every user of the Radiance programs runs "
        "with stand-ins which exit with an error, are killed, or stop after some bytes "
        "of the real output. An outcome monitor accepts an exception (programs: a non "
        "zero exit) or the complete, correct result; then the same call without the "
        "fault has to give the result of an undisturbed run")
ASSUMPTIONS = ["a helper program that fails ends with a non zero status or by a signal",
               "what a failed write leaves behind is not judged, except that it must "
               "not read as a different image"]
VIEW = "VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vp 0 0 0 -vu 0 0 1"


def slurp(p):
    with open(p, "rb") as f:
        return f.read()


def fds():
    return sorted(int(q) for q in os.listdir("/proc/self/fd"))


def settled(h0, seconds=10):
    """open files, once the children nobody waited for are gone"""
    t = time.time()
    while not set(fds()) <= set(h0) and time.time() - t < seconds:
        gc.collect()
        subprocess._cleanup()
        time.sleep(.005)
    return [q for q in fds() if q not in h0]


class limit:
    """files of this process and its children end after n bytes"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def source(c, n=6, view=True):
    a = gen.image(c.rng, (n, n, 3), "uni") + .1
    f = c.path("src.hdr")
    ref.write_hdr(f, ref.rgbe_encode(a), ["rpict"] + [VIEW] * view)
    return f


def writers(c):
    """name -> func(path), each writes one file"""
    a = c.rng.random((3, 4, 5)) + .1
    v = gen.sphere(c.rng, 20)
    head = ["rpict x", VIEW]
    f = source(c, int(c.pick(6, 9)))
    d = gen.direction(c.rng)
    vm, sm = ViewMapper(d, 180), SolidViewMapper(d, 180)

    def stream(p):
        with open(p, "wb") as o:
            o.write(b"")
        io.np2bytefile(a, p, mode="ab")

    return {
        "gray": lambda p: io.array2hdr(a[0], p),
        "gray_header": lambda p: io.array2hdr(a[0], p, header=list(head)),
        "color": lambda p: io.carray2hdr(a, p),
        "color_header": lambda p: io.carray2hdr(a, p, header=list(head)),
        "clean": lambda p: io.array2hdr(a, p, header=list(head), clean=True),
        "bytes": lambda p: io.np2bytefile(a, p),
        "append": stream,
        "plot": lambda p: vm.plot(v, p, res=6, grow=0),
        "plot_solid": lambda p: sm.plot(v, p, res=6, grow=0),
        "uv2ang": lambda p: imagetools.hdr_uv2ang(f, outf=p),
        "ang2uv": lambda p: imagetools.hdr_ang2uv(f, outf=p),
        "rotate": lambda p: imagetools.hdr_rotate(f, outf=p, rotate=30.0),
        "solid2ang": lambda p: imagetools.hdr_solid2ang(f, outf=p),
    }


NAMES = ["gray", "gray_header", "color", "color_header", "clean", "bytes", "append",
         "plot", "plot_solid", "uv2ang", "ang2uv", "rotate", "solid2ang"]


def outcome(c, func, what):
    """the exception of func or None"""
    try:
        func()
    except Exception as ex:
        c.event("raised_" + type(ex).__name__)
        return ex
    c.event("completed")
    return None


def judge(c, p, good, ex, what):
    """after a fault: reported, or complete"""
    c.checks += 1
    c.run.nchecks += 1
    now = slurp(p) if os.path.isfile(p) else None
    if ex is None:
        if now != good:
            c.fail(f"{what}: no error, but the file has "
                   f"{'no' if now is None else len(now)} of {len(good)} bytes")
    elif now is not None and now != good and now.startswith(b"#?RAD"):
        try:
            px = ref.hdr_values(now)
        except Exception:
            return
        c.check(np.array_equal(px, ref.hdr_values(good)),
                f"{what}: leaves another, readable image")


def after(c, p, good, func, h0, what):
    """nothing is left of the fault"""
    c.same(settled(h0), [], f"{what}: files left open")
    func()
    c.check(slurp(p) == good, f"{what}: another result after the fault")
    c.event("retries")


@workload(P, quick=26, thorough=390, timeout=300)
def limits(c):
    """the disk is full after k bytes"""
    name = c.cycle(NAMES)
    func = writers(c)[name]
    p = c.path("o.hdr")
    func(p)
    good = slurp(p)
    n = len(good)
    c.let(name=name, size=n)
    c.check(n > 20, f"only {n} bytes written")
    ks = {0, 1, n - 1, n // 2}
    if b"\n\n" in good:
        ks |= {good.index(b"\n\n") + j for j in (0, 1, 2, 14)}
    if c.thorough:
        ks |= {int(q) for q in c.rng.integers(0, n, 30)}
    else:
        ks |= {int(q) for q in c.rng.integers(0, n, 4)}
    h0 = fds()
    for k in sorted(q for q in ks if 0 <= q < n):
        fresh = c.rng.random() < .5
        if fresh:
            os.remove(p)
        with limit(k):
            ex = outcome(c, lambda: func(p), name)
        judge(c, p, good, ex, f"{name}, space for {k} bytes")
        c.event("fault_points")
        after(c, p, good, lambda: func(p), h0, f"{name}, space for {k} bytes")


@workload(P, quick=26, thorough=130)
def targets(c):
    """places where no file can be"""
    name = c.cycle(NAMES)
    func = writers(c)[name]
    p = c.path("o.hdr")
    func(p)
    good = slurp(p)
    h0 = fds()
    c.let(name=name)
    full = c.path("full.hdr")
    os.symlink("/dev/full", full)
    os.mkdir(c.path("d"))
    for t in ("/dev/full", full, c.path("no/o.hdr"), c.path("d"),
              os.path.join(p, "o.hdr"), c.path("x" * 300), c.path("nu\0l")):
        if not stat.S_ISCHR(os.stat("/dev/full").st_mode):
            c.fail("/dev/full was replaced")
        c.checks += 1
        c.run.nchecks += 1
        ex = outcome(c, lambda: func(t), name)
        if ex is None:
            c.fail(f"{name}: nothing is reported for target {t!r}")
        c.event("fault_points")
        c.same(settled(h0), [], f"{name}: files left open after {t!r}")
    c.same(sorted(os.listdir(c.path("d"))), [], "files in a directory given as target")
    c.check(slurp(p) == good, "another file changed")


# stand-ins: %s is the real program
MODES = {
    "fails": "#!/bin/sh\nexit 1\n",
    "fails3": "#!/bin/sh\necho oops >&2\nexit 3\n",
    "killed": "#!/bin/sh\nkill -9 $$\n",
    "late": "#!/bin/sh\n{real} \"$@\"\nexit 1\n",
    "latekill": "#!/bin/sh\n{real} \"$@\"\nkill -15 $$\n",
    "cut": "#!/bin/sh\n{real} \"$@\" | head -c {k}\nexit 1\n",
    "cutkill": "#!/bin/sh\n{real} \"$@\" | head -c {k}\nkill -9 $$\n",
    # only one of several calls
    "nthfail": "#!/bin/sh\n[ $(wc -l < '{calls}') -ge {n} ] && exit 1\n"
               "PATH='{where}':$PATH; exec {name} \"$@\"\n",
    "nthcut": "#!/bin/sh\nPATH='{where}':$PATH\n"
              "[ $(wc -l < '{calls}') -ne {n} ] && exec {name} \"$@\"\n"
              "{real} \"$@\" | head -c {k}\nexit 1\n",
    "absent": None,
}


class helper:
    """PATH with a stand-in for one program"""

    def __init__(self, c, prog, mode, k=0):
        nth = int(c.rng.integers(1, 4))
        self.dir = c.path(f"bin{c.run.nchecks}")
        os.mkdir(self.dir)
        for q in ("pvalue", "getinfo"):
            real = shutil.which(q)
            if q == prog:
                self.calls = c.path(f"calls{c.run.nchecks}")
                text = MODES[mode]
                if text is None:
                    continue
                # remember that the stand-in was called at all
                text = text.replace("#!/bin/sh\n", f"#!/bin/sh\necho >> '{self.calls}'\n")
                with open(os.path.join(self.dir, q), "w") as f:
                    f.write(text.replace("{real}", f"'{real}'").replace("{k}", str(k))
                            .replace("{n}", str(nth)).replace("{name}", q)
                            .replace("{where}", os.path.dirname(real)).replace("{calls}", self.calls))
                os.chmod(os.path.join(self.dir, q), 0o755)
            else:
                os.symlink(real, os.path.join(self.dir, q))

    def __enter__(self):
        self.old = os.environ["PATH"]
        os.environ["PATH"] = self.dir + ":/usr/bin:/bin"

    def __exit__(self, *a):
        os.environ["PATH"] = self.old

    @property
    def called(self):
        return os.path.exists(self.calls)


def flat(o):
    """results in a form which compares"""
    if isinstance(o, (tuple, list)):
        return [flat(q) for q in o]
    if isinstance(o, np.ndarray):
        return (o.shape, np.nan_to_num(o, nan=-1.5).tobytes())
    if isinstance(o, ViewMapper):
        return (np.ravel(o.dxyz).tolist(), o.viewangle, o.aspect)
    if isinstance(o, os.PathLike):
        return str(o)
    return o


def readers(c):
    """name -> func(), all depend on programs"""
    f = source(c, 12)
    vm = ViewMapper((0, 1, 0), 180)

    def stream(r):
        with open(f, "rb") as s:
            return r("", stdin=s)

    return {
        "hdr2array": lambda: io.hdr2array(f),
        "hdr2carray": lambda: io.hdr2carray(f),
        "weighted": lambda: io.hdr2array(f, vlambda=(.3, .6, .1)),
        "with_header": lambda: io.hdr2array(f, header=True),
        "color_header": lambda: io.hdr2carray(f, header=True),
        "stdin": lambda: stream(io.hdr2array),
        "hdr_header": lambda: io.hdr_header(f),
        "clean_header": lambda: io.hdr_header(f, clean=True),
        "items": lambda: io.hdr_header(f, items=["VIEW", "none"]),
        "hdr2vm": lambda: imagetools.hdr2vm(f),
        "hdr2vm_pt": lambda: imagetools.hdr2vm(f, vpt=True),
        "img_size": lambda: imagetools.img_size(f),
        "hdr2vol": lambda: imagetools.hdr2vol(f),
        "hdr2vol_vm": lambda: imagetools.hdr2vol(f, vm),
        "imgmetric": lambda: imagetools.imgmetric(f, ["illum", "dgp"]),
        "gss": lambda: GSS(f).compute(),
    }


RNAMES = ["hdr2array", "hdr2carray", "weighted", "with_header", "color_header", "stdin",
          "hdr_header", "clean_header", "items", "hdr2vm", "hdr2vm_pt", "img_size",
          "hdr2vol", "hdr2vol_vm", "imgmetric", "gss"]


@workload(P, quick=32, thorough=320, timeout=300)
def helpers_read(c):
    """programs die while something is read"""
    name = c.cycle(RNAMES)
    func = readers(c)[name]
    want = flat(func())
    prog = c.pick("pvalue", "getinfo") if name not in ("hdr2vm", "img_size", "items") \
        else "getinfo"
    c.let(name=name, prog=prog)
    h0 = [0, 1, 2, 3]
    h0 = h0 + settled(h0, .2)
    for mode in sorted(MODES):
        for k in ([0] if "cut" not in mode else
                  [0, int(c.rng.integers(1, 60)), int(c.rng.integers(60, 900))] +
                  [len(c.path("src.hdr") + ": -Y 12 +X 12\n") - int(q) for q in
                   (range(1, 14) if name == "img_size" else c.rng.integers(1, 14, 3))]):
            h = helper(c, prog, mode, k)
            got = []
            with h:
                ex = outcome(c, lambda: got.append(func()), name)
            c.checks += 1
            c.run.nchecks += 1
            if ex is None and flat(got[0]) != want:
                c.fail(f"{name}: no error, but another result when {prog} {mode} "
                       f"{k if 'cut' in mode else ''}", got=got[0])
            if mode == "absent" or h.called:
                c.event(f"faults_{prog}")
            del ex, got
            c.same(flat(func()), want, f"{name}: result after {prog} {mode}")
            c.same(settled(h0), [], f"{name}: files left open after {prog} {mode}")


@workload(P, quick=22, thorough=220, timeout=300)
def helpers_write(c):
    """programs die while something is written"""
    name = c.cycle([n for n in NAMES if n not in ("bytes", "append")])
    func = writers(c)[name]
    p = c.path("o.hdr")
    func(p)
    good = slurp(p)
    prog = c.pick("pvalue", "getinfo")
    c.let(name=name, prog=prog, size=len(good))
    h0 = fds()
    for mode in sorted(MODES):
        for k in ([0] if "cut" not in mode else
                  [0, int(c.rng.integers(1, len(good))), len(good) - 1]):
            h = helper(c, prog, mode, k)
            os.remove(p)
            with h:
                ex = outcome(c, lambda: func(p), name)
            judge(c, p, good, ex, f"{name}: {prog} {mode} {k if 'cut' in mode else ''}")
            if mode == "absent" or h.called:
                c.event(f"faults_{prog}")
            del ex
            after(c, p, good, lambda: func(p), h0, f"{name}: {prog} {mode}")


PROG = ("import sys; sys.argv[0] = 'raytools'; from raytools.cli import main; main()")


def command(c):
    """args, files to be written"""
    # (more than the programs and streams buffer, or less)
    f = source(c, int(c.pick(8, 64)))
    t = c.path("t.txt")
    np.savetxt(t, c.rng.random((12, 3)))
    kind = c.cycle(["uv2ang", "rotate", "solid", "clean", "metric", "smooth", "files",
                    "filesolid"])
    args = {"uv2ang": ["project", "--uv2ang", "--stdout", f],
            "rotate": ["align", "-rotate", "30", "--stdout", f],
            "solid": ["solid2ang", f],
            "clean": ["cleanheader", f],
            "metric": ["metric", "-metrics", "illum avglum", f],
            "smooth": ["smooth", "-y", "1", t],
            "files": ["project", "--ang2uv", f],
            "filesolid": ["solid2ang", "--no-stdout", f]}[kind]
    outs = {"files": ["src_uv.hdr"], "filesolid": ["src_2vta.hdr"]}.get(kind, [])
    return kind, args, outs


@workload(P, quick=8, thorough=80, timeout=600)
def commands(c):
    """as a program: non zero exit, or everything is there"""
    kind, args, outs = command(c)
    c.let(kind=kind)

    def run(pre=None, out=subprocess.PIPE):
        return subprocess.run([sys.executable, "-c", PROG] + args, stdout=out,
                              stderr=subprocess.PIPE, cwd=c.tmp, preexec_fn=pre,
                              env=dict(os.environ, PYTHONPATH=REPO), timeout=200)

    p = run()
    c.check(p.returncode == 0, f"exit {p.returncode}: {p.stderr[-400:]}")
    good = [slurp(c.path(o)) for o in outs] or [p.stdout]
    c.check(len(good[0]) > 20, "no output", out=good[0])

    def verdict(what, p, now):
        c.checks += 1
        c.run.nchecks += 1
        c.event("fault_points")
        if p.returncode == 0 and now != good:
            c.fail(f"{kind}, {what}: exit 0, but {[len(q or b'') for q in now]} of "
                   f"{[len(q) for q in good]} bytes", stderr=p.stderr[-300:])
        c.event("exit_nonzero" if p.returncode else "exit_zero")

    # full device
    if not outs:
        with open("/dev/full", "wb") as o:
            verdict("device full", run(out=o), [b""])
        # nobody reads the output
        p = subprocess.Popen([sys.executable, "-c", PROG] + args, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=c.tmp,
                             env=dict(os.environ, PYTHONPATH=REPO))
        p.stdout.close()
        err = p.stderr.read()
        p.stderr.close()
        c.check(p.wait(200) != 0, f"{kind}: exit 0 without a reader of the output",
                stderr=err[-300:])
        c.event("fault_points")
    # space for some bytes
    n = len(good[0])
    for k in sorted({int(c.rng.integers(0, n)), n - 1} | ({0} if c.thorough else set())):
        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        for o in outs:
            os.remove(c.path(o))
        so = c.path("so")
        with open(so, "wb") as o:
            p = run(pre, o)
        verdict(f"space for {k} bytes", p,
                [slurp(c.path(q)) if os.path.exists(c.path(q)) else None for q in outs]
                or [slurp(so)])
        # without the fault
        if outs:
            run()
            c.check([slurp(c.path(o)) for o in outs] == good, f"{kind}: another result "
                    "after the fault")
    # helper programs die
    if kind != "smooth":
        for prog in (("pvalue", "getinfo") if c.thorough else
                     (c.pick("pvalue", "getinfo"),)):
            h = helper(c, prog, c.pick("fails", "killed", "late", "latekill", "cutkill"),
                       n // 2)
            for o in outs:
                if os.path.exists(c.path(o)):
                    os.remove(c.path(o))
            with h:
                p = run()
            verdict(f"{prog} dies", p,
                    [slurp(c.path(q)) if os.path.exists(c.path(q)) else None
                     for q in outs] or [p.stdout])


@workload(P, quick=4, thorough=24, timeout=300)
def pools(c):
    """a fault in one of many parallel jobs"""
    n = 3
    fs = []
    for j in range(n):
        f = c.path(f"im{j}.hdr")
        a = gen.image(c.rng, (8, 8, 3), "uni") * 100 + 1
        ref.write_hdr(f, ref.rgbe_encode(a), [VIEW])
        fs.append(f)
    out = c.path("out")
    bad = int(c.rng.integers(n))
    kind = c.cycle(["target", "limit"])
    c.let(bad=bad, kind=kind)
    want = gss_compute(fs, save=True, outdir=out)
    names = sorted(os.listdir(out))
    c.same(len(names), n, f"files in {names}")
    good = [slurp(os.path.join(out, q)) for q in names]
    t = os.path.join(out, names[bad])
    if kind == "target":
        os.remove(t)
        os.mkdir(t)
        ex = outcome(c, lambda: gss_compute(fs, save=True, outdir=out), "gss")
        os.rmdir(t)
        c.check(ex is not None, f"a response image which cannot be written is not "
                                f"reported ({names[bad]})")
    else:
        shutil.rmtree(out)
        with limit(len(good[0]) // 2):
            ex = outcome(c, lambda: gss_compute(fs, save=True, outdir=out), "gss")
        c.check(ex is not None, "response images which cannot be written are not "
                                "reported")
    c.event("fault_points")
    del ex
    got = gss_compute(fs, save=True, outdir=out)
    c.same(list(got), list(want), "scores after the fault")
    c.check([slurp(os.path.join(out, q)) for q in names] == good,
            "response images after the fault")
