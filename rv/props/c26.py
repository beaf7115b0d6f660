"""C26 file transforms and their commands are the array transforms, applied to files"""
import hashlib
import os
import subprocess
import sys

import numpy as np
from click.testing import CliRunner

from raytools import cli, imagetools, io
from raytools.mapper import ViewMapper
from rv import gen, ref
from rv.core import REPO, workload

P = "C26"
LEVEL = "exploration"
RULE = ("hdr files from an independent encoder (exposure, views, odd names) are "
        "transformed by the file functions, the commands in this process and the "
        "commands as programs; the files and streams are decoded independently and "
        "compared with the array functions; content hashes watch the source files and "
        "the directory")
ASSUMPTIONS = ["pixels with negative interpolated values are not judged (the format "
               "cannot hold them)",
               "names of rotations by fractional degrees may collide and are not judged"]
TOL = 0.0045


def source(c, name, res=None, view=True):
    """hdr file with a smooth positive picture"""
    res = int(c.pick(8, 13, 24, 33, 3, 5)) if res is None else res
    xy = ref.pixel_grid(res)
    k = c.rng.random((3, 5)) + .3
    a = np.array([q[0] + 2 + q[1] * xy[..., 0] + q[2] * xy[..., 1] +
                  q[3] * np.sin(3 * xy[..., 0] + q[4]) for q in k]) * \
        10.0 ** c.rng.uniform(-2, 3)
    if c.rng.random() < .3:
        a = np.array([gen.image(c.rng, (res, res), "log")] * 3)
    lines = ["rpict -x 100"]
    if view:
        d = gen.unit(gen.direction(c.rng))
        va = float(c.pick(180, 180, 120, 123.4, 67.89))
        lines.append("VIEW= -vta -vd %.6f %.6f %.6f -vh %g -vv %g" % (*d, va, va))
    lines += c.pick([], ["EXPOSURE=2.5"], ["pfilt -1", "\tEXPOSURE=3"])
    f = c.path(name)
    ref.write_hdr(f, ref.rgbe_encode(np.transpose(a[:, :, ::-1], (2, 1, 0))), lines,
                  bool(c.rng.integers(2)))
    return f, lines


def digest(folder):
    return {n: hashlib.sha1(open(os.path.join(folder, n), "rb").read()).hexdigest()
            for n in sorted(os.listdir(folder))}


def judge(c, data, want, what):
    """independent decoding of file content or stream"""
    got = ref.hdr_values(data)
    c.check(got.shape == want.shape, f"{what}: shape {got.shape}, {want.shape}")
    ok = np.all(want >= 0, 0)
    tol = TOL * np.max(np.abs(want), 0) + 1e-30
    bad = ok & np.any(np.abs(got - want) > tol, 0)
    if bad.any():
        k = tuple(int(q) for q in np.argwhere(bad)[0])
        c.fail(f"{what}: pixel {k} is {got[:, k[0], k[1]]}, the array function gives "
               f"{want[:, k[0], k[1]]} ({int(bad.sum())} pixels)")
    c.event("pixels", int(ok.sum()))


def ops(c, f, op=None):
    """name, keyword arguments, cli arguments, suffix, expected array"""
    ar = io.hdr2carray(f)
    res = ar.shape[-1]
    op = op or c.cycle(["uv2ang", "ang2uv", "solid", "rsolid", "rotate", "center", "both",
                  "ang2uv0", "rotate0"])
    if op == "uv2ang":
        return ("hdr_uv2ang", {}, ["project", "--uv2ang"], "_ang",
                lambda: imagetools.array_uv2ang(ar))
    if op in ("ang2uv", "ang2uv0"):
        use = op == "ang2uv"

        def want():
            vm = imagetools.hdr2vm(f) if use else None
            return imagetools.array_ang2uv(ar, vm or ViewMapper(viewangle=180))
        return ("hdr_ang2uv", dict(useview=use),
                ["project", "--ang2uv", "--useview" if use else "--no-useview"], "_uv",
                want)
    if op in ("solid", "rsolid"):
        near = c.rng.random() < .5
        kw = dict(nearest=near)
        args = ["solid2ang", "--nearest" if near else "--no-nearest"]
        va = None
        if op == "rsolid":
            kw["reverse"] = True
            args.append("--reverse")
        if c.rng.random() < .5:
            va = float(c.pick(180, 150, 99.5))
            kw["viewangle"] = va
            args += ["-viewangle", str(va)]
        else:
            vm = imagetools.hdr2vm(f)
            va = 180 if vm is None else vm.viewangle
        return ("hdr_solid2ang", kw, args, "_2vts" if op == "rsolid" else "_2vta",
                lambda: imagetools.array_solid2ang(ar, near, op == "rsolid", va,
                                                   returnvm=False))
    rot, ctr, first, near = 0.0, None, True, c.rng.random() < .4
    if op in ("rotate", "both"):
        rot = float(c.pick(90, -45, 30, 5, 180))
    if op in ("center", "both"):
        ctr = tuple(int(q) for q in c.rng.integers(res // 3, res - res // 3, 2))
        if c.rng.random() < .3:
            ctr += tuple(int(q) for q in c.rng.integers(res // 3, res - res // 3, 2))
    first = c.rng.random() < .5
    args = ["align", "-rotate", str(rot), "--rotate-first" if first else "--center-first",
            "--nearest" if near else "--no-nearest"]
    if ctr is not None:
        args += ["-center", " ".join(str(q) for q in ctr)]
    parts = []
    if rot:
        parts.append(f"_r{int(rot):02d}")
    if ctr:
        parts.append(f"_{ctr[0]}-{ctr[1]}")
    if not first:
        parts = parts[::-1]
    return ("hdr_rotate", dict(rotate=rot, center=ctr, rotate_first=first, nearest=near),
            args, "".join(parts) or "_r00",
            lambda: imagetools.array_rotate(ar, rot, ctr, rotate_first=first,
                                            nearest=near))


def capture(c, func):
    """run func with file descriptor 1 sent to a file"""
    f = c.path("fd1")
    sys.stdout.flush()
    keep = os.dup(1)
    o = os.open(f, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(o, 1)
    os.close(o)
    try:
        r = func()
        sys.stdout.flush()
    finally:
        os.dup2(keep, 1)
        os.close(keep)
    b = open(f, "rb").read()
    os.remove(f)
    return r, b


DEFAULT = dict(useview=True, rotate=0.0, center=None, rotate_first=True, nearest=False,
               reverse=False)
NAMES = ["a.hdr", "with space.hdr", "a.b.hdr", "dir/x.hdr", "quo'te.hdr", "d.hdrs/x.hdr",
         "v1.2/noext", "a.hdr.hdr", "d.d/.hidden.hdr", "x.HDR"]


@workload(P, quick=200, thorough=2000)
def functions(c):
    name = c.pick(NAMES)
    if "/" in name:
        os.makedirs(c.path(name.split("/")[0]))
    f, lines = source(c, name, view=c.rng.random() < .7)
    fn, kw, args, suffix, want = ops(c, f)
    mode = c.pick("default", "default", "outf", "stdout")
    func = getattr(imagetools, fn)
    c.let(fn=fn, kw=kw, mode=mode, name=name, lines=lines)
    want = want()
    folder = os.path.dirname(f)
    before = digest(folder)
    if mode == "stdout":
        r, b = capture(c, lambda: func(f, stdout=True, **kw))
        c.same(digest(folder), before, "files next to the source (stdout)")
        judge(c, b, want, "stream")
        c.event("streams")
        return
    out = c.path("given.hdr") if mode == "outf" else f.rsplit(".", 1)[0] + suffix + \
        ".hdr"
    # defaults may be left out
    kw = {k: v for k, v in kw.items() if
          k not in DEFAULT or v != DEFAULT[k] or c.rng.random() < .5}
    r, b = capture(c, lambda: func(f, **({"outf": out} if mode == "outf" else {}), **kw))
    c.check(b == b"", "writes to stdout")
    c.check(r == out, f"returned {r!r}, expected {out!r}")
    judge(c, out, want, "file")
    after = digest(folder)
    for n, h in before.items():
        c.same(after.get(n), h, f"source file {n}")
    c.check(set(after) - set(before) <= {os.path.basename(out)}, "other files appear",
            files=sorted(after))
    # the header of the source is still part of the output
    head = ref.read_hdr(out)[0]
    got = " ".join(" ".join(head).split())
    for ln in head:
        # an entry in the first column is no section: the source is one
        c.check(not ln.startswith(("EXPOSURE", "rpict", "pfilt")), f"header line {ln!r} of "
                "the source is not below its file", header=head)
    for ln in lines[:1]:
        c.check(" ".join(ln.split()) in got, f"header line {ln!r} is lost", header=got)
    c.event("files")


@workload(P, quick=60, thorough=500)
def commands(c):
    """the command line, in process: one and several images"""
    n = int(c.pick(1, 1, 2, 4))
    res = int(c.pick(8, 13, 24))
    files = [source(c, f"im{j}.hdr", res)[0] for j in range(n)]
    c.rng.shuffle(files)
    fn, kw, args, suffix, want = ops(c, files[0])
    if fn in ("hdr_solid2ang",) and n == 1:
        args.append("--no-stdout")
    # what is the default may be left out
    usual = ["--ang2uv", "--useview", "--rotate-first", "--no-nearest", "--forward"]
    args = [q for q in args if q not in usual or c.rng.random() < .5]
    if c.rng.random() < .5 and "-rotate" in args and args[args.index("-rotate") + 1] == \
            "0.0":
        k = args.index("-rotate")
        args = args[:k] + args[k + 2:]
    c.let(args=args, n=n)
    before = digest(c.tmp)
    r = CliRunner(**({"mix_stderr": False} if _MIX else {})).invoke(
        cli.main, args + [" ".join(files)])
    c.same(r.stdout_bytes, b"", "text on the stream of pictures")
    c.check(r.exit_code == 0, f"exit {r.exit_code}: {r.output[-400:]} {r.exception!r}")
    after = digest(c.tmp)
    outs = [f.rsplit(".", 1)[0] + suffix + ".hdr" for f in files]
    for k, h in before.items():
        c.same(after.get(k), h, f"source file {k}")
    c.same(sorted(set(after) - set(before)), sorted(os.path.basename(o) for o in outs),
           "files written")
    text = r.stderr
    said = [q[7:] if q.startswith("Wrote: ") else q for q in text.splitlines()]
    pos = [text.find(o) for o in outs]
    c.check(min(pos) >= 0, "the names of the files are not reported", text=text)
    c.check(pos == sorted(pos), "files are reported in another order")
    c.check(all(o in said for o in outs), "one name on each line", text=text)
    for f, o in zip(files, outs):
        ar = f"{o}.want.hdr"
        getattr(imagetools, fn)(f, outf=ar, **kw)
        c.same(ref.read_hdr(o)[1], ref.read_hdr(ar)[1], "pixels of command and function")
    judge(c, outs[0], want(), "first file")
    c.event("commands")


try:
    CliRunner(mix_stderr=False)
    _MIX = True
except TypeError:
    _MIX = False


@workload(P, quick=40, thorough=300)
def views(c):
    """a projected file tells the angle of its view, for every combination of options"""
    f, lines = source(c, "a.hdr", view=c.rng.random() < .7)
    fn, kw, args, suffix, want = ops(c, f, c.pick("solid", "solid", "rsolid", None))
    c.let(fn=fn, kw=kw, lines=lines)
    want = want()
    out = getattr(imagetools, fn)(f, **kw)
    judge(c, out, want, "file")
    head = [q for q in ref.read_hdr(out)[0] if q.startswith("VIEW=")]
    src = ([q for q in lines if q.startswith("VIEW=")] or [None])[0]
    if fn == "hdr_solid2ang":
        c.check(len(head) == 1, f"views {head} of the projected image")
        t = head[0].split()
        va = kw.get("viewangle")
        if va is None:
            va = 180.0 if src is None else float(src.split()[src.split().index("-vh") + 1])
        for k in ("-vh", "-vv"):
            c.close(float(t[t.index(k) + 1]), va, f"view angle {k}", rtol=1e-5)
    c.event("views")


PROG = "import sys; sys.argv[0] = 'raytools'; from raytools.cli import main; main()"


@workload(P, quick=28, thorough=120, timeout=240)
def programs(c):
    """as a program, the picture goes to stdout"""
    f, lines = source(c, "im.hdr")
    if c.i % 4 == 3:
        args, want = ["cleanheader"], lambda: io.hdr2carray(f)
    else:
        fn, kw, args, suffix, want = ops(c, f)
        if args[0] != "solid2ang" or c.rng.random() < .5:
            args.append("--stdout")
        args = [q for q in args if q not in ("--ang2uv", "--useview", "--rotate-first",
                                             "--no-nearest", "--forward") or
                c.rng.random() < .5]
    c.let(args=args)
    want = want()
    before = digest(c.tmp)
    p = subprocess.run([sys.executable, "-c", PROG] + args + [f], capture_output=True,
                       cwd=c.tmp, env=dict(os.environ, PYTHONPATH=REPO), timeout=200)
    c.check(p.returncode == 0, f"exit {p.returncode}: {p.stderr[-500:]}")
    c.same(digest(c.tmp), before, "files next to the source")
    judge(c, p.stdout, want, "stream")
    c.event("programs")


def piped_command(c, f):
    """arguments, and the picture or None"""
    kind = c.cycle(["picture", "picture", "file", "cleanheader", "metric", "smooth",
                    "broken"])
    if kind == "cleanheader":
        return kind, ["cleanheader"], lambda: io.hdr2carray(f)
    if kind == "metric":
        return kind, ["metric", "-metrics", c.pick("illum avglum", "maxlum", "gssnb")], None
    if kind == "smooth":
        return kind, ["smooth", "-x_out", "5"] + c.pick([], ["-y", "1"]), None
    fn, kw, args, suffix, want = ops(c, f)
    if args[0] == "solid2ang":
        args += ["--no-stdout"] if kind == "file" else []
    elif kind != "file":
        args.append("--stdout")
    if kind == "broken":
        args = c.pick(args, ["metric"], ["cleanheader"], ["project", "--uv2ang"],
                      ["project", "--ang2uv"])
    return kind, args, want


@workload(P, quick=28, thorough=150, timeout=240)
def piped(c):
    """pictures and data from a pipe ("-"): as from a file, and nothing is left behind"""
    f, lines = source(c, "im.hdr", int(c.pick(13, 24)))
    kind, args, want = piped_command(c, f)
    if kind == "smooth":
        f = c.path("data.txt")
        np.savetxt(f, c.rng.random((30, 2)))
    data = open(f, "rb").read()
    if kind == "broken":
        data = c.pick(data[:len(data) * 2 // 3], b"no picture\n", b"", data[:5])
    work = c.path("work")
    os.mkdir(work)
    c.let(args=args, kind=kind)
    want = want and want()

    def run(name, **kw):
        return subprocess.run([sys.executable, "-c", PROG] + args + [name], cwd=work,
                              capture_output=True, timeout=200,
                              env=dict(os.environ, PYTHONPATH=REPO), **kw)
    p = run("-", input=data)
    left = sorted(os.listdir(work))
    if kind == "broken":
        c.check(p.returncode != 0, f"{args} of {data[:20]} succeeds")
        c.same(left, [], "files left behind by a failed command")
        c.event("broken")
        return
    c.check(p.returncode == 0, f"exit {p.returncode}: {p.stderr[-500:]}")
    if kind == "file":
        c.check(len(left) == 1, f"files {left}")
        c.check(left[0].encode() in p.stderr, "the file is not reported")
        judge(c, os.path.join(work, left[0]), want, "file")
    else:
        c.same(left, [], "files left behind")
        if want is not None:
            judge(c, p.stdout, want, "stream")
            head = [q for q in ref.read_hdr(p.stdout)[0]]
            c.check(not any("clasp_tmp" in q for q in head), "name of a temporary file",
                    header=head)
        else:
            named = run(f)
            a, b = ([q.split("\t")[1:] if kind == "metric" else q for q in
                     r.stdout.decode().splitlines()] for r in (p, named))
            c.same(a, b, "output for the pipe and for the file")
    c.event("piped")
