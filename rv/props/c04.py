"""C04 header cleaning keeps the information and never activates entries"""
import re

import numpy as np

from raytools import io
from rv import gen, ref
from rv.core import workload

P = "C04"
LEVEL = "exploration"
RULE = ("random processing histories (nested file sections, views, exposure entries, "
        "temporary file names, long commands) are cleaned by the real code, as text and "
        "through generations of real image files; the monitor judges the emitted lines")
ASSUMPTIONS = ["consecutive entries of one depth have different keys (equal ones are taken as "
               "one wrapped entry), except those that apply to the pixel values"]
WIDTH = 150


def word(c):
    return c.pick("rpict", "-ab", "2", "pfilt", "-x", "a.oct", "/p/q.rad", "sky=1", "50%",
                  "it's", '"q"', "ü", "-vd", "0.5", "x,y", "(a)", "w" * 7,
                  "sun-only.hdr", "left-right-up--down", "x/view-two/pic-one.hdr",
                  "well--known", "e-mail", "semi\u2010hyphen", "a:b", "C:\\x.rad")


def command(c, k, names=None):
    n = int(c.rng.integers(1, 14)) if c.rng.random() < .75 else \
        int(c.rng.integers(20, 90))
    name = f"tool{k}"
    if names is not None and c.rng.random() < .25:
        # Radiance's own programs (once each: adjacent ones are taken as one)
        prog = c.pick("rpict", "getinfo -a", "pfilt", "pcompos", "pcomb -o", "rvu", "rtrace -h",
                      "vwrays", "/usr/bin/getinfo", "pvalueX", "ra_rgbe")
        if prog not in names:
            names.add(prog)
            name = f"{prog} -k{k}"
    return name + " " + " ".join(word(c) for _ in range(n))


def history(c):
    """lines of nested sections, and what they contain"""
    lines, keep, views, expo, depth, names = [], [], [], [], 0, set()
    k = 0
    for s in range(int(c.rng.integers(1, 6))):
        depth = 0 if s == 0 else int(c.rng.integers(0, min(depth + 2, 5)))
        name = c.pick("a.hdr", "/x/y/b c.hdr", "clasp_tmp_12ab", "dir/img-1.hdr",
                      "x/10:30:05.hdr", "C:\\im\\a.hdr") + ":"
        lines.append("\t" * depth + name)
        for _ in range(int(c.rng.integers(0, 6))):
            k += 1
            kind = c.pick("cmd", "cmd", "key", "view", "expo", "cc", "fmt", "pval", "tmp",
                          "dup", "deep", "info", "info", "shape")
            ind = "\t" * (depth + 1)
            if kind == "cmd":
                t = command(c, k, names)
                keep.append(t)
            elif kind == "key":
                t = f"key{k}=" + " ".join(word(c) for _ in range(c.rng.integers(1, 60)))
                keep.append(t)
            elif kind == "view":
                t = c.pick(f"VIEW= -vta -vh {100 + k} -vv {100 + k} -vd 0 1 {k}",
                           f"VIEW= -vh {k} -vv {k}", f"VIEW=-vtv -vh {k}",
                           f"VIEW= -vta -vh {100 + k} -vv {100 + k} -vd 0 1 0.25 -vp 10 "
                           f"20.5 -3 -vu 0 0 1 -vo 0 -va 0 -vs 0 -vl {k}")
                views.append(t)
            elif kind == "expo":
                t = f"EXPOSURE={c.pick('2', '0.5', '1e2')}"
                expo.append(t)
            elif kind == "cc":
                t = f"COLORCORR= {c.pick('1 2 3', '.5 .5 .5')}"
                expo.append(t)
            elif kind == "shape":
                t = c.pick("PIXASPECT=2", "PIXASPECT= 0.5",
                           "PRIMARIES= .64 .33 .3 .6 .15 .06 .3333 .3333")
                expo.append(t)
            elif kind == "info":
                t = c.pick(f"SOFTWARE= tool v{k} (a 2.1)", f"CAPDATE= 2020:01:0{k % 9 + 1} "
                           f"10:00:{k:02d}", f"GMT= 2020:01:01 10:00:{k:02d}",
                           f"GAMMA={k}.2", f"VIEWS={k} -vh", f"FORMATTED={k}",
                           f"pvalues -r {k}", f"VIEWER {k} -vta -vh 3")
                name = re.split("[= ]", t)[0]
                if name in names:
                    # (they may get next to each other when a line is promoted)
                    continue
                names.add(name)
                keep.append(t)
            elif kind == "fmt":
                t = "FORMAT=32-bit_rle_rgbe"
            elif kind == "pval":
                t = "pvalue -r -h -H -df -o -y 4 +x 3"
            elif kind == "tmp":
                if c.rng.random() < .5:
                    t = f"tool{k} /tmp/x/clasp_tmp_{k} in"
                    keep.append(f"tool{k} <stdin> in")
                else:
                    t = f"tool{k} /tmp/x/clasp_tmp_{k} clasp_tmp{k}b /tmp/clasp_tmp_c"
                    keep.append(f"tool{k} <stdin> <stdin> <stdin>")
            elif kind in ("dup", "deep") and keep:
                t = c.pick(keep)
                ind += "\t" * (kind == "deep")
            else:
                continue
            if kind in ("dup", "deep", "expo", "cc", "shape", "info"):
                lines.append("\t" * (depth + 1) + f"sep{k} x")
                keep.append(f"sep{k} x")
            lines.append(ind + t)
    return lines, keep, views, expo


def squash(s):
    return re.sub(r"\s+", "", s)


def judge(c, out, keep, views, active=(), width=WIDTH):
    c.check(isinstance(out, list), "a list of lines")
    for q in out:
        c.check(not re.match(r"\s*(FORMAT=|pvalue\s)", q), f"line {q!r} was to be dropped")
        c.check("clasp_tmp" not in q, f"temporary name in {q!r}")
        c.check("\n" not in q, "one line each")
    v = [q for q in out if re.match(r"\s*VIEW=", q)]
    if views:
        c.same(v, [views[-1]], "exactly the last view")
        c.check(out[-1] == views[-1], f"the view is the last line: {out[-1:]}")
    else:
        c.same(v, [], "no view is made up")
    body = out[:-1] if views else out
    for q in body:
        c.check(len(q) <= width, f"line of {len(q)} characters: {q[:200]!r}")
    act = [q for q in body if re.match(r"(EXPOSURE|COLORCORR|PIXASPECT|PRIMARIES)", q)]
    c.same(act, list(active), "entries at column 0 would scale the pixels")
    c.event("lines_judged", len(out))
    tabs = 0
    for q in body:
        t = len(q) - len(q.lstrip("\t"))
        if re.match(r"\s*\.\.\.(\s|$)", q):
            c.check(t == tabs, f"{q[:40]!r} continues an entry {tabs} levels deep",
                    out=out)
        else:
            tabs = t
    flat = [words(q) for q in unwrap(body)]
    for q in keep:
        c.check(words(q) in flat, f"line {q!r} lost", out=out)
    return out


def words(s):
    """what is between blanks: wrapping only breaks words longer than a line"""
    return " ".join(s.split())


def unwrap(body):
    """undo wrapping: continuation lines repeat the key or an ellipsis"""
    text, last = [], None
    for q in body:
        s = q.strip()
        m = re.match(r"\.\.\.(\s|$)", s)
        key = s.split("=", 1)[0] if "=" in s else None
        if m and text:
            text[-1] += " " + s[3:]
        elif key is not None and key == last and text:
            text[-1] += " " + s.split("=", 1)[1]
        else:
            text.append(s)
            last = key
    return text


@workload(P, quick=400, thorough=6000)
def histories(c):
    lines, keep, views, expo = history(c)
    c.let(lines=lines)
    src = list(lines)
    out = judge(c, io.clean_header(src), keep, views)
    c.same(src, lines, "the caller's list was modified")
    c.same(io.clean_header("\n".join(lines)), out, "text and list input")
    # cleaning again loses nothing
    judge(c, io.clean_header(out), keep, views)


@workload(P, quick=120, thorough=1500)
def settings(c):
    """other widths and indents; one object used for several texts"""
    done = io.CleanHeader("")
    for _ in range(int(c.rng.integers(1, 4))):
        lines, keep, views, expo = history(c)
        width = int(c.pick(60, 80, 100, 149, 151, 300, 1000))
        tab = c.pick("\t", " ", "  ", "    ", ">", "| ")
        c.let(lines=lines, width=width, tab=tab)
        done.headerwidth = width
        done.text = c.pick(list(lines), "\n".join(lines), tuple(lines))
        c.same(done.text, "\n".join(lines), "text")
        c.same(done.header, judge(c, io.CleanHeader(lines, headerwidth=width).header,
                                  keep, views, width=width), "text set again")
        long = 10**6
        base = io.CleanHeader(lines, headerwidth=long).header
        got = io.CleanHeader(lines, outtab=tab, headerwidth=long).header
        c.same(got, [tab * (len(q) - len(q.lstrip("\t"))) + q.lstrip("\t")
                     for q in base], "indented by outtab")
        c.same(io.CleanHeader(lines, outtab=" ").header,
               [re.sub(r"^\t+", lambda m: " " * len(m.group()), q)
                for q in io.CleanHeader(lines).header], "indent of one character")
        n = int(c.rng.integers(1, 9))
        spaced = [re.sub(r"^\t+", lambda m: " " * n * len(m.group()), q) for q in lines]
        c.same(io.CleanHeader(spaced, spacespertab=n).header,
               io.CleanHeader(lines).header, f"{n} spaces per tab")
        c.event("settings")


@workload(P, quick=120, thorough=1500)
def long_entries(c):
    """wrapping terminates and keeps the text for entries around the width, with
    the separator anywhere"""
    n = int(c.pick(10, 70, 74, 75, 76, 100, 146, 147, 148, 149, 150, 151, 152, 300, 900))
    k = int(c.pick(2, 20, 72, 74, 75, 76, 146, 148, 149, 150, 152, 200))
    unit = c.pick("ab ", "x", "a-b ", "word1 word2 ", "w  ", "one-two ", "abc--def ")
    key = (unit * k)[:k].strip() or "k"
    val = (c.pick("v", "v w ", "/p-q/r ", "one-two ", "sun-only-abc.hdr x ") * n)[:n].strip()
    sep = c.pick("=", "= ", " ")
    line = key + sep + val
    line = "k" + line
    depth = int(c.rng.integers(0, 6))
    lines = ["a.hdr:"] + ["\t" * (depth + 1) + line] + ["\tend mark"]
    c.let(n=n, k=k, unit=unit, depth=depth, line=line, sep=sep.strip() or sep)
    out = io.clean_header(lines)
    for q in out:
        c.check(len(q) <= WIDTH, f"line of {len(q)} characters")
    c.check(len(out) < 2 + 3 * (len(line) // 60 + 2), f"{len(out)} lines for "
            f"{len(line)} characters")
    c.check(squash(out[-1]) == "endmark", "the next line is apart", out=out)
    text = "".join(squash(q) for q in unwrap(out[1:-1]))
    if c.params["sep"] == " ":
        c.same(text, squash(line), "text kept", out=out)
    else:
        # the key may be repeated when the separator is moved to the next line
        c.check(squash(key) in text and squash(val) in text, "text kept", out=out)
    # taken as input once more (of an image made from this one)
    again = io.clean_header(out)
    if max(len(q) for q in line.split()) < 40 and len(key) < 60:
        for g in (out, again):
            c.same(words("".join(" " + q for q in unwrap(g[1:-1]))), words(line),
                   "words", out=g)


@workload(P, quick=60, thorough=600)
def generations(c):
    """images re-written with their cleaned header keep the pixel scale and the
    history over any number of generations"""
    lines, keep, views, expo = history(c)
    px = ref.rgbe_encode(gen.image(c.rng, (6, 7, 3), "log"))
    active = c.pick([], ["EXPOSURE=4"], ["EXPOSURE=0.1", "EXPOSURE=3"],
                    ["COLORCORR= 0.5 2 1"])
    f = c.path("g0.hdr")
    hist = [re.sub("^", "\t", q) if re.match("EXPOSURE|COLORCORR|PIXASPECT|PRIMARIES", q)
            else q
            for q in lines]
    n = int(c.rng.integers(1, 5))
    c.let(lines=lines, active=active, generations=n)
    ref.write_hdr(f, px, [q for q in hist if not q.strip().startswith("FORMAT=")] + active)
    want = io.hdr2carray(f)
    c.close(want, ref.hdr_values(f), "values", rtol=1e-5, atol=1e-30)
    for g in range(n):
        ar, header = io.hdr2carray(f, header=True)
        f = c.path(f"g{g + 1}.hdr")
        how = c.pick("carray", "list", "hdr_header", "array")
        if how == "list":
            io.carray2hdr(ar, f, header=io.clean_header(header))
        elif how == "array":
            io.array2hdr(ar, f, header=header, clean=True)
        elif how == "hdr_header":
            io.carray2hdr(ar, f, header=io.hdr_header(c.path(f"g{g}.hdr"), clean=True))
        else:
            io.carray2hdr(ar, f, header=header, clean=True)
        got = ref.hdr_values(f)
        mx = np.maximum(want.max(0), 1e-30)
        c.close(got / mx, want / mx, f"pixel scale after generation {g + 1}", rtol=0,
                atol=.005 * (g + 1))
        h, _ = ref.read_hdr(f)
        act = [q for q in h if re.match("EXPOSURE|COLORCORR|PIXASPECT|PRIMARIES", q)]
        c.same(act, [], "no active exposure in the re-written image")
        v = [q for q in h if re.match(r"\s*VIEW=", q)]
        c.same(v, views[-1:], "exactly the last view")
        flat = squash("".join(h))
        for q in keep:
            tool = q.split("=")[0].split(" ")[0]
            c.check(tool in flat, f"entry {q[:40]!r} lost in generation {g + 1}")
    c.event("generations", n)


def nested(lines):
    """(entry, names of the sections it is in) for each line that is not a section"""
    out, stack = [], []
    for q in lines:
        d = len(q) - len(q.lstrip("\t"))
        while stack and stack[-1][0] >= d:
            stack.pop()
        s = q.strip()
        if s.endswith(":"):
            stack.append((d, s[:-1].rsplit("/", 1)[-1]))
        else:
            out.append((s, tuple(n for _, n in stack)))
    return out


@workload(P, quick=150, thorough=2000)
def sections(c):
    """entries stay in order in the file they belong to; files that only hold files are
    left out of the chain"""
    lines, k = [], 0
    depth = -1
    for s in range(int(c.rng.integers(1, 8))):
        depth = int(c.rng.integers(0, min(depth + 2, 6)))
        lines.append("\t" * depth + c.pick("", "d/e/") +
                     c.pick(f"f{s}.hdr:", f"f{s}_10:30:05.hdr:", f"f {s}:"))
        for _ in range(int(c.pick(0, 1, 1, 2, 4))):
            k += 1
            lines.append("\t" * (depth + 1) + c.pick(
                f"tool{k} -a {k}", f"tool{k}", f"KEY{k}=v{k}", f"tool{k} x=1 -b 5",
                f"k{k} EXPOSURE={k}"))
        if depth and c.rng.random() < .3:
            # the command which joined the files comes after them
            back = int(c.rng.integers(0, depth + 1))
            k += 1
            lines.append("\t" * back + f"join{k} -e {k}")
            depth = max(back - 1, 0)
    if c.rng.random() < .2:
        # the same history with spaces in the place of tabs
        src = [q.replace("\t", "    ") for q in lines]
    else:
        src = lines
    c.let(lines=lines, spaces=src is not lines)
    given = nested(lines)
    full = {n[-1] for _, n in given if n}
    got = nested(io.clean_header(list(src)))
    c.same([t for t, _ in got], [t for t, _ in given], "entries, in order")
    for (t, a), (_, b) in zip(given, got):
        c.same(list(b), [n for n in a if n in full], f"files {t!r} belongs to",
               out=io.clean_header(list(src)))
    c.event("entries", len(given))


@workload(P, quick=150, thorough=2000)
def scaling(c):
    """entries that apply to the pixel values are never merged, moved to the top level
    or lost, with or without a file section around them"""
    lines, active, inner, keep, k = [], [], [], [], 0
    for _ in range(int(c.rng.integers(1, 12))):
        k += 1
        kind = c.pick("sec", "active", "active", "inner", "inner", "cmd", "key")
        name = c.pick("EXPOSURE", "EXPOSURE", "COLORCORR", "PIXASPECT", "PRIMARIES")
        val = {"COLORCORR": f"{k} 1 {k}.5", "PRIMARIES":
               f".64 .33 .3 .6 .15 .06 .33 .3{k}"}.get(name, f"{k}.25")
        t = name + c.pick("=", "= ") + val
        if kind == "sec":
            lines.append("\t" * int(c.pick(0, 0, 1)) +
                         c.pick("a.hdr:", "x/y.hdr:", "dir/:", "a b.hdr:"))
        elif kind == "active":
            lines.append(t)
            active.append(t)
        elif kind == "inner":
            lines.append("\t" * int(c.rng.integers(1, 4)) + t)
            inner.append(t)
        else:
            d = int(c.rng.integers(0, 3))
            q = f"tool{k} -e {k}" if kind == "cmd" else f"KEY{k}={k} x"
            lines.append("\t" * d + q)
            keep.append(q)
    c.let(lines=lines)
    out = lines
    for _ in range(2):
        out = io.clean_header(list(out))
        act = [q for q in out if re.match("EXPOSURE|COLORCORR|PIXASPECT|PRIMARIES", q)]
        c.same(sorted(act), sorted(active), "entries that apply to the pixels", out=out)
        # (an indented one may follow another as part of the same entry)
        flat = " ".join(words(q) for q in out)
        for q in inner + keep:
            c.check(words(q) in flat, f"line {q!r} lost", out=out)
    c.event("entries", len(lines))
