"""C03 header text survives writing an image, and items are looked up"""
import re

import numpy as np

from raytools import io
from rv import ref
from rv.core import workload

P = "C03"
LEVEL = "exploration"
RULE = ("random header lines (quotes, shell metacharacters, unicode, tabs, key=value, "
        "view and luminance entries) written with images; an independent parser of "
        "the file and the real header reader have to show every line, in order; "
        "item lookups are judged by a last-value model")
ASSUMPTIONS = ["a header line holds no newline, is shorter than 1500 bytes and is not "
               "an active EXPOSURE/COLORCORR/FORMAT entry",
               "item lookup: values of one key are distinct and not on adjacent "
               "lines (adjacent lines of one key are continuations)"]

ATOMS = ["foo", "bar=1", "it's", 'say "hi"', "$HOME", "`id`", "a\\b", "%d", "*", "?",
         "-a", "|", ";", "&&", ">x", "#?RAD", "!cmd", "ünï", "x:y", "~", "(a)", "{b}",
         "[c]", "cannot open", "bad header!", ": cannot open", "EXPOSURE=2", "a,b", "VIEW=", "FORMAT", "=", "'", '"', "\\n", "-d"]


def line(c, lead=True):
    n = int(c.rng.integers(1, 9))
    sep = c.pick(" ", " ", "  ", "\t")
    s = sep.join(c.rng.choice(ATOMS, n))
    if c.rng.random() < .1:
        s = s * int(c.rng.integers(2, 12))
    s = s[:400]
    if lead and c.rng.random() < .4:
        s = c.pick("\t", "  ", "\t\t", " ") + s
    if c.rng.random() < .2:
        s = s + c.pick(" ", "\t", "  ")
    if re.match(r"(EXPOSURE|COLORCORR|FORMAT|#\?|PIXASPECT|PRIMARIES|SOFTWARE|VIEW)", s):
        s = "x" + s
    return s


@workload(P, quick=250, thorough=3000)
def written(c):
    n = int(c.rng.integers(0, 9))
    if c.rng.random() < .06:
        # the log of a long processing history
        n = int(c.rng.integers(100, 500))
    header = [line(c) for _ in range(n)]
    header = [h for h in header if h.strip()]
    if header and c.rng.random() < .15:
        # lines of blanks (an empty one ends the header)
        header.insert(int(c.rng.integers(0, len(header))), c.pick(" ", "\t", "  \t "))
    if header and c.rng.random() < .15:
        # the same line again
        k = int(c.rng.integers(0, len(header)))
        header.insert(c.pick(k, len(header)), header[k])
    # one view line and one which only names the format
    if c.rng.random() < .5:
        header.insert(int(c.rng.integers(0, len(header) + 1)),
                      "VIEW= -vta -vv 180 -vh 180 -vd 0 1 0 -vp 1 2 3 -vu 0 0 1")
    if c.rng.random() < .2:
        header.append("converted from RADIANCE picture")
    color = bool(c.i % 2)
    c.let(n=len(header), header=header, color=color)
    a = c.rng.random((3, 4, 5) if color else (4, 5))
    keep = list(header)
    f = c.path(c.pick("h.hdr", "h h.hdr", "h'.hdr", "cannot open.hdr", "a: cannot open"))
    io.array2hdr(a, f, header=header)
    c.same(header, keep, "the caller's header list was modified")
    lines, px = ref.read_hdr(f)
    own = [q for q in lines if not q.startswith(("pvalue ", "FORMAT=", "#?RADIANCE"))
           or q in header]
    c.same(own, header, "lines in the file")
    c.event("header_lines", len(header))
    h = io.hdr_header(f)
    c.check(isinstance(h, list) and h[0] == f + ":", f"first line names the file: {h[:1]}")
    body = [q[1:] for q in h[1:]]
    c.check(all(q[:1] == "\t" for q in h[1:]), "lines are indented by one tab", header=h)
    own = [q for q in body if not q.startswith(("pvalue ", "FORMAT=")) or q in header]
    c.same(own, [q for q in header], "lines read back")
    # both image readers hand out the same header
    _, h2 = io.hdr2array(f, header=True)
    _, h3 = io.hdr2carray(f, header=True)
    c.same(h2, h, "hdr2array header")
    c.same(h3, h, "hdr2carray header")
    # several generations: the text is nested, never lost
    g = c.path("2.hdr")
    io.array2hdr(a, g, header=h)
    h4 = io.hdr_header(g)
    text = [q.strip() for q in h4]
    for q in header:
        c.check(q.strip() in text, f"line {q!r} lost in the second generation",
                header=h4)


KEYS = ["LuminanceRGB", "foos", "fo", "GM", "_y", "CAPDATES", "xLuminanceRGB", "Lum", "VIEW", "PIXASPECT", "CAPDATE", "GMT", "foo", "Bar", "x_y",
        "EXPOSURE", "SOFTWARE", "PRIMARIES", "a.b", "e"]


@workload(P, quick=250, thorough=3000)
def items(c):
    """the last value of a key, case insensitive, empty when absent"""
    keys = list(c.rng.permutation(KEYS)[:int(c.rng.integers(1, 6))])
    seq, empty = [], set()
    for k in range(int(c.rng.integers(1, 10))):
        key = c.pick(keys)
        seq.append((f"note{k}", f"n{k}", " "))
        name = c.pick(key, key.lower(), key.upper())
        if key == "VIEW":
            name = key
        val = c.pick(f"{k} 0.25 a", f"v{k}", f"{k}.5 b=c {k}", f"{k}\tb  c\t\td", f"{k}: x; 'y' \"z\"", f"/p/{k}", "")
        if val == "" and key.lower() in empty:
            # (equal lines are merged)
            val = f"again {k}"
        if c.rng.random() < .04:
            # a long command line
            m = int(c.rng.integers(100, 1600))
            val = (f"{k} " + " ".join(f"opt{q}" for q in range(250)))[:m].strip()
        if val == "":
            empty.add(key.lower())
        if key in ("EXPOSURE", "PIXASPECT"):
            # (these have a meaning when the image is read)
            val = f"{k + 1}"
        seq.append((name, val, "=" if key == "VIEW" else c.pick("=", "=", "= ")))
    model = {}
    for name, val, sep in seq:
        model[name.lower()] = val.strip()
    ask = list(c.rng.permutation(KEYS + ["nothing"])[:int(c.rng.integers(1, 8))])
    if c.rng.random() < .5:
        ask += [c.pick(q[:-1], q + "s", q[1:]) for q in keys]
    if c.rng.random() < .3:
        # one of them asked twice
        ask.append(c.pick(ask))
    ask = [c.pick(q, q.lower(), q.upper()) for q in ask]
    header = [f"{n}{s}{v}" for n, v, s in seq]
    c.let(header=header, ask=ask)
    want = [model.get(q.lower(), "") for q in ask]
    c.same(list(io.header_items(list(header), ask)), want, "header_items")
    c.same(list(io.header_items("\n".join(header), ask)), want, "header_items of text")
    f = c.path("i.hdr")
    io.array2hdr(np.ones((2, 2)), f, header=header)
    # the reader of the file
    c.same(list(io.hdr_header(f, items=list(ask))), want, "hdr_header items")
    c.event("lookups", len(ask))
    c.event("found", sum(q != "" for q in want))
