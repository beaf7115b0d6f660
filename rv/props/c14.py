"""C14 weighted quantiles and non-uniform smoothing"""
import numpy as np
from click.testing import CliRunner

from raytools import cli, translate
from rv import gen
from rv.core import workload

P = "C14"
LEVEL = "exploration"
RULE = ("random, tied, unsorted, clustered and gapped data, weights and quantiles; "
        "judged against linear interpolation of the cumulative weights and an "
        "explicit kernel average at every output position")
ASSUMPTIONS = ["finite data; weights >= 0 with at least one above the threshold",
               "bandwidths which cut off less than 1e-12 of the kernel"]


def bracket(d, w, q, t=0.0):
    """smallest and largest value consistent with linear interpolation of the
    cumulative weight, within rounding of the cumulative weight"""
    o = np.argsort(d, kind="stable")
    d, w = d[o], w[o]
    d, w = d[w > t], w[w > t]
    cw = np.cumsum(w) - w[0]
    e = 1e-10 * max(np.sum(w), 0)
    x = np.atleast_1d(q) * cw[-1]
    tol = 1e-9 * max(1e-300, np.max(np.abs(d)))
    return (np.interp(x - e, cw, d) - tol, np.interp(x + e, cw, d) + tol)


@workload(P, quick=300, thorough=3000)
def quantile(c):
    n = int(c.pick(1, 2, 3, 10, 100, 1000))
    kind = c.cycle(["random", "ties", "sorted", "equal weights", "zero weights", "skew",
                    "none", "threshold"])
    d = c.rng.normal(size=n) * 10.0 ** c.rng.uniform(-2, 4)
    w = c.rng.random(n) + 1e-3
    t = 0.0
    if kind == "ties":
        # (with unequal weights the order within a tie is not defined)
        d = np.round(d)
        w[:] = float(c.rng.random() + .1)
    elif kind == "sorted":
        d = np.sort(d)
    elif kind == "equal weights":
        w[:] = 2.5
    elif kind == "zero weights":
        w[c.rng.random(n) < .4] = 0
        w[int(c.rng.integers(n))] = .7
    elif kind == "skew":
        w = 10.0 ** c.rng.uniform(-6, 3, n)
    elif kind == "threshold":
        t = float(c.rng.random())
        w[int(c.rng.integers(n))] = 1.5
    q = np.concatenate((c.rng.random(4), c.pick([0., 1.], [.5], [1 - 2e-16, 0.])))
    c.let(kind=kind, n=n, t=t)
    kd, kw_ = d.copy(), w.copy()
    shape2 = c.rng.random() < .2 and n % 2 == 0
    da = d.reshape(2, -1) if shape2 else d
    wa = w.reshape(2, -1) if shape2 else w
    if kind == "none":
        c.close(translate.weighted_quantile(da, q=q), np.quantile(d, q),
                "no weights", rtol=1e-12)
        c.close(translate.weighted_median(da), np.median(d), "median", rtol=1e-12)
        return
    if c.rng.random() < .2:
        da, wa = list(d), list(w)
    got = translate.weighted_quantile(da, wa, q=q, t=t)
    c.check(np.shape(got) == q.shape, f"shape {np.shape(got)}")
    lo, hi = bracket(d, w, q, t)
    c.check(np.all((got >= lo) & (got <= hi)),
            f"quantiles {q} are {got}, expected {lo}..{hi}", d=d, w=w)
    use = d[w > t]
    c.check(np.all((got >= use.min() - 1e-9 * abs(use.min())) &
                   (got <= use.max() + 1e-9 * abs(use.max()))), "outside of the data")
    qs = np.sort(c.rng.random(20))
    g = translate.weighted_quantile(da, wa, q=qs, t=t)
    c.check(np.all(np.diff(g) >= -1e-9 * np.abs(use).max()), "not monotonic in q")
    med = translate.weighted_median(da, wa, t=t)
    lo, hi = bracket(d, w, .5, t)
    c.check(lo[0] <= med <= hi[0], f"median {med}, expected {lo}..{hi}")
    sc = float(translate.weighted_quantile(da, wa, q=.25, t=t))
    lo, hi = bracket(d, w, .25, t)
    c.check(lo[0] <= sc <= hi[0], "scalar quantile")
    if t == 0:
        p = c.rng.permutation(n)
        if kind != "ties":
            c.close(translate.weighted_quantile(d[p], w[p] * 8, q=q[:4]),
                    translate.weighted_quantile(d, w, q=q[:4]),
                    "order of the data and scale of the weights", rtol=1e-6,
                    atol=1e-6 * np.abs(d).max())
    c.same(d, kd, "input")
    c.same(w, kw_, "weights")
    c.event("quantiles", len(q) + 22)


def kernel(x, y, x0, s, method, q):
    o = np.argsort(x, kind="stable")
    x, y = x[o], y[:, o]
    z = (x - x0) / s
    if np.min(np.abs(z)) > 60:
        return np.array([np.interp(x0, x, f) for f in y]), None
    w = np.exp(-.5 * z * z) / (s * np.sqrt(2 * np.pi))
    if method == "mean":
        return (y * w).sum(1) / w.sum(), None
    lo, hi = [], []
    for f in y:
        a, b = bracket(f, w, q)
        lo.append(a)
        hi.append(b)
    return np.ravel(lo), np.ravel(hi)


@workload(P, quick=200, thorough=2500, timeout=180)
def smoothing(c):
    n = int(c.pick(2, 5, 30, 120))
    m = int(c.pick(1, 1, 3))
    kind = c.cycle(["uniform", "unsorted", "ties", "clusters", "gaps", "unsorted", "outside"])
    x = np.sort(c.rng.random(n)) * 10
    sig = float(c.rng.uniform(.05, 3))
    if kind == "uniform":
        x = np.arange(n) * .37
    elif kind == "unsorted":
        if c.rng.random() < .4:
            # all but two are in order
            k = int(c.pick(0, n - 2, c.rng.integers(n - 1)))
            x[[k, k + 1]] = x[[k + 1, k]]
        elif c.rng.random() < .2:
            x = x[::-1].copy()
        else:
            x = c.rng.permutation(x)
    elif kind == "ties":
        x = c.rng.permutation(np.round(x))
    elif kind == "clusters":
        x = np.sort(np.round(x / 4) * 4 + c.rng.normal(size=n) * .05)
    elif kind == "gaps":
        # no sample in reach of the kernel between the groups
        x = np.sort(c.rng.random(n) + 1000 * c.rng.integers(0, 3, n))
        sig = .5
    y = c.rng.normal(size=(m, n)) * 3 + 1
    if c.rng.random() < .2:
        # (values twice in the data would leave the quantile open)
        y = np.array([c.rng.permutation(np.arange(n) * 3 - n) for _ in range(m)])
    method = c.pick("mean", "mean", "median", "q1", "qn")
    if kind == "gaps" and method in ("median", "q1", "qn"):
        method = "mean"
    q = .5
    am = method
    if method == "q1":
        q = float(c.rng.random())
        am = c.pick(q, [q])
    elif method == "qn":
        m, y = 1, y[:1]
        q = np.array(c.pick((.1, .5, .93), (.9, .2, .5), (.3, .3, 1., 0.), (.8, .7)))
        am = c.pick(q, q.tolist())
    resamp = c.rng.random() < .5
    xr = None
    if resamp:
        xr = c.rng.uniform(x.min() - 1, x.max() + 1, int(c.pick(1, 7, 40, n, n)))
        if c.rng.random() < .3:
            xr = np.sort(xr)
        elif c.rng.random() < .2:
            xr = c.rng.permutation(x)
        if kind == "gaps":
            near = np.min(np.abs(xr[:, None] - x), 1)
            xr = xr[(near < 10) | (near > 60)]
            xr = c.rng.permutation(np.append(xr, (x.max() + 200., x.min() - 200., 500.)))
    bw = c.pick(None, 500, 500, "tight")
    auto = c.rng.random() < .15 and kind != "gaps" and len(set(x)) > 1
    ss = float(c.pick(1.0, 1.0, .5, .05, .01, 3.0))
    s = (np.sqrt(np.cov(x) * n ** -.4) if auto else sig) * ss
    srt = np.sort(x)
    at = x if xr is None else xr
    if bw == "tight":
        # all samples within 8 sigma of each position, or of as good as the same weight
        # as the closest one
        reach = np.sqrt(np.min(np.abs(at[:, None] - srt), 1) ** 2 + 64 * s * s)
        near = np.searchsorted(srt, at + reach) - np.searchsorted(srt, at - reach)
        bw = int(near.max()) + 2
        if kind == "gaps" or method != "mean":
            bw = n
    c.let(n=n, m=m, kind=kind, method=method, resample=resamp, bw=bw, auto=auto, sigma=sig)
    kx, ky = x.copy(), y.copy()
    kw = dict(xr=xr, sigma=None if auto else sig, bw=bw, sscale=ss)
    if method != "mean" or c.rng.random() < .5:
        kw["amethod"] = am
    ya = y[0] if m == 1 and c.rng.random() < .5 else y
    got = translate.non_uniform_gaussian_filter(x, ya, **kw)
    c.same(x, kx, "x")
    c.same(y, ky, "y")
    nq = len(np.atleast_1d(q)) if method == "qn" else 1
    c.check(got.shape[-1] == len(at) and got.size == len(at) * m * nq,
            f"shape {got.shape} for {m} features and {len(at)} positions")
    g = got.reshape(m * nq, len(at))
    tol = 1e-8 * np.abs(y).max()
    if bw is not None:
        tol = tol + 1e-6
    for k, x0 in enumerate(at):
        z = np.min(np.abs(x - x0)) / s
        if 25 < z < 60:
            continue
        if method != "mean" and np.any((np.abs(x - x0) / s > 37) &
                                       (np.abs(x - x0) / s < 40)):
            # weights at the limit of the number format
            continue
        a, b = kernel(x, y, x0, s, "mean" if method == "mean" else "q", q)
        if b is None:
            c.check(np.all(np.abs(g[:, k] - a) <= tol),
                    f"at {x0}: {g[:, k]} expected {a}")
        else:
            c.check(np.all((g[:, k] >= a - tol) & (g[:, k] <= b + tol)),
                    f"at {x0}: {g[:, k]} expected {a}..{b}")
    c.event("positions", len(at))


@workload(P, quick=6, thorough=30, timeout=180)
def many(c):
    """long series, in any order"""
    n = int(c.pick(9999, 12000, 40000))
    x = np.arange(n) * .01
    y = np.cumsum(c.rng.normal(size=n))
    how = c.cycle(["two", "shuffled", "reversed", "two", "sorted"])
    p = c.rng.permutation(n) if how == "shuffled" else np.arange(n)
    if how == "two":
        k = int(c.rng.integers(1, n - 2))
        p[[k, k + 1]] = p[[k + 1, k]]
        if c.rng.random() < .3:
            p = p[::-1]
    elif how == "reversed":
        p = p[::-1]
    sig = float(c.rng.uniform(.01, .2))
    xr = c.rng.uniform(-1, n * .01 + 1, int(c.pick(5, 30)))
    bw = c.pick(None, 500)
    c.let(n=n, how=how, sigma=sig, bw=bw)
    got = np.ravel(translate.non_uniform_gaussian_filter(
        x[p], y[p], xr, sigma=sig, bw=bw))
    want = np.array([kernel(x, y[None], q, sig, "mean", 0)[0][0] for q in xr])
    near = np.min(np.abs(xr[:, None] - x), 1) / sig
    ok = (near < 20) | (near > 61)
    c.close(got[ok], want[ok], "smoothed", rtol=1e-6, atol=1e-6 * np.abs(y).max())
    c.event("positions", len(xr))


@workload(P, quick=60, thorough=600)
def edges(c):
    """unknown methods are refused; quantiles in gaps are those of the data there"""
    n = int(c.pick(2, 5, 30))
    x = c.rng.random(n) * 3
    y = c.rng.normal(size=n)
    bad = c.pick("mode", "avg", "max", "")
    c.let(n=n, bad=bad)
    c.raises(ValueError, lambda: translate.non_uniform_gaussian_filter(
        x, y, sigma=.3, amethod=bad), f"method {bad!r}")
    c.raises(Exception, lambda: translate.weighted_quantile(
        y, q=float(c.pick(-.1, 1.2)), weights=None), "quantile outside of 0..1")
    # far from all samples: linear between the neighbors, flat outside
    x = np.concatenate((x, x + 1e4))
    y = c.rng.normal(size=2 * n)
    if c.rng.random() < .3:
        y = np.round(y * 5).astype(int)
    xr = c.rng.permutation(np.array([5e3, -4e3, 3e4]))
    got = translate.non_uniform_gaussian_filter(x, y, xr, sigma=.3)
    o = np.argsort(x)
    flat = np.interp(xr, x[o], y[o])
    c.close(np.ravel(got), flat, "far from all samples", rtol=1e-9,
            atol=1e-12)
    qs = c.pick([.5], [.1, .9], [.2, .5, .8], [.9, .1, .5])
    bw = c.pick(None, 500)
    got = translate.non_uniform_gaussian_filter(x, y, xr, sigma=.3, amethod=qs, bw=bw)
    c.close(np.reshape(got, (len(qs), len(xr))), [flat] * len(qs),
            "quantiles far from all samples", rtol=1e-9, atol=1e-12)
    two = np.stack((y, -y, y + 1))
    got = translate.non_uniform_gaussian_filter(x, two, xr, sigma=.3, bw=bw,
                                                amethod=c.pick("median", "mean", .3))
    c.close(got, [flat, -flat, flat + 1], "features far from all samples", rtol=1e-9,
            atol=1e-12)
    for q in ([.2, .7], np.array((.1, .5, .9))):
        c.raises(ValueError, lambda: translate.non_uniform_gaussian_filter(
            x, two, xr, sigma=.3, amethod=q), "several quantiles of several features")
    for q in (-.1, 1.2, [.5, 2], np.nan):
        c.raises(ValueError, lambda: translate.non_uniform_gaussian_filter(
            x, y, xr, sigma=.3, amethod=q), f"quantile {q}")
    c.event("edges")


@workload(P, quick=15, thorough=150)
def command(c):
    n = int(c.pick(5, 30))
    cols = int(c.pick(2, 3, 4))
    data = c.rng.normal(size=(n, cols)) * 2
    f = c.path("d.txt")
    np.savetxt(f, data, fmt="%.17g")
    xc = int(c.rng.integers(cols))
    ycs = [int(q) for q in c.rng.permutation([k for k in range(cols) if k != xc])]
    ycs = ycs[:int(c.rng.integers(1, len(ycs) + 1))]
    sig = float(np.round(c.rng.uniform(.2, 2), 3))
    sf = c.pick(None, .5, 2., .08)
    xo = c.pick(["7"], ["-1.5", "0", "0.25", "3"], ["-1", "2.5"], ["2", "0.5"])
    auto = c.rng.random() < .4
    c.let(n=n, x=xc, y=ycs, sigma=None if auto else sig, sf=sf, x_out=xo)
    args = ["smooth", f, "-x", str(xc), "-y", " ".join(map(str, ycs)), "-x_out",
            " ".join(xo)]
    if not auto:
        args += ["-sigma", str(sig)]
    if sf is not None:
        args += ["-sf", str(sf)]
    r = CliRunner().invoke(cli.main, args)
    c.check(r.exit_code == 0, f"exit {r.exit_code} {r.output[-300:]} {r.exception!r}")
    lines = [ln.split() for ln in r.stdout.strip().split("\n")]
    got = np.array(lines, float)
    x = data[:, xc]
    at = np.linspace(x.min(), x.max(), 7) if len(xo) == 1 else np.array(xo, float)
    s = (np.sqrt(np.cov(x) * n ** -.4) if auto else sig) * (sf or 1)
    want = []
    for x0 in at:
        if np.min(np.abs(x - x0)) / s > 25:
            return
        want.append(kernel(x, data[:, ycs].T, x0, s, "mean", None)[0])
    c.close(got[:, 0], at, "x column", rtol=1e-9, atol=1e-12)
    c.close(got[:, 1:], np.array(want), "smoothed columns", rtol=1e-7, atol=1e-7)
    c.event("commands")


@workload(P, quick=15, thorough=150)
def density(c):
    """without y columns: the density of x, a sum of equal Gaussians"""
    n = int(c.pick(2, 5, 30, 200))
    cols = int(c.pick(1, 2, 3))
    scale = 10.0 ** float(c.rng.uniform(-3, 3))
    data = (c.rng.normal(size=(n, cols)) + c.rng.integers(0, 3, (n, 1)) * 4) * scale
    f = c.path("d.txt")
    np.savetxt(f, data[:, 0] if cols == 1 else data, fmt="%.17g")
    xc = int(c.rng.integers(cols))
    x = data[:, xc]
    auto = c.rng.random() < .6
    sig = float(c.rng.uniform(.1, 2) * scale)
    sf = c.pick(None, .5, 2.)
    few = c.rng.random() < .5
    at = np.linspace(x.min(), x.max(), 9) if few else np.array([x.min(), x.mean(), x.max()])
    c.let(n=n, cols=cols, x=xc, sigma=None if auto else sig, sf=sf)
    args = ["smooth", f, "-x", str(xc), "-x_out",
            "9" if few else " ".join(f"{q:.17g}" for q in at)]
    if not auto:
        args += ["-sigma", f"{sig:.17g}"]
    if sf is not None:
        args += ["-sf", str(sf)]
    r = CliRunner().invoke(cli.main, args)
    c.check(r.exit_code == 0, f"exit {r.exit_code} {r.output[-300:]} {r.exception!r}")
    got = np.array([ln.split() for ln in r.stdout.strip().split("\n")], float)
    if not few:
        # positions on the command line are rounded
        c.close(got[:, 0], at, "positions", rtol=1e-6, atol=2e-6)
        at = got[:, 0]
    # Scott's rule
    s = (np.std(x, ddof=1) * n ** -.2 if auto else sig) * (sf or 1)
    z = (at[:, None] - x) / s
    want = np.exp(-.5 * z * z).sum(1) / (n * s * np.sqrt(2 * np.pi))
    c.close(got[:, 0], at, "x column", rtol=1e-9, atol=1e-12 * scale)
    c.check(got.shape[1] == 2, f"{got.shape[1]} columns")
    c.close(got[:, 1], want, "density", rtol=1e-7, atol=1e-9 / scale)
    c.event("densities", len(at))
