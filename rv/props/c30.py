"""C30 metric values do not depend on what was asked before, in which order, or by
which thread"""
import threading
import time
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from raytools.evaluate import BaseMetricSet, ColorMetricSet, MetricSet
from raytools.mapper import ViewMapper
from raytools.utility import pool_call
from rv import gen
from rv.core import workload
from rv.props.c28 import BASE, FULL, rays

P = "C30"
LEVEL = "exploration"
RULE = ("recorded histories of metric requests on several objects at once (random "
        "interleavings, properties and calls, threads with injected switches); an "
        "offline checker compares every recorded value with the value a fresh object "
        "gives for this one request; distinct interleavings are counted")
ASSUMPTIONS = ["objects are not modified by the caller"]
EXTRA = ["ctheta", "radians", "pos_idx", "pweight", "pweighted_area"]
EXTRA2 = EXTRA + ["src_mask", "task_mask", "source_pos_idx", "sources", "background"]


def make(c, tag=None):
    vd = gen.unit(gen.direction(c.rng))
    v, o, l, kind = rays(c, vd, np.pi / 2 * .95, c.pick("sources", "sun", "plain"))
    cls = c.pick(MetricSet, MetricSet, ColorMetricSet, BaseMetricSet)
    if cls is ColorMetricSet:
        l = l[:, None] * (c.rng.random((len(l), 3)) + .1)
    kw = dict(threshold=float(c.pick(5, 500, 2000))) if cls is not BaseMetricSet else {}
    vm = ViewMapper(vd, 180)
    names = (BASE + EXTRA if cls is BaseMetricSet else FULL + EXTRA2) + \
        (["irradiance"] if cls is ColorMetricSet else [])
    return (lambda: cls(v, o, l, vm, **kw)), names, (v, o, l)


def freeze(x):
    if isinstance(x, tuple):
        return tuple(freeze(q) for q in x)
    return np.array(x)


def equal(c, a, b, what):
    if isinstance(b, tuple):
        c.check(isinstance(a, tuple) and len(a) == len(b), what)
        for p, q in zip(a, b):
            equal(c, p, q, what)
        return
    c.close(a, b, what, rtol=1e-12)


def ask(m, what):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            if isinstance(what, list):
                return freeze(m(what))
            return freeze(getattr(m, what))


def request(c, names):
    if c.rng.random() < .2:
        ok = [q for q in names if q not in EXTRA2]
        return [str(q) for q in c.rng.permutation(ok)[:int(c.rng.integers(1, 6))]]
    return str(c.pick(names))


@workload(P, quick=120, thorough=1500)
def histories(c):
    """one thread, several objects"""
    n = int(c.pick(1, 2, 3))
    objs = [make(c) for _ in range(n)]
    live = [f() for f, _, _ in objs]
    keep = [[q.copy() for q in d] for _, _, d in objs]
    log = []
    for _ in range(int(c.pick(10, 40))):
        k = int(c.rng.integers(n))
        if c.rng.random() < .05:
            live[k] = objs[k][0]()
        r = request(c, objs[k][1])
        log.append((k, r, ask(live[k], r)))
    c.let(n=n, requests=[(k, r) for k, r, _ in log][:12])
    for k, r, got in log:
        equal(c, got, ask(objs[k][0](), r), f"object {k}: {r}")
    for d, q in zip(objs, keep):
        for a, b in zip(d[2], q):
            c.same(a, b, "the arrays of the caller")
    c.event("requests", len(log))


@workload(P, quick=60, thorough=800, timeout=200)
def threads(c):
    """several threads share objects"""
    n = int(c.pick(1, 2, 4))
    objs = [make(c) for _ in range(n)]
    live = [f() for f, _, _ in objs]
    nt = int(c.pick(2, 4, 8))
    plans = []
    for t in range(nt):
        plan = []
        for _ in range(15):
            k = int(c.rng.integers(n))
            plan.append((k, request(c, objs[k][1]), float(c.rng.random() * 5e-4
                                                          if c.rng.random() < .3 else 0)))
        plans.append(plan)
    log, lock = [], threading.Lock()
    gate = threading.Barrier(nt)

    def work(t):
        gate.wait()
        for k, r, delay in plans[t]:
            if delay:
                time.sleep(delay)
            v = ask(live[k], r)
            with lock:
                log.append((t, k, r, v))

    import sys
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with ThreadPoolExecutor(nt) as ex:
            for f in [ex.submit(work, t) for t in range(nt)]:
                f.result()
    finally:
        sys.setswitchinterval(old)
    c.let(n=n, threads=nt)
    c.check(len(log) == nt * 15, "requests were lost")
    fresh = {}
    for t, k, r, got in log:
        key = (k, str(r))
        if key not in fresh:
            fresh[key] = ask(objs[k][0](), r)
        equal(c, got, fresh[key], f"thread {t}, object {k}: {r}")
    c.params["interleaving"] = hash(tuple(q[0] for q in log)) & 0xffffffff
    c.event("requests", len(log))
    c.event("switches", sum(a[0] != b[0] for a, b in zip(log, log[1:])))


@workload(P, quick=60, thorough=600)
def twins(c):
    """objects which look alike (same view, number of rays, first and last rays, sums,
    the same arrays with other content) do not answer for each other"""
    vd = gen.unit(gen.direction(c.rng))
    v, o, l, kind = rays(c, vd, np.pi / 2 * .95, c.pick("sources", "sun", "plain"))
    n = len(o)
    cls = c.pick(MetricSet, MetricSet, ColorMetricSet, BaseMetricSet)
    if cls is ColorMetricSet:
        l = l[:, None] * (c.rng.random((n, 3)) + .1)
    names = [str(q) for q in c.rng.permutation(
        (BASE if cls is BaseMetricSet else FULL))[:6]] + ["pwgcr"]
    names += ["pos_idx", "ctheta"]
    vm = ViewMapper(vd, 180)
    p = np.arange(n)
    if n > 3:
        p[1:-1] = c.rng.permutation(p[1:-1])
    how = c.cycle(["vec", "lum", "omega", "all", "view", "kw", "inplace", "scale", "guth"])
    kw = dict(threshold=float(c.pick(5, 500, 2000))) if cls is not BaseMetricSet else {}
    kw2 = dict(kw)
    v2, o2, l2, vm2 = v, o, l, vm
    if how in ("vec", "all", "inplace"):
        v2 = v[p]
    if how in ("lum", "all", "inplace"):
        l2 = l[p]
    if how in ("omega", "all", "inplace"):
        o2 = o[p]
    if how == "view" and n > 50:
        vm2 = ViewMapper(gen.unit(np.array(vd) + gen.sphere(c.rng, 1)[0] * .2), 180)
    elif how == "kw" and kw:
        kw2["threshold"] = float(c.pick(4, 700, 1500))
    elif how == "scale":
        kw2["scale"] = 100.
    elif how == "guth":
        kw2["guth"] = False
    c.let(n=n, how=how, cls=cls.__name__, names=names)
    big = gen.sphere(c.rng, 77)
    lb = c.rng.random((77, 3) if cls is ColorMetricSet else 77)

    def other():
        m = cls(big, np.full(77, .08), lb, ViewMapper(-np.array(vd), 180), threshold=3.) \
            if kw else cls(big, np.full(77, .08), lb, ViewMapper((0, 0, 1), 180))
        for k in names:
            ask(m, k)

    def val(m):
        return [ask(m, k) for k in names]

    def a():
        return val(cls(v, o, l, vm, **kw))

    def b():
        return val(cls(v2, o2, l2, vm2, **kw2))
    other()
    ra = a()
    other()
    rb = b()
    if how == "inplace":
        # the same arrays, with other content
        w = [v.copy(), o.copy(), l.copy()]
        m1 = cls(*w, vm, **kw)
        x = val(m1)
        for q, z in zip(w, (v2, o2, l2)):
            q[:] = z
        y = val(cls(*w, vm, **kw))
        seq = [(x, ra), (y, rb)]
    else:
        seq = [(a(), ra), (b(), rb), (b(), rb), (a(), ra)]
    for got, want in seq:
        for g, w, k in zip(got, want, names):
            equal(c, g, w, f"{k} next to an object with other {how}")
    if how in ("all", "inplace"):
        for g, w, k in zip(rb, ra, names):
            if np.size(g) == 1 and k not in ("pos_idx", "ctheta"):
                c.close(g, w, f"{k} of the same rays in another order", rtol=1e-6,
                        atol=1e-6)
    c.event("requests", 6 * len(names))


def one(f):
    return [float(q) for q in np.ravel(f[0](f[1], f[2], f[3], ViewMapper(f[4], 180),
                                            f[5])())]


@workload(P, quick=12, thorough=100, timeout=200)
def workers(c):
    """thread and process pools compute what a loop computes"""
    jobs = []
    for _ in range(6):
        vd = gen.unit(gen.direction(c.rng))
        v, o, l, kind = rays(c, vd, np.pi / 2 * .95, "sources")
        names = [str(q) for q in c.rng.permutation(FULL)[:4]]
        jobs.append((MetricSet, v, o, l, vd, names))
    kind = c.pick(True, "threads")
    c.let(workers=kind)
    with np.errstate(all="ignore"):
        want = [one(j) for j in jobs]
        got = pool_call(one, jobs, expandarg=False, workers=kind, cap=3, pbar=False)
    for a, b in zip(got, want):
        c.close(a, b, "pool", rtol=1e-12)
    c.event("jobs", len(jobs))


@workload(P, quick=40, thorough=300)
def names(c):
    """the list of metrics belongs to the object, unknown names are refused"""
    f, ns, (v, o, l) = make(c)
    m = f()
    cls = type(m)
    before = {k: list(getattr(k, "defaultmetrics")) for k in
              (BaseMetricSet, MetricSet, ColorMetricSet)}
    ok = [q for q in ns if q not in EXTRA2]
    pick = [str(q) for q in c.rng.permutation(ok)[:3]]
    c.let(cls=cls.__name__, metrics=pick)
    form = c.pick(list, tuple, np.array)
    c.let(form=form.__name__)
    arg = form(pick)
    a = cls(v, o, l, m.vm, arg)
    c.same(list(arg), pick, "the list of the caller")
    for k, q in before.items():
        c.same(list(k.defaultmetrics), q, "default metrics of the class")
    b = cls(v, o, l, m.vm)
    flat = [q for k in before[cls] for q in np.ravel(ask(b, k))]
    equal(c, ask(b, list(before[cls])), np.array(flat), "default metrics")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            c.close(b(), flat, "default metrics by call", rtol=1e-12)
            c.close(a(), [q for k in pick for q in np.ravel(ask(a, k))],
                    "requested metrics, in order", rtol=1e-12)
            c.close(a(), a(), "again", rtol=0)
            more = [str(q) for q in c.rng.permutation(ok)[:4]]
            c.close(a(form(more)), [q for k in more for q in np.ravel(ask(b, k))],
                    "metrics of one call", rtol=1e-12)
            c.close(a(), [q for k in pick for q in np.ravel(ask(a, k))],
                    "a call for others does not change the object's list", rtol=1e-12)
            if c.rng.random() < .5:
                # the list given by the caller may change later
                last = list(pick)
                z = cls(v, o, l, m.vm, last)
                z.check_metrics(last)
                c.same(last, pick, "the list of the caller")
            # with the warnings of numpy passed on
            keep = warnings.catch_warnings(record=True)
            with keep:
                warnings.simplefilter("always")
                y = cls(v, o, l, m.vm, form(pick), warn=True)
                c.close(y(), a(), "metrics with warnings", rtol=1e-12)
                c.close(y(form(more)), a(form(more)), "metrics with warnings", rtol=1e-12)
            d = cls(v, o, l, m.vm)
            c.close(d(), flat, "default metrics of a later object", rtol=1e-12)
    bad = c.pick("nope", "vec", "DGP", "")
    mixed = pick + [bad]
    c.rng.shuffle(mixed)
    c.raises(AttributeError, lambda: cls(v, o, l, m.vm, mixed), "unknown metric")
    c.raises(AttributeError, lambda: b(mixed), "unknown metric in a call")
    c.raises(AttributeError, lambda: cls.check_metrics(mixed, True), "check_metrics")
    c.same(list(cls.check_metrics(form(pick), True)), pick, "all names are known")
    c.check(set(ok) <= set(cls.allmetrics), "the metrics of the class")
    c.same(list(cls.check_metrics(mixed)), [q for q in mixed if q != bad],
           "check_metrics keeps the known ones")
    for k, q in before.items():
        c.same(list(k.defaultmetrics), q, "default metrics of the class")
    c.event("names")
