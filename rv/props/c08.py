"""C08 parallel calls are equivalent to the serial loop"""
import concurrent.futures
import contextlib
import io as stdio
import os
import subprocess
import sys
import threading
import time

import numpy as np

from raytools import utility
from rv.core import workload

P = "C08"
LEVEL = "exploration"
RULE = ("tasks write start/end events to an append-only log from inside the workers; "
        "pool kinds x caps x injected delays x exceptions x worker deaths; an offline "
        "checker judges exactly-once, order, the concurrency bound and equality with the "
        "serial loop; distinct completion orders are counted")
ASSUMPTIONS = ["tasks terminate; the number of concurrently running tasks is bounded by "
               "the cap for process workers only (as documented)"]


HARNESS = os.getpid()


class Boom(Exception):
    pass


# (exceptions that machinery around the tasks gives a meaning of its own)
ERRORS = dict(raise_=Boom, key=KeyError, index=IndexError, value=ValueError,
              stop=StopIteration, time=TimeoutError, type=TypeError, attr=AttributeError,
              cancel=concurrent.futures.CancelledError, imp=ImportError,
              invalid=concurrent.futures.InvalidStateError)


def _emit(log, what, k):
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, f"{what} {k} {os.getpid()} {threading.get_ident()}\n".encode())
    finally:
        os.close(fd)


def task(k, delay, fate, log, big=0, *, factor=1, **kw):
    _emit(log, "start", k)
    time.sleep(delay)
    if fate in ERRORS:
        _emit(log, "end", k)
        raise ERRORS[fate](k, "message")
    if fate == "exit" and os.getpid() != HARNESS:
        os._exit(9)
    _emit(log, "end", k)
    r = (k, k * factor, sorted(kw.items()))
    if big:
        return r + (np.full(big, k),)
    return r


def one(arg, log, *, factor=1):
    """for calls without expansion"""
    k, delay, fate = arg[:3]
    return task(int(k), float(delay), fate, log, factor=factor)


def meet(k, n, folder):
    """true when n tasks run at the same time"""
    open(os.path.join(folder, str(k)), "w").close()
    t0 = time.monotonic()
    while time.monotonic() - t0 < 40:
        if all(os.path.exists(os.path.join(folder, str(j))) for j in range(n)):
            return True
        time.sleep(.002)
    return False


def read_log(log):
    if not os.path.exists(log):
        return []
    return [(a, int(k), int(p), int(t)) for a, k, p, t in
            (q.split() for q in open(log))]


def concurrency(ev):
    run = peak = 0
    for a, *_ in ev:
        run += 1 if a == "start" else -1
        peak = max(peak, run)
    return peak


ORDERS = set()


@workload(P, quick=110, thorough=1200, timeout=300)
def equivalent(c):
    n = int(c.pick(0, 1, 2, 3, 5, 8, 13, 24))
    kind = c.cycle(["fork", "t", "serial", "fork", "thread", "fork", "threads", "Thread",
                    "fork", "fork", "forkserver" if c.i % 3 == 0 else "fork"])
    cap = c.pick(None, 1, 2, 3, 4, 7)
    envcap = c.pick(None, None, 2, 3)
    expand = bool(c.rng.random() < .7)
    delays = c.rng.random(n) * c.pick(0, .002, .02)
    fates = ["ok"] * n
    mode = c.pick("ok", "ok", "ok", "raise", "raise2")
    if n and mode != "ok":
        for k in c.rng.choice(n, min(n, 1 + (mode == "raise2") * 2), replace=False):
            fates[int(k)] = c.pick("raise_", "raise_", *ERRORS)
    big = int(c.pick(0, 0, 0, 200000)) if expand else 0
    factor = int(c.rng.integers(1, 5))
    pbar = bool(c.rng.random() < .5)
    c.let(n=n, kind=kind, cap=cap, envcap=envcap, expand=expand, mode=mode, big=big,
          fates=fates, pbar=pbar)
    if envcap is not None:
        os.environ["RAYTOOLS_PROC_CAP"] = str(envcap)
    log = c.path("log")
    kw = dict(factor=factor)
    if expand:
        args = [(k, float(d), f) for k, (d, f) in enumerate(zip(delays, fates))]
        fixed = (log, big)
        if c.rng.random() < .5:
            kw.update(extra=c.pick("x", None, False, 0, ""), other=[1, 2])
        func = task
    else:
        args = [(k, float(d), f) for k, (d, f) in enumerate(zip(delays, fates))]
        fixed = (log,)
        func = one
    form = c.pick("list", "tuple", "list")
    if form == "tuple":
        args = tuple(args)
    keep = list(args)

    # the specification
    want, error = [], None
    for a in keep:
        if a[2] in ERRORS:
            error = a[0]
            break
        r = (a[0], a[0] * factor, sorted((k, v) for k, v in kw.items() if k != "factor"))
        want.append(r)
    workers = {"serial": c.pick(False, None, 0), "fork": True, "forkserver": True}.get(
        kind, kind)
    ctx = "forkserver" if kind == "forkserver" else "fork"
    err = stdio.StringIO()
    got = raised = None
    with contextlib.redirect_stderr(err):
        try:
            got = utility.pool_call(func, args, *fixed, cap=cap, expandarg=expand,
                                    workers=workers, pbar=pbar, context=ctx, desc="d",
                                    **kw)
        except BaseException as ex:
            if not isinstance(ex, tuple(ERRORS.values())):
                raise
            raised = ex
    if error is None:
        c.check(raised is None, f"raised {raised!r} though no task does")
        c.check(isinstance(got, list) and len(got) == n,
                f"{len(got) if hasattr(got, '__len__') else got} results for {n} tasks")
        for k in range(n):
            c.same(tuple(got[k][:3]), want[k], f"result {k}")
            if big:
                c.check(len(got[k][3]) == big and np.all(got[k][3] == k), "payload")
    else:
        c.check(raised is not None, f"the exception of task {error} was lost, got {got}")
        c.same(raised.args, (error, "message"), "the exception of the first failing task")
        c.same(type(raised), ERRORS[fates[error]], "its type")
    c.same(list(args), keep, "the argument list was modified")
    # offline checker: wait (bounded) until tasks still running have logged their end
    t0 = time.monotonic()
    while time.monotonic() - t0 < 30:
        ev = read_log(log)
        if error is None or kind == "serial":
            break
        starts = sum(q[0] == "start" for q in ev)
        if starts == len(ev) - starts and (starts == n or time.monotonic() - t0 > 1):
            break
        time.sleep(.01)
    starts = [q[1] for q in ev if q[0] == "start"]
    ends = [q[1] for q in ev if q[0] == "end"]
    c.check(len(set(starts)) == len(starts), f"a task ran twice: {sorted(starts)}")
    if error is None:
        c.same(sorted(starts), list(range(n)), "every task runs exactly once")
        c.same(sorted(ends), list(range(n)), "every task finishes before the call returns")
    pids = {q[2] for q in ev}
    if kind == "serial":
        c.same(starts, list(range(n if error is None else error + 1)),
               "serial calls are made in order and stop at the exception")
        c.check(pids <= {os.getpid()}, "serial calls stay in this process")
        c.check(concurrency(ev) <= 1, "serial calls overlap")
    elif kind in ("fork", "forkserver"):
        c.check(os.getpid() not in pids, "process workers run in other processes")
        limit = cap if cap is not None else (envcap or os.cpu_count())
        c.check(len(pids) <= limit, f"{len(pids)} worker processes, cap {limit}")
        c.check(concurrency(ev) <= limit, f"{concurrency(ev)} concurrent tasks, cap "
                f"{limit}")
    else:
        c.check(pids <= {os.getpid()}, "thread workers run in this process")
        c.check(threading.get_ident() not in {q[3] for q in ev},
                "thread workers are other threads")
    c.event("task_events", len(ev))
    c.event("max_concurrency_sum", concurrency(ev))
    if n > 2 and kind != "serial":
        ORDERS.add(tuple(ends))
        c.run.events["distinct_completion_orders"] = len(ORDERS)
        if ends != sorted(ends):
            c.event("out_of_order_completions")


def named(arg, log, *, tag=None):
    """any kind of argument: its text, and that it was called"""
    with open(log, "a") as f:
        f.write(repr(arg) + "\n")
    return repr(arg), tag, os.getpid()


def several(a, b, log, *, tag=None):
    return named((a, b), log, tag=tag)


@workload(P, quick=30, thorough=300, timeout=300)
def repeats(c):
    """equal arguments are separate tasks; arguments of every type and container arrive
    as they are"""
    kind = c.cycle(["fork", "t", "serial", "threads"])
    pool = [("a", "b"), (1, 1.0, True), ((), (1,), None), ("ab", "", b"ab"),
            ([1, 2], {"k": 1}, {1})][c.i // 4 % 5]
    n = int(c.rng.integers(1, 9))
    expand = bool(c.rng.random() < .3)
    args = [c.pick(*[(q,) for q in pool])[0] for _ in range(n)]
    if c.rng.random() < .3:
        args = [args[0]] * n
    log = c.path("log")
    form = c.pick(list, tuple)
    tag = c.pick(None, {"x": 1}, "t")
    c.let(kind=kind, args=[repr(a) for a in args], expand=expand)
    kw = dict(workers={"serial": False, "fork": True}.get(kind, kind), pbar=False,
              cap=c.pick(1, 2, 3), tag=tag)
    if expand:
        pairs = [(a, k) for k, a in enumerate(args)]
        if c.rng.random() < .5:
            pairs = [list(q) for q in pairs]
        elif all(isinstance(a, str) and len(a) == 2 for a in args):
            pairs = args
        got = utility.pool_call(several, pairs, log, **kw)
        want = [repr(tuple(q)) for q in pairs]
    else:
        got = utility.pool_call(named, form(args), log, expandarg=False, **kw)
        want = [repr(q) for q in args]
    c.same([g[0] for g in got], want, "results, in order")
    c.same([g[1] for g in got], [tag] * n, "keyword")
    c.same(sorted(open(log).read().splitlines()), sorted(want),
           "every argument is called once, also when equal ones are given")
    c.event("task_events", n)


def back(what):
    return what


def parts(*args, **kw):
    return args


RESULTS = [None, False, True, 0, 0.0, "", "None", (), [], {}, b"", float("inf"), -1,
           (None, None), [None], ValueError("a result"), np.zeros(0), np.zeros((0, 3)), np.float32(0), np.array(None), StopIteration("r"), "ab", {1: 2}]


@workload(P, quick=30, thorough=300, timeout=300)
def results(c):
    """what a task returns is what the caller gets, also nothing; sequences of every
    type are expanded to arguments"""
    kind = c.cycle(["fork", "t", "serial", "fork", "threads"])
    n = int(c.rng.integers(1, 8))
    kw = dict(workers={"serial": False, "fork": True}.get(kind, kind), pbar=False,
              cap=c.pick(1, 2, 3))
    vals = [RESULTS[int(k)] for k in c.rng.integers(0, len(RESULTS), n)]
    c.let(kind=kind, vals=[repr(v) for v in vals])
    for got in (utility.pool_call(back, vals, expandarg=False, **kw),
                utility.pool_call(back, [(v,) for v in vals], **kw)):
        c.same([(type(g), repr(g)) for g in got], [(type(v), repr(v)) for v in vals],
               "results")
    size = int(c.rng.integers(0, 4))
    seqs = [c.pick("abc"[:size], tuple("abc"[:size]), list("abc"[:size]),
                   np.arange(size), range(size)) for _ in range(n)]
    got = utility.pool_call(parts, seqs, "fixed", **kw)
    c.same([repr(g) for g in got], [repr((*s, "fixed")) for s in seqs],
           "sequences are expanded to arguments")
    c.event("task_events", 3 * n)


@workload(P, quick=10, thorough=60, timeout=300)
def rendezvous(c):
    """as many tasks as the cap allows do run at the same time"""
    kind = c.cycle(["fork", "threads", "fork", "t"])
    cap = int(c.rng.integers(2, 5))
    c.let(kind=kind, cap=cap)
    d = c.path("meet")
    os.mkdir(d)
    got = utility.pool_call(meet, [(k,) for k in range(cap)], cap, d, cap=cap, pbar=False,
                            workers=True if kind == "fork" else kind)
    c.same(got, [True] * cap, "tasks run concurrently")


def slow(k, wait):
    time.sleep(wait)
    return k


def odd(k):
    return k * 2 + 1


@workload(P, quick=3, thorough=12, timeout=300)
def scale(c):
    """more tasks than any buffer holds; tasks that take their time"""
    if c.i % 3 == 1:
        n = int(c.rng.integers(2, 5))
        wait = float(c.rng.uniform(2.5, 3.5)) if c.run.tier == "quick" else \
            float(c.rng.uniform(3, 12))
        kind = c.pick(True, "t")
        c.let(n=n, wait=wait, workers=kind)
        t0 = time.monotonic()
        got = utility.pool_call(slow, [(k, wait if k == 1 else 0.) for k in range(n)],
                                cap=c.pick(1, 2, 4), workers=kind, pbar=False)
        c.same(got, list(range(n)), "slow tasks are waited for")
        c.check(time.monotonic() - t0 >= wait, "returned before the task")
    else:
        n = int(c.rng.integers(4500, 9000))
        # (processes need a second for that many)
        kind = "t" if c.i % 3 == 0 else True
        expand = bool(c.rng.random() < .5)
        c.let(n=n, workers=kind, expand=expand)
        args = [(k,) if expand else k for k in range(n)]
        got = utility.pool_call(odd, args, cap=c.pick(2, 4, 8), workers=kind, pbar=False,
                                expandarg=expand)
        c.same(got, [k * 2 + 1 for k in range(n)], "one result per task in order")
    c.event("task_events", n)


@workload(P, quick=8, thorough=60, timeout=300)
def death(c):
    """a worker process which dies is reported, never a result or a hang"""
    n = int(c.rng.integers(2, 8))
    fates = ["ok"] * n
    fates[int(c.rng.integers(n))] = "exit"
    cap = c.pick(1, 2, 3)
    c.let(n=n, fates=fates, cap=cap)
    log = c.path("log")
    args = [(k, .001, f) for k, f in enumerate(fates)]
    ex = c.raises(Exception, lambda: utility.pool_call(task, args, log, cap=cap,
                                                       pbar=False), "dead worker")
    c.event("raised_" + type(ex).__name__)
    # and a new pool works afterwards
    log2 = c.path("log2")
    got = utility.pool_call(task, [(k, 0., "ok") for k in range(3)], log2, cap=2,
                            pbar=False)
    c.same([g[0] for g in got], [0, 1, 2], "the next call is not affected")


ALONE = """
import os, sys
from raytools import utility
me = os.getpid()
def die(*a):
    os._exit(7)
def pid(*a):
    return os.getpid()
n, cap, ctx, expand = int(sys.argv[1]), eval(sys.argv[2]), sys.argv[3], eval(sys.argv[4])
arg = ("x",) if expand else "x"
kw = dict(cap=cap, pbar=False, context=ctx, expandarg=expand)
if ctx == "fork":
    print("other", all(p != me for p in utility.pool_call(pid, [arg] * n, **kw)))
try:
    r = utility.pool_call(os._exit if ctx != "fork" else die,
                          [(7,) if expand else 7] * n, **kw)
    print("returned", r)
except Exception as ex:
    print("raised")
"""


@workload(P, quick=6, thorough=40, timeout=300)
def alone(c):
    """tasks without fixed arguments, also a single one, run in processes of their own:
    one that dies does not take the caller with it"""
    n = int(c.cycle([1, 2, 1, 5]))
    cap = c.pick(1, 2, None)
    ctx = c.pick("fork", "fork", "forkserver")
    expand = bool(c.i % 2)
    c.let(n=n, cap=cap, context=ctx, expand=expand)
    p = subprocess.run([sys.executable, "-c", ALONE, str(n), repr(cap), ctx, repr(expand)],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
    out = p.stdout.decode().split("\n")[:-1]
    c.same(p.returncode, 0, "the caller lives on")
    c.same(out, ["other True"] * (ctx == "fork") + ["raised"], "outcome")
    c.event("dead_workers")
