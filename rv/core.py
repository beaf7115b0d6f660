"""The runner shared by every check.

A property module registers *workloads*.  A workload is run for a number of
cases; every case gets its own random generator, seeded from
(VERIF_SEED, property, workload, case number), so one case replays alone.
The real code in /repo is executed by the case, the oracle (monitor) of the
workload judges what it observed through ``Case.check``/``Case.close``.

Verdicts: held (exit 0), violated (exit 1 and a VIOLATION line), inconclusive
(exit 3: a deciding monitor was never reached, or the harness broke).
"""
import errno
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")


class HarnessError(Exception):
    """the harness (not the code under test) is broken"""


class CaseTimeout(BaseException):
    pass


class SkipCase(Exception):
    """generated input is outside of the property's quantifier"""


class _Fail(Exception):
    """violation recorded, leave the case"""


def _jsonable(o, depth=0):
    if depth > 4:
        return str(o)[:200]
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(o.items())[:40]}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in o[:40]]
    if isinstance(o, np.ndarray):
        if o.size > 24:
            return {"shape": list(o.shape), "dtype": str(o.dtype),
                    "head": _jsonable(o.ravel()[:12].tolist(), depth + 1)}
        return _jsonable(o.tolist(), depth + 1)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        o = float(o)
        return o if np.isfinite(o) else str(o)
    if isinstance(o, bytes):
        return repr(o[:120])
    if o is None or isinstance(o, (bool, int, str)):
        return o if not isinstance(o, str) else o[:600]
    return str(o)[:300]


WORKLOADS = {}


#: factors to the number of quick cases, so that every check takes some 10 s
SCALE = dict(C03=2, C04=3, C05=6, C06=4, C09=5, C10=3, C11=12, C12=6, C13=6, C14=2,
             C15=4, C16=4, C17=4, C18=5, C19=3, C20=4, C21=2, C22=8, C23=3, C24=4,
             C25=4, C28=5, C29=3, C30=3, C31=4, C32=6, C34=10)


def workload(prop, quick=20, thorough=200, timeout=120, need=True):
    """register func(case) as a workload of prop"""

    def deco(func):
        nq = quick * SCALE.get(prop, 1)
        WORKLOADS.setdefault(prop, []).append(
            dict(func=func, name=func.__name__, quick=nq,
                 thorough=max(thorough, 4 * nq), timeout=timeout, need=need))
        return func

    return deco


class Case:
    """one execution: generator, monitors and scratch directory"""

    def __init__(self, run, wname, i, rng):
        self.run = run
        self.wname = wname
        self.i = i
        self.rng = rng
        self.params = {}
        self.checks = 0
        self._tmp = None
        self.tier = run.tier
        self.thorough = run.tier == "thorough"

    # ---- inputs
    def let(self, **kw):
        """record the parameters which describe this case"""
        self.params.update(kw)
        return self

    def pick(self, *options):
        """one of options (a single list is expanded)"""
        if len(options) == 1:
            options = options[0]
        options = list(options)
        return options[int(self.rng.integers(len(options)))]

    def cycle(self, options):
        """options in turn with the case number (covers all of them)"""
        options = list(options)
        return options[self.i % len(options)]

    @property
    def tmp(self):
        if self._tmp is None:
            # the same folder for every case: files of one name hold other data
            # in the next case, so that nothing can be remembered by name
            self._tmp = os.path.join(self.run.scratch, "case")
            shutil.rmtree(self._tmp, ignore_errors=True)
            os.makedirs(self._tmp)
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def close_tmp(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # ---- monitors
    def event(self, name, n=1):
        """count what a monitor observed"""
        self.run.events[name] = self.run.events.get(name, 0) + int(n)

    def fail(self, what, **witness):
        self.run.violation(self, what, witness)
        raise _Fail(what)

    def check(self, cond, what, **witness):
        self.checks += 1
        self.run.nchecks += 1
        if not bool(cond):
            self.fail(what, **witness)

    def close(self, got, want, what, rtol=1e-7, atol=0.0, **witness):
        """arrays agree (same shape; |got-want| <= atol + rtol*|want|, nan equals
        nan)"""
        self.checks += 1
        self.run.nchecks += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape}, expected {w.shape}", **witness)
        if g.size == 0:
            return
        try:
            g = g.astype(float)
        except (TypeError, ValueError):
            self.fail(f"{what}: not numeric {g.dtype}", **witness)
        w = w.astype(float)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - w) <= (atol + rtol * np.abs(w))) | (g == w) |
                    (np.isnan(g) & np.isnan(w)))
        if np.any(bad):
            k = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.shape else ()
            self.fail(f"{what}: {int(np.sum(bad))} of {bad.size} values differ, "
                      f"first at {tuple(int(q) for q in k)}: got {g[k]!r} "
                      f"expected {w[k]!r}", **witness)

    def same(self, got, want, what, **witness):
        """bit for bit equality of arrays (or == of other values)"""
        self.checks += 1
        self.run.nchecks += 1
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                self.fail(f"{what}: shape {g.shape}, expected {w.shape}", **witness)
            eq = g == w
            if g.dtype.kind == "f" and w.dtype.kind == "f":
                eq = eq | (np.isnan(g) & np.isnan(w))
            if not np.all(eq):
                k = int(np.argmin(np.ravel(eq)))
                self.fail(f"{what}: element {k} is {g.ravel()[k]!r} expected "
                          f"{w.ravel()[k]!r}", **witness)
        elif got != want:
            self.fail(f"{what}: got {got!r} expected {want!r}", **witness)

    def raises(self, exc, func, what, **witness):
        self.checks += 1
        self.run.nchecks += 1
        try:
            r = func()
        except exc as ex:
            return ex
        except (Exception, SystemExit) as ex:
            self.fail(f"{what}: raised {type(ex).__name__}: {ex} instead of "
                      f"{exc}", **witness)
        self.fail(f"{what}: returned {str(_jsonable(r))[:200]} instead of "
                  f"raising", **witness)

    def known(self, key, what, **witness):
        """the oracle saw a defect which matches a known mechanism `key`"""
        self.checks += 1
        self.run.nchecks += 1
        self.run.known_seen(self, key, what, witness)


class Run:

    def __init__(self, prop, tier, seed, replay=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.replay = replay
        self.events = {}
        self.nchecks = 0
        self.violations = []
        self.knowns = {}
        self.cases = 0
        self.skipped = 0
        self.signatures = set()
        self.samples = []
        self.per_workload = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix=f"rv{prop}_")
        self.known_table = load_known()
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)

    def violation(self, case, what, witness):
        rec = dict(property=self.prop, workload=case.wname, case=case.i,
                   seed=self.seed, tier=self.tier, what=what,
                   params=_jsonable(case.params), witness=_jsonable(witness),
                   replay=f"python3 /verif/check.py {self.prop} --replay <this file>")
        self.violations.append(rec)

    def known_seen(self, case, key, what, witness):
        if key not in self.known_table.get(self.prop, {}):
            self.violation(case, f"{what} (mechanism {key} is not listed)", witness)
            raise _Fail(what)
        k = self.knowns.setdefault(key, dict(count=0, what=what))
        k["count"] += 1
        self.events["known:" + key] = self.events.get("known:" + key, 0) + 1

    def go(self, only=None):
        wls = WORKLOADS.get(self.prop, [])
        if not wls:
            raise HarnessError(f"no workloads for {self.prop}")
        t0 = time.time()
        soft = float(os.environ.get("RV_BUDGET", 420 if self.tier == "quick" else 1500))
        inconclusive = []
        for wl in wls:
            if only and wl["name"] != only[0]:
                continue
            n = wl[self.tier]
            done = 0
            idx = range(n) if not only else [only[1]]
            tw = time.time()
            nviol = 0
            for i in idx:
                if time.time() - t0 > soft and done > 0:
                    break
                viol = len(self.violations)
                ok = self.one(wl, i)
                done += ok
                nviol += len(self.violations) > viol
                if nviol >= 3:
                    break
            self.per_workload[wl["name"]] = dict(cases=done,
                                                 wall_s=round(time.time() - tw, 2))
            if done == 0 and nviol == 0 and wl["need"]:
                inconclusive.append(f"workload {wl['name']} judged no case")
        self.wall = time.time() - t0
        return inconclusive

    def one(self, wl, i):
        h = zlib.crc32(f"{self.prop}/{wl['name']}".encode())
        rng = np.random.default_rng([self.seed & 0xffffffff, h, i])
        case = Case(self, wl["name"], i, rng)
        cwd = os.getcwd()
        env = dict(os.environ)
        err = np.geterr()

        def onalarm(*a):
            raise CaseTimeout()

        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(wl["timeout"])
        try:
            wl["func"](case)
        except SkipCase:
            self.skipped += 1
            return 0
        except _Fail:
            pass
        except HarnessError:
            raise
        except CaseTimeout:
            tb = traceback.format_exc(limit=-6)
            self.violation(case, f"no result within {wl['timeout']} s (bounded "
                                 f"progress)", dict(trace=tb[-1500:]))
        except (Exception, SystemExit) as ex:
            tb = traceback.format_exc()
            # the machine, not the code, is at fault
            if (isinstance(ex, MemoryError) or
                    (isinstance(ex, OSError) and
                     ex.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM,
                                  errno.EAGAIN))):
                raise HarnessError(f"{self.prop}/{wl['name']}/{i}: "
                                   f"{json.dumps(_jsonable(case.params))}\n{tb}")
            src = "the call" if _from_repo(ex) else "the oracle, on what was returned,"
            self.violation(case, f"{src} raised {type(ex).__name__}: {ex}",
                           dict(trace=tb[-1800:]))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            case.close_tmp()
            os.chdir(cwd)
            np.seterr(**err)
            if dict(os.environ) != env:
                os.environ.clear()
                os.environ.update(env)
        self.cases += 1
        if case.checks > 0:
            sig = hashlib.sha1(json.dumps([wl["name"], _jsonable(case.params)],
                                          sort_keys=True, default=str)
                               .encode()).hexdigest()
            self.signatures.add(sig)
        if i in (0, 1) and len(self.samples) < 24:
            self.samples.append(dict(workload=wl["name"], case=i,
                                     params=_jsonable(case.params),
                                     oracle_checks=case.checks))
        return 1

    def finish(self, inconclusive, level, rule):
        shutil.rmtree(self.scratch, ignore_errors=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(evaluations=self.cases,
                                distinct_nontrivial=len(self.signatures),
                                rule=rule, samples=self.samples,
                                oracle_checks=self.nchecks,
                                monitor_events=self.events,
                                workloads=self.per_workload,
                                skipped=self.skipped,
                                known_findings={k: v["count"]
                                                for k, v in self.knowns.items()},
                                inconclusive=inconclusive),
                  assumptions=self.assumptions,
                  wall_s=round(self.wall, 3), violations=len(self.violations))
        with open(os.path.join(self.evdir, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, v in sorted(self.knowns.items()):
            print(f"KNOWN-FINDING: property={self.prop} {key}: "
                  f"{self.known_table[self.prop][key]} ({v['count']} observations)")
        if self.violations:
            rdir = os.path.join(self.evdir, "replay")
            os.makedirs(rdir, exist_ok=True)
            for k, v in enumerate(self.violations[:10]):
                p = os.path.join(rdir, f"{self.prop}-{k}.json")
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print(f"  {v['workload']}[{v['case']}]: {v['what']}"[:700])
                print(f"VIOLATION property={self.prop} replay={p}")
            return 1
        if inconclusive:
            print(f"INCONCLUSIVE property={self.prop}: {'; '.join(inconclusive)}")
            return 3
        print(f"held: property={self.prop} cases={self.cases} "
              f"distinct={len(self.signatures)} oracle_checks={self.nchecks} "
              f"wall={self.wall:.1f}s")
        return 0


def _from_repo(ex):
    """was the exception raised while code of /repo was on the stack?"""
    seen = set()
    while ex is not None and id(ex) not in seen:
        seen.add(id(ex))
        tb = ex.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
                return True
            tb = tb.tb_next
        ex = ex.__cause__ or ex.__context__
    return False


def load_known():
    """known findings: {property: {mechanism key: text}}"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.isfile(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding: property="):
            continue
        _, prop, key, text = line.split(None, 3)
        out.setdefault(prop.split("=", 1)[1], {})[key.split("=", 1)[1]] = text
    return out
