"""C07 the worker cap and the Radiance path follow their documented settings"""
import os
import subprocess
import sys

import numpy as np
from click.testing import CliRunner

import raytools
from raytools import cli, io
from raytools.utility import TStqdm
from rv.core import workload

P = "C07"
LEVEL = "exploration"
RULE = ("random histories of cap changes (API, environment, command line) next to a "
        "one-variable model; every read of the cap and every pool size is compared; "
        "RAYPATH settings are judged after in-process and fresh-process imports")
ASSUMPTIONS = ["a cap put into the environment by hand is a positive integer or not "
               "a number"]
VAR = "RAYTOOLS_PROC_CAP"


def model_get(env):
    try:
        return int(env)
    except (TypeError, ValueError):
        return os.cpu_count()


@workload(P, quick=150, thorough=2000)
def cap(c):
    os.environ.pop(VAR, None)
    env = None
    ops = []
    for k in range(int(c.rng.integers(3, 25))):
        op = c.pick("set", "set", "zero", "none", "bad", "unset", "env", "delenv", "get",
                    "getn", "cli", "pool")
        # (more than there are processors is the user's choice; a pool of that size
        # starts its processes as there is work)
        n = int(c.pick(*range(1, 9), 16, 61, 64, 500))
        ops.append((op, n))
        c.let(ops=ops)
        if op == "set":
            r = io.set_nproc(n)
            env = str(n)
        elif op == "zero":
            io.set_nproc(c.pick(0, -1, -n))
            env = None
        elif op == "none":
            c.same(io.set_nproc(None), None, "set_nproc(None)")
        elif op == "bad":
            bad = c.pick("3", 2.0, [1], np.int64(3), True, np.nan)
            c.raises(ValueError, lambda: io.set_nproc(bad), f"set_nproc({bad!r})")
        elif op == "unset":
            io.unset_nproc()
            env = None
        elif op == "env":
            env = c.pick(str(n), f" {n} ", "abc", "", "1.5", "None")
            os.environ[VAR] = env
        elif op == "delenv":
            os.environ.pop(VAR, None)
            env = None
        elif op == "getn":
            c.same(io.get_nproc(n), n, "an explicit value wins")
        elif op == "cli":
            v = c.pick(None, n, n, 0)
            args = ([] if v is None else ["-n", str(v)]) + ["smooth", "--help"]
            r = CliRunner().invoke(cli.main, args)
            c.check(r.exit_code == 0, f"raytools {args} exit {r.exit_code}: "
                    f"{r.output[-300:]}")
            if v is not None:
                env = str(v) if v > 0 else None
        elif op == "pool":
            e = c.pick(None, n)
            want = e if e is not None else model_get(env)
            with TStqdm(workers=True, cap=e, disable=True) as t:
                c.same(t.nworkers, want, "size of the process pool")
                t.pool.shutdown()
            with TStqdm(workers=False, cap=e, disable=True) as t:
                c.same((t.nworkers, t.pool), (0, None), "no pool without workers")
            c.event("pools")
        c.same(os.environ.get(VAR), env, f"environment after {op}")
        c.same(io.get_nproc(), model_get(env), f"get_nproc after {op}")
        c.event("operations")


def model_path(env):
    base = [".", os.path.join(os.path.dirname(os.path.abspath(raytools.__file__)), "cal")]
    out = []
    for q in base + (env.split(os.pathsep) if env is not None else []):
        if q not in out:
            out.append(q)
    return out


@workload(P, quick=60, thorough=600)
def raypath(c):
    cal = model_path(None)[1]
    n = int(c.rng.integers(0, 6))
    parts = [c.pick("/a/b", "/usr/local/lib/ray", ".", cal, "rel/dir", "/x y", "/a/b", "/a/./b", "/c/",
                    "../r", "/a//b", "~/ray", "/A/b")
             for _ in range(n)]
    env = None if n == 0 else os.pathsep.join(parts)
    fresh = c.i % 10 == 0
    c.let(env=env, fresh=fresh)
    if fresh:
        e = dict(os.environ)
        e.pop("RAYPATH", None)
        if env is not None:
            e["RAYPATH"] = env
        code = ("import raytools, os; print(os.environ['RAYPATH']);"
                "import raytools.cli; print(os.environ['RAYPATH'])")
        p = subprocess.run([sys.executable, "-c", code], env=e, capture_output=True,
                           text=True)
        c.check(p.returncode == 0, f"import fails: {p.stderr[-500:]}")
        got = p.stdout.strip().split("\n")
    else:
        os.environ.pop("RAYPATH", None)
        if env is not None:
            os.environ["RAYPATH"] = env
        raytools.set_raypath()
        got = [os.environ["RAYPATH"]]
        for _ in range(2):
            raytools.set_raypath()
            got.append(os.environ["RAYPATH"])
    want = os.pathsep.join(model_path(env))
    for g in got:
        c.same(g, want, "RAYPATH")
