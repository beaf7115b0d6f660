#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decide one property, see DESIGN.md"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RV_REPO", "/repo")
PY = "/opt/venv/bin/python"


def reexec():
    """clean, fixed environment: venv python, Radiance binaries of /repo"""
    env = {k: v for k, v in os.environ.items()
           if k not in ("RAYPATH", "RAYTOOLS_PROC_CAP", "PYTHONPATH")}
    env["PATH"] = os.pathsep.join([os.path.join(REPO, "radiance_depend/linux"),
                                   "/opt/venv/bin", "/usr/local/bin",
                                   "/usr/bin", "/bin"])
    env.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", RV_CHILD="1", COLUMNS="100",
               PYTHONPATH=REPO, LC_ALL="C.UTF-8", HOME=env.get("HOME", "/root"))
    # a process group of its own: nothing the code under test starts (pools,
    # fork servers) outlives the check or keeps its output open
    import signal
    import subprocess
    p = subprocess.Popen([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env,
                         start_new_session=True)

    def stop(*a):
        os.killpg(p.pid, signal.SIGKILL)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    rc = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    sys.exit(rc if rc >= 0 else 2)


def main():
    if os.environ.get("RV_CHILD") != "1":
        reexec()
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import importlib
    import json
    import tempfile
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = rec["seed"], rec["tier"]
        only = (rec["workload"], rec["case"])
    from rv import core
    cwd = tempfile.mkdtemp(prefix="rvcwd_")
    os.chdir(cwd)
    code = 2
    try:
        import raytools
        where = os.path.realpath(raytools.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            print(f"raytools was imported from {where}, not from {REPO}")
            return 2
        mod = importlib.import_module(f"rv.props.{prop.lower()}")
        run = core.Run(prop, tier, seed)
        try:
            inc = run.go(only)
        except core.HarnessError as ex:
            print(f"HARNESS ERROR {prop}: {ex}")
            return 2
        run.assumptions += list(getattr(mod, "ASSUMPTIONS", []))
        code = run.finish(inc, mod.LEVEL, mod.RULE)
    finally:
        os.chdir("/")
        import shutil
        shutil.rmtree(cwd, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
