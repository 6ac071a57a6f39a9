"""Runs the scenarios of one check (one shard) against the code under test and writes
their traces.  Usage: drive.py CHECK TIER SEED SHARD NSHARDS OUTDIR [SCENARIO]"""
from __future__ import annotations

import importlib
import json
import os
import signal
import sys
import time
import traceback


class Hang(BaseException):
    """Scenario took too long."""


def main():
    check, tier, seed, shard, nshards, outdir = sys.argv[1:7]
    only = json.loads(sys.argv[7]) if len(sys.argv) > 7 else None
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    import rkopenmdao

    assert os.path.realpath(rkopenmdao.__file__).startswith("/repo/src/"), \
        rkopenmdao.__file__
    mod = importlib.import_module("chk_" + check.lower())
    if only is not None and set(only) == {"idx"}:  # the interpreter died there
        only = mod.scenarios(tier, seed)[only["idx"]]
    scens = [only] if only is not None else mod.scenarios(tier, seed)
    hangs = 0
    limit = getattr(mod, "SCENARIO_TIMEOUT", 60)
    skip_file = os.path.join(outdir, f"skip_{shard}.json")
    skip = json.load(open(skip_file)) if os.path.exists(skip_file) else []
    prog = os.path.join(outdir, f"progress_{shard}")
    out = open(os.path.join(outdir, f"traces_{shard}.ndjson"), "a")
    start = 0
    start_file = os.path.join(outdir, f"start_{shard}")
    if os.path.exists(start_file):
        start = int(open(start_file).read())

    def on_alarm(signum, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    deadline = time.time() + float(os.environ.get("DRIVE_BUDGET", "1e9"))
    for i, sc in enumerate(scens):
        if i % nshards != shard or i < start or i in skip:
            continue
        if time.time() > deadline:
            break
        with open(prog, "w") as f:
            f.write(str(i))
        signal.alarm(limit)
        try:
            traces = attempt(mod, sc)
        except Hang:
            traces = [crash(sc, "hang", f"no result within {limit} s")]
            hangs += 1
        except RecursionError as ex:
            traces = [crash(sc, "exception", "RecursionError " + str(ex)[:200])]
        except Exception as ex:  # the code under test failed in a valid scenario
            tb = traceback.format_exc().strip().splitlines()
            traces = [crash(sc, "exception", repr(ex)[:300], tb[-12:])]
        finally:
            signal.alarm(0)
        for k, tr in enumerate(traces):
            tr["sc"] = sc
            tr["tid"] = i * 100 + k
            out.write(json.dumps(tr, separators=(",", ":"), default=_np) + "\n")
        out.flush()
        if hangs >= 2:
            break
    with open(prog, "w") as f:
        f.write("done")


def attempt(mod, sc):
    """The MPI library may fail to open a file for reasons of its own (a race of its
    session directories); a defect of the code fails again and again."""
    for i in range(3):
        try:
            return mod.run(sc)
        except OSError as ex:
            if "MPI_File_open" not in str(ex) or i == 2:
                raise
            time.sleep(0.5)


def crash(sc, kind, msg, tb=()):
    return {"msg": msg, "traceback": list(tb), "ev": [{"op": "crash", "kind": kind}]}


def _np(o):
    if hasattr(o, "item"):
        return o.item()
    raise TypeError(type(o))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
