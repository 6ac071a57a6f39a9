#!/usr/bin/env python3
"""Decides one property.

  run_check.py C01 [--tier quick|thorough] [--replay FILE]

1. TLC checks the design models of the property (spec/).
2. The scenarios of harness/chk_<id>.py are executed against the code in /repo/src
   and recorded as traces (several processes, each scenario with a time limit).
3. TLC validates all recorded traces against the trace specification.
Exit 0: held; exit 1 and a VIOLATION line: broken; anything else: machinery error.
"""
from __future__ import annotations

import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import tlc  # noqa: E402

PY = "/opt/venv/bin/python"
PROCS = 7


def shell_env():
    e = dict(os.environ)
    e["OMPI_MCA_ess_singleton_isolated"] = "1"
    e["PYTHONPATH"] = f"{HERE}/harness:/repo/src"
    e["OPENMDAO_REPORTS"] = "0"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    return e


def opt_env():
    """Environment of /opt/vp/env.sh plus ours."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         stdout=subprocess.PIPE, env=shell_env(), check=True).stdout
    e = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    e.update({k: v for k, v in shell_env().items()
              if k in ("PYTHONPATH", "OMPI_MCA_ess_singleton_isolated",
                       "OPENMDAO_REPORTS", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS",
                       "PYTHONDONTWRITEBYTECODE", "PYTHONHASHSEED")})
    return e


def drive(check, tier, seed, work, budget, only=None, procs=PROCS, env=None):
    """Runs all shards; restarts a shard after a crash of the interpreter."""
    outdir = os.path.join(work, "traces")
    os.makedirs(outdir, exist_ok=True)
    if only is not None:
        procs = 1
    extra = []

    def shard(k):
        scratch = os.path.join(work, f"cwd{k}")
        os.makedirs(scratch, exist_ok=True)
        e = dict(env)
        # MPI's session directories of concurrent interpreters: each its own
        e["TMPDIR"] = e["OMPI_MCA_orte_tmpdir_base"] = os.path.join(work, f"m{k}")
        os.makedirs(e["TMPDIR"], exist_ok=True)
        t_end = time.time() + budget
        crashes = 0
        while True:
            e["DRIVE_BUDGET"] = str(max(1.0, t_end - time.time()))
            cmd = [PY, os.path.join(HERE, "harness", "drive.py"), check, tier,
                   str(seed), str(k), str(procs), outdir]
            if only is not None:
                cmd.append(json.dumps(only))
            log = open(os.path.join(outdir, f"log_{k}"), "w")
            hung = False
            p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=log, stderr=log,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=max(30.0, t_end - time.time()) + 90)
            except subprocess.TimeoutExpired:
                hung = True
                rc = -9
            finally:
                try:
                    os.killpg(p.pid, 9)
                except (ProcessLookupError, PermissionError):
                    pass
                p.wait()
            prog_file = os.path.join(outdir, f"progress_{k}")
            prog = open(prog_file).read() if os.path.exists(prog_file) else ""
            if rc == 0 and prog == "done":
                return None
            tail = open(os.path.join(outdir, f"log_{k}")).read()[-1500:]
            if prog in ("", "done"):
                return f"driver shard {k} failed rc={rc}\n{tail}"
            crashes += 1
            extra.append({"tid": int(prog) * 100, "shard": k, "idx": int(prog),
                          "msg": f"interpreter died rc={rc}" + (" (hang)" if hung else ""),
                          "traceback": tail.splitlines()[-15:],
                          "ev": [{"op": "crash", "kind": "hang" if hung else "death"}]})
            if crashes > 3 or time.time() > t_end or only is not None:
                return None
            with open(os.path.join(outdir, f"start_{k}"), "w") as f:
                f.write(str(int(prog) + 1))

    with ThreadPoolExecutor(procs) as ex:
        errors = [r for r in ex.map(shard, range(procs)) if r]
    traces = []
    for k in range(procs):
        fn = os.path.join(outdir, f"traces_{k}.ndjson")
        if os.path.exists(fn):
            for line in open(fn):
                try:
                    traces.append(json.loads(line))
                except json.JSONDecodeError:
                    pass  # partial line of a killed process
    traces += extra
    return traces, errors


def consume(sp, part, work, seed, workers, verdicts, finished, tries):
    """Validates the traces with TLC.  A trace that TLC cannot evaluate, because what
    the code returned has not even the form of a result, is found by bisection."""
    fn = os.path.join(work, f"{sp}.ndjson")
    with open(fn, "w") as f:
        for t in part:
            t2 = {k: v for k, v in t.items() if k not in ("sc", "traceback", "msg")}
            f.write(json.dumps(t2, separators=(",", ":")) + "\n")
    err = None
    try:
        res = tlc.run(sp, seed=seed, workers=workers, env={"TRACE_FILE": fn},
                      timeout=840, heap="6g")
    except tlc.TlcError as ex:
        if ex.lines is None or tries[0] <= 0:
            raise
        res, err = {"lines": ex.lines, "states": 0}, ex
    for ln in res["lines"]:
        if ln[0] == "VERDICT":
            verdicts.setdefault(ln[1], set()).add((ln[2], ln[3]))
        elif ln[0] == "DONE":
            finished.add(ln[1])
    if err is None:
        return res["states"]
    tries[0] -= 1
    left = [t for t in part if t["tid"] not in finished]
    if len(left) == 1:
        verdicts.setdefault(left[0]["tid"], set()).add((0, "malformed-result"))
        left[0].setdefault("msg", str(err)[:1500])
        finished.add(left[0]["tid"])
        return 0
    states = 0
    for half in (left[: len(left) // 2], left[len(left) // 2 :]):
        if half and tries[0] > 0:
            states += consume(sp, half, work, seed, workers, verdicts, finished, tries)
    if tries[0] <= 0 and any(c == "malformed-result" for v in verdicts.values()
                             for _, c in v):
        finished.update(t["tid"] for t in left)  # enough was found
    return states


def validate(mod, traces, work, seed, workers=8):
    """TLC over all traces; returns (verdicts {tid: [(pos, clause)]}, stats)."""
    spec = mod.TRACE_SPEC
    groups = {}
    for t in traces:
        groups.setdefault(t.get("spec", spec), []).append(t)
    verdicts, states, done = {}, 0, 0
    for sp, trs in groups.items():
        chunk = getattr(mod, "CHUNK", 4000)
        for c in range(0, len(trs), chunk):
            part = trs[c : c + chunk]
            finished = set()
            states += consume(sp, part, work, seed, workers, verdicts, finished, [24])
            missing = {t["tid"] for t in part} - finished
            if missing:
                raise tlc.TlcError(f"{sp}: {len(missing)} traces not consumed, e.g. "
                                   f"{sorted(missing)[:3]}")
            done += len(finished)
    return verdicts, states, done


def known(prop):
    """Known findings: lines `known: property=<id> key=<scenario key> <what>`."""
    res = {}
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith("known: property=" + prop + " "):
                rest = line.split("key=", 1)[1].strip()
                key, _, what = rest.partition(" ")
                res[key] = what
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif_{a.check}_")
    try:
        rc = check(a, tier, seed, work, t0)
    except Exception as ex:  # machinery failure, not a verdict
        import traceback

        traceback.print_exc(limit=3, chain=False)
        rc = 3
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, tier, seed, work, t0):
    meta = importlib.import_module("meta")
    prop = a.check
    m = meta.CHECKS[prop]
    env = opt_env()
    only = None
    if a.replay:
        rp = json.load(open(a.replay))
        only, seed = rp["scenario"], rp.get("seed", seed)
    budget = m.get("budget", {}).get(tier, 240 if tier == "quick" else 2400)
    designs = [] if a.replay else m.get("design", {}).get(tier) or m.get("design", {}).get("quick", [])
    tstates = tdist = 0
    dres = []

    def run_designs():
        out = []
        for d in designs:
            res = tlc.run(d["module"], d.get("cfg"), workers=d.get("workers", 4),
                          seed=seed, extra=d.get("extra", ()),
                          timeout=d.get("timeout", 800), heap=d.get("heap", "3g"),
                          allow_violation=True, env=d.get("env"))
            out.append((d, res))
        return out

    with ThreadPoolExecutor(2) as ex:
        fd = ex.submit(run_designs)
        pre = m.get("pre")
        if pre:  # TLC-generated histories, used by the driver
            env.update(importlib.import_module("pregen").PRE[pre](tier, seed, work))
        fdrv = ex.submit(drive, prop, tier, seed, work, budget, only,
                         m.get("procs", PROCS), env)
        dres = fd.result()
        traces, errors = fdrv.result()
    for d, res in dres:
        expect = d.get("expect")
        if (expect is None and res["violated"]) or (expect and res["violated"] != expect):
            raise RuntimeError(f"design model {d['module']} {d.get('cfg')}: expected "
                             f"{expect}, got {res['violated']}\n{res['out'][-2500:]}")
        tstates += res["states"]
        tdist += res["distinct"]
    if errors:
        print("\n".join(errors), file=sys.stderr)
        raise RuntimeError("driver failed")
    if not traces:
        raise RuntimeError("no traces")

    class Mod:
        TRACE_SPEC = m["trace_spec"]
        CHUNK = m.get("chunk", 4000)

    verdicts, tv_states, done = validate(Mod, traces, work, seed)
    bytid = {t["tid"]: t for t in traces}
    kn = known(prop)
    viol, seen_known = [], {}
    for tid, vs in sorted(verdicts.items()):
        t = bytid[tid]
        sc = t.get("sc")
        for pos, clause in sorted(vs):
            key = t.get("key", "")
            kk = f"{key}:{clause}"
            if kk in kn:
                seen_known[kk] = kn[kk]
            else:
                viol.append((t, pos, clause))
    for kk, what in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {kk} {what}")
    rc = 0
    if viol:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        t, pos, clause = viol[0]
        sc = t.get("sc")
        if sc is None and "idx" in t:
            sc = {"idx": t["idx"]}
        fn = os.path.join(rdir, f"{prop}_{clause}_{t['tid']}.json")
        ev = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else None
        with open(fn, "w") as f:
            json.dump({"property": prop, "clause": clause, "scenario": sc, "seed": seed,
                       "position": pos, "event": ev, "msg": t.get("msg"),
                       "traceback": t.get("traceback"),
                       "all": sorted({c for _, _, c in viol}),
                       "violating_traces": len({x[0]["tid"] for x in viol})}, f, indent=1)
        print(f"VIOLATION property={prop} replay={fn}")
        print(f"  clause {clause}; {len({x[0]['tid'] for x in viol})} of {len(traces)} "
              f"traces; clauses {sorted({c for _, _, c in viol})}")
        if t.get("msg"):
            print("  " + t["msg"])
        rc = 1
    if a.replay:
        return rc
    wall = time.time() - t0
    n_ev = sum(len(t["ev"]) for t in traces)
    distinct = len({json.dumps(t["ev"], sort_keys=True) for t in traces})
    samples = []
    for t in traces[:2] + traces[-1:]:
        s = json.dumps({k: v for k, v in t.items() if k != "traceback"})
        samples.append(json.loads(s) if len(s) < 6000 else s[:3000] + "...")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": m["level"],
        "coverage": {
            "states": tstates + tv_states,
            "transitions": n_ev + tdist,
            "traces_validated_against_impl": done,
            "samples": samples,
            "design_states": tstates, "design_distinct_states": tdist,
            "trace_states": tv_states, "trace_events": n_ev,
            "evaluations": len(traces), "distinct_nontrivial": distinct,
            "rule": m["rule"],
            "design_models": [
                {"module": d["module"], "cfg": d.get("cfg"), "states": r["states"],
                 "expected_violation": d.get("expect")} for d, r in dres],
            "clauses_violated": sorted({c for _, _, c in viol}),
        },
        "assumptions": m["assumptions"], "wall_s": round(wall, 1),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {done} traces ({n_ev} events, {distinct} distinct) validated, "
          f"design states {tstates}, {wall:.1f} s, "
          f"{'VIOLATED' if rc else 'held'}")
    return rc


if __name__ == "__main__":
    main()
