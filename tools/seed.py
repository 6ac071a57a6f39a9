#!/usr/bin/env python3
"""Confirms planted changes in scratch copies: seed.py ID... [--checks C01,C02] [--notest]

For each /verif/seeded/ID: copies /repo to /tmp, applies patch.diff there and, in a mount
namespace of its own where the copy lies at /repo, runs build, the stable tests, the demo
(also on a clean copy) and the property's check (from a copy of /verif)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
def ns(binds, cmd, timeout=1500):
    mounts = " && ".join(f"mount --bind {a} {b}" for a, b in binds)
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", f"{mounts} && {cmd}"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, str(ex.stdout)[-500:]
def one(i, checks, notest):
    d = f"{V}/seeded/{i}"; w = f"/tmp/seed_{i}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    out = {"id": i}
    try:
        for k in ("clean", "bug"):
            subprocess.run(["cp", "-a", "/repo", f"{w}/{k}"], check=True)
        subprocess.run(["git", "-C", f"{w}/bug", "apply", f"{d}/patch.diff"], check=True)
        subprocess.run(["cp", "-a", V, f"{w}/verif"], check=True)
        subprocess.run(["cp", "-a", d, f"{w}/demo"], check=True)
        rc, o = ns([(f"{w}/clean", "/repo")], f"cd /repo && bash {w}/demo/demo.sh", 300); out["demo_clean"] = rc
        if rc: out["demo_clean_out"] = o[-800:]
        rc, o = ns([(f"{w}/bug", "/repo")], f"cd /repo && bash {w}/demo/demo.sh", 300); out["demo_bug"] = rc
        out["demo_out"] = o.strip().splitlines()[-1:] if rc else o[-500:]
        if not notest:
            rc, o = ns([(f"{w}/bug", "/repo")], f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {w}/t.json")
            try:
                st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                miss = sorted(st - set(json.load(open(f"{w}/t.json"))["passed"]))
                out["tests_missing"] = len(miss); out["miss"] = miss[:3]
            except Exception as ex: out["tests_missing"] = repr(ex) + o[-300:]
        prop = json.load(open(f"{d}/meta.json"))["property"]
        for c in (checks or [prop]):
            rc, o = ns([(f"{w}/bug", "/repo"), (f"{w}/verif", "/verif")], f"cd /verif && VERIF_SEED=1 python3 run_check.py {c} --tier quick")
            out[f"check_{c}"] = [rc, [l for l in o.splitlines() if "VIOLATION" in l][:1]]
            if rc not in (0, 1): out[f"out_{c}"] = o[-600:]
    except Exception as ex:
        out["error"] = repr(ex)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out
if __name__ == "__main__":
    a = sys.argv[1:]; checks = None; notest = "--notest" in a
    if "--checks" in a: checks = a[a.index("--checks") + 1].split(","); del a[a.index("--checks"):a.index("--checks") + 2]
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(f"{V}/seeded"))
    with ThreadPoolExecutor(int(os.environ.get("SEED_JOBS", "2"))) as ex:
        for r in ex.map(lambda i: one(i, checks, notest), ids):
            print(json.dumps(r), flush=True)
