#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes /verif/seeded/<id> from ID, PROP, NEEDS, BREAKS, EDITS
[(file, old, new)], DEMO (python text, with demo_lib available)."""
import json, os, shutil, subprocess, sys, runpy
for f in sys.argv[1:]:
    s = runpy.run_path(f)
    d = f"/verif/seeded/{s['ID']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = f"/tmp/mk_{s['ID']}"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for fn, old, new in s["EDITS"]:
        p = f"{w}/src/rkopenmdao/{fn}"; t = open(p).read()
        assert t.count(old) == 1, (fn, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff); shutil.rmtree(w)
    open(f"{d}/meta.json", "w").write(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    mpi = s.get("MPI", 0)
    run = f"mpirun -n {mpi} --oversubscribe --bind-to none \"$PY\"" if mpi else "OMPI_MCA_ess_singleton_isolated=1 \"$PY\""
    open(f"{d}/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: property holds; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch"
export PYTHONPATH="$here"
{run} "$here/demo.py" > out.txt 2>&1
rc=$?
tail -n 5 out.txt
exit $rc
""")
    open(f"{d}/demo.py", "w").write(s["DEMO"].lstrip("\n")); shutil.copy("/verif/tools/demo_lib.py", d)
    print(s["ID"], len(diff.splitlines()))
