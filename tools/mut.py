#!/usr/bin/env python3
"""mut.py CHECKS FILE OLD NEW [FILE OLD NEW ...]: runs checks on a copy of /repo with
text replaced, mounted over /repo in a private namespace."""
import os, shutil, subprocess, sys, tempfile
checks = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut_")
subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
a = sys.argv[2:]
for f, old, new in zip(a[::3], a[1::3], a[2::3]):
    p = f"{d}/repo/src/rkopenmdao/{f}"
    s = open(p).read()
    assert s.count(old) >= 1, (f, old)
    print("occurrences", s.count(old))
    open(p, "w").write(s.replace(old, new, 1))
for c in checks:
    os.makedirs(d + "/cwd", exist_ok=True)
    r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                        f"mount --bind {d}/repo /repo && cd {d}/cwd && "
                        f"python3 /verif/run_check.py {c}"],
                       capture_output=True, text=True)
    print(c, r.returncode, r.stdout[-600:], r.stderr[-300:])
shutil.rmtree(d)
