"""Running TLC and reading its output."""
from __future__ import annotations

import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(RuntimeError):
    """lines: what was printed before TLC failed to evaluate something."""

    lines = None


def run(module, cfg=None, *, workers=4, seed=1, env=None, timeout=800, extra=(),
        heap="3g", allow_violation=False):
    """Runs TLC; returns dict(states, distinct, lines, violated, out).

    Raises TlcError if TLC did not finish, unless an invariant was violated and
    allow_violation is set."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update(env or {})
    # both: the stack of the main thread is only set by options the launcher sees
    e["JAVA_TOOL_OPTIONS"] = e["JDK_JAVA_OPTIONS"] = (
        f"-Xmx{heap} -Xss64m -XX:+UseParallelGC")
    cmd = ["tlc", "-metadir", meta, "-workers", str(workers), "-seed", str(seed),
           "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *extra,
           module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out = p.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
        raise TlcError(f"TLC timeout after {timeout}s on {module}\n{out[-2000:]}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = {"out": out, "rc": p.returncode, "states": 0, "distinct": 0,
           "violated": None, "lines": []}
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
    if m:
        res["states"] = int(m[-1][0].replace(",", ""))
        res["distinct"] = int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"The number of states generated: (\d[\d,]*)", out)
        if m:
            res["states"] = res["distinct"] = int(m[-1].replace(",", ""))
    m = re.search(r"Invariant (\S+) is violated|Temporal properties were violated|"
                  r"(?:Action|Temporal) property (\S+) .*violated|Deadlock reached", out)
    if m:
        res["violated"] = m.group(1) or m.group(2) or m.group(0)
    res["lines"] = _tuples(out)
    done = "Model checking completed. No error" in out or (
        "Finished in" in out and p.returncode == 0)
    if not done and not (allow_violation and res["violated"]):
        err = TlcError(f"TLC failed on {module} {cfg} rc={p.returncode}\n" + out[-3000:])
        if "Error: " in out and "StackOverflow" not in out and re.search(
                r"evaluat|Overflow|Attempted|Invalid argument|out of range", out):
            err.lines = res["lines"]
        raise err
    return res


def _tuples(out):
    """PrintT lines of the form <<"TAG", ...>>; values are strings or ints."""
    res = []
    buf = None
    for line in out.splitlines():
        if buf is None:
            if line.startswith("<<\"") or line.startswith("<< \""):
                buf = line
            else:
                continue
        else:
            buf += " " + line.strip()
        if buf.count("<<") <= buf.count(">>"):
            res.append(_parse(buf))
            buf = None
    return res


def _parse(text):
    toks = re.findall(r'<<|>>|"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE|\w+', text)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "<<":
            r = []
            while toks[pos] != ">>":
                r.append(val())
            pos += 1
            return r
        if t[0] == '"':
            return t[1:-1].replace('\\"', '"').replace("\\\\", "\\")
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        try:
            return int(t)
        except ValueError:
            return t

    return val()
