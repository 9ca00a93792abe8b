"""Second opinions: cvc5 on queries z3 cannot decide, and cross-checking in the thorough tier."""
import os
import shutil
import subprocess
import tempfile

import z3

CVC5 = shutil.which("cvc5")
Z3NEW = shutil.which("z3-new")


def smt2(pc, cond):
    s = z3.Solver()
    for c in pc:
        s.add(c)
    if cond is False:
        pass
    else:
        s.add(z3.Not(cond))
    return s.to_smt2()


def run(cmd, text, secs):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        name = f.name
    try:
        r = subprocess.run(cmd + [name], capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "error"
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(name)


def retry(pc, cond, secs=10):
    """('unsat'|other, backend) for pc and not cond"""
    text = smt2(pc, cond)
    if CVC5:
        r = run([CVC5, "--strings-exp", "--tlimit=%d" % (secs * 1000)], "(set-logic ALL)\n" + text, secs)
        if r == "unsat":
            return "unsat", "cvc5"
    if Z3NEW:
        r = run([Z3NEW, "-T:%d" % secs], text, secs)
        if r == "unsat":
            return "unsat", "z3-new"
    return "unknown", ""
