"""setup_cmd: nothing to build; checks that the tools the verifier needs are here."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import real, engine      # noqa
import z3
s = z3.Solver()
x = z3.Int("x")
s.add(x > 1, x < 1)
assert s.check() == z3.unsat
import nessaid_cli.cmd      # noqa
print("ok", z3.get_version_string())
