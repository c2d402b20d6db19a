"""setup_cmd: checks that the interpreter, z3 and the package under test are importable (nothing to build)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import explore, sym  # noqa: E402

explore.load_repo()
e = sym.Engine()
sym.set_engine(e)
x = sym.SymReal.var("x")
e.assume(x > 1)
e.assume(x + x < 2 - 1)
assert e.check_sat() == sym.z3.unsat
import cognitivefactory.interactive_clustering.constraints.binary  # noqa: E402,F401

print("ok: python %s, z3 %s" % (sys.version.split()[0], sym.z3.get_version_string()))
