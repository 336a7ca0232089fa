"""Set-up check: interpreter, Hypothesis and the package under test load."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
import vlib                                               # noqa: E402
import discorpy                                           # noqa: E402
print("hypothesis", vlib.hypothesis.__version__, "numpy",
      vlib.np.__version__, list(discorpy.__path__)[0])
