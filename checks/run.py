"""run.py <property id>: decides one property on /repo's current tree."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
from specs import SPECS

if __name__ == "__main__":
    pid = [a for a in sys.argv[1:] if not a.startswith("-")][0]
    mod, fname, meta = SPECS[pid]
    m = importlib.import_module(mod)
    sys.exit(framework.main(pid, getattr(m, fname), meta))
