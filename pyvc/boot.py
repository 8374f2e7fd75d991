"""Import this first: puts the planner under verification on the path without
running its package __init__ (which needs the absent xpress), and makes z3
importable next to it.  The planner is the tree at /repo."""
import importlib.util
import os
import sys

REPO = os.environ.get("PLANNER_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (VERIF, REPO):
    if p in sys.path: sys.path.remove(p)
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
if "terragraph_planner" not in sys.modules:
    _spec = importlib.util.find_spec("terragraph_planner")
    sys.modules["terragraph_planner"] = importlib.util.module_from_spec(_spec)

if importlib.util.find_spec("xpress") is None and "xpress" not in sys.modules:
    # the solver library is absent; modules that name it can be imported, any use of it fails
    import types as _types
    sys.modules["xpress"] = _types.ModuleType("xpress")
