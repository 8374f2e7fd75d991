"""setup_cmd: nothing to build; checks that the interpreter, z3 and the planner sources can be loaded."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=V, PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.run(["/opt/venv/bin/python", "-c", "from pyvc import boot; import z3; import terragraph_planner.common.structs; print('ready', z3.get_version_string())"], cwd=V, env=env).returncode)
