"""setup_cmd: nothing to build (pure Python); checks that the interpreters and the solver answer."""
import subprocess, sys
for py, code in (("/opt/venv/bin/python", "import sympy, numpy, jinja2, sys; sys.path.insert(0,'/repo/src'); import sympkf"),
                 ("/opt/veriftools/pyvenv/bin/python", "import z3; s=z3.Solver(); x=z3.Int('x'); s.add(x>x); assert s.check()==z3.unsat")):
    r = subprocess.run([py, "-W", "ignore", "-B", "-c", code], capture_output=True, text=True)
    if r.returncode: print(r.stderr); sys.exit(1)
print("ready")
