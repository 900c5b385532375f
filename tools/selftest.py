"""setup: checks that the interpreter and the engine work in this sandbox (no network, nothing installed)."""
import subprocess, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = """
import jax, numpy, flax
from engine import terms as T
x, y = T.var('x'), T.var('y')
assert T.is_zero((x + y) * (x - y) - x * x + y * y)
assert not T.is_zero((x + y) * (x - y) - x * x - y * y)
print('engine ok', jax.__version__)
"""
r = subprocess.run(["/opt/venv/bin/python", "-c", code], cwd=ROOT, env=dict(os.environ, PYTHONPATH=ROOT, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1"))
sys.exit(r.returncode)
