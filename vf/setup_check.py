"""Checks that everything the checks need is there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf  # noqa: F401,E402
import z3  # noqa: E402
from vf import loader, props  # noqa: E402

os.environ.setdefault('MPLBACKEND', 'Agg')
loader.install()
m = loader.Mods()
m.sim
n = sum(len(props.load(p)) for p in props.all_props())
s = z3.Solver()
x = z3.Real('x')
s.add(x * x == 2)
assert s.check() == z3.sat
print('z3', z3.get_version_string(), '-', n, 'harnesses')
