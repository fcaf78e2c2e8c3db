"""setup_cmd: the tools and the tree under test load."""
import mlenv  # noqa
import z3
from metalift import ir  # noqa

s = z3.Solver()
x = z3.Int("x")
s.add(x * x == 4, x < 0)
assert s.check() == z3.sat and s.model()[x].as_long() == -2
print("ok")
