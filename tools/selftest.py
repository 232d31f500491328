"""setup_cmd: checks that the interpreter and the code under test import, and that the exact LP agrees with a brute-force vertex search."""
import os, sys, itertools
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.argv = ['selftest']
from mc import common
from mc.lp import LP, frac
from fractions import Fraction as F
import nempy.markets
assert nempy.markets.__file__.startswith(common.REPO), nempy.markets.__file__

n = 0
for a, b, d, ub in itertools.product([-2, 0, 1, 3], [1, 2], [0, 3, 5, 9], [2, 4]):
    # min a x + b y  s.t. x + y >= d, x,y in [0, ub]
    v = LP([F(a), F(b)], [({0: F(1), 1: F(1)}, '>=', F(d))], [F(ub), F(ub)]).solve()
    pts = [(x, y) for x in (0, ub, d, d - ub) for y in (0, ub, d - x) if 0 <= x <= ub and 0 <= y <= ub and x + y >= d]
    w = min((a * x + b * y for x, y in pts), default=None)
    assert v == w, (a, b, d, ub, v, w)
    n += 1
print('selftest ok', n)
