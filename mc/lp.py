"""Exact linear programming for the reference model.

Small dense LPs solved with integer (Edmonds / Bareiss) pivoting, Bland's rule: every number is exact, there is no
tolerance and no external solver.  minimise c.x  subject to rows (coefs, type, rhs), 0 <= x <= ub (ub may be None).
The right hand sides are kept scaled by Q so that a right hand side can be perturbed by 1/Q and re-optimised exactly."""
from fractions import Fraction
from math import gcd
import numpy as np

Q = 1000


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def _lcm(a, b):
    return a * b // gcd(a, b)


class LP:
    def __init__(self, costs, rows, ubs):
        """costs: list of Fraction per variable. rows: list of (dict var->coef, type, rhs). ubs: list."""
        self.n = len(costs)
        self.rows = [(dict(c), t, frac(b)) for c, t, b in rows]
        self.nrow_user = len(self.rows)
        for j, ub in enumerate(ubs):
            if ub is not None:
                self.rows.append(({j: Fraction(1)}, '<=', frac(ub)))
        self.costs = [frac(c) for c in costs]
        self.state = None

    # ---------------------------------------------------------------------------------------------------------
    def _setup(self, bumps):
        m = len(self.rows)
        n = self.n
        scale = []
        ints = []
        for k, (coef, t, b) in enumerate(self.rows):
            b = b + bumps.get(k, 0)
            d = 1
            for v in coef.values():
                d = _lcm(d, frac(v).denominator)
            d = _lcm(d, (b * Q).denominator)
            row = [0] * n
            for j, v in coef.items():
                row[j] += int(frac(v) * d)
            rhs = int(b * Q * d)
            scale.append(d)
            ints.append([row, t, rhs])
        # slack columns, then artificial columns
        ncols = n
        slack = [None] * m
        art = [None] * m
        sgn = [1] * m
        for k, (row, t, rhs) in enumerate(ints):
            if t == '<=':
                slack[k] = (ncols, 1)
                ncols += 1
            elif t == '>=':
                slack[k] = (ncols, -1)
                ncols += 1
        for k, (row, t, rhs) in enumerate(ints):
            if rhs < 0:
                sgn[k] = -1
            # is slack usable as basis?
            if slack[k] is not None and slack[k][1] * sgn[k] == 1:
                continue
            if slack[k] is not None and rhs == 0 and slack[k][1] == -1:
                sgn[k] = -1
                continue
            art[k] = ncols
            ncols += 1
        T = np.zeros((m + 2, ncols + 1), dtype=object)
        T[:, :] = 0
        basis = [None] * m
        for k, (row, t, rhs) in enumerate(ints):
            s = sgn[k]
            for j, v in enumerate(row):
                if v:
                    T[k, j] = s * v
            T[k, ncols] = s * rhs
            if slack[k] is not None:
                T[k, slack[k][0]] = s * slack[k][1]
            if art[k] is not None:
                T[k, art[k]] = 1
                basis[k] = art[k]
            else:
                basis[k] = slack[k][0]
        cd = 1
        for c in self.costs:
            cd = _lcm(cd, c.denominator)
        for j, c in enumerate(self.costs):
            T[m, j] = int(c * cd)
        arts = [a for a in art if a is not None]
        for a in arts:
            T[m + 1, a] = 1
        for k in range(m):
            if art[k] is not None:
                T[m + 1, :] = T[m + 1, :] - T[k, :]
        self.T, self.D, self.basis, self.m, self.ncols = T, 1, basis, m, ncols
        self.cd = cd
        self.artset = set(arts)
        self.pivots = 0

    def _pivot(self, r, c):
        T, D = self.T, self.D
        p = T[r, c]
        prow = T[r, :].copy()
        for i in range(self.m + 2):
            if i == r:
                continue
            f = T[i, c]
            if f == 0:
                if p != D:
                    T[i, :] = (T[i, :] * p) // D
            else:
                T[i, :] = (T[i, :] * p - prow * f) // D
        self.D = p
        if p < 0:
            T[:, :] = -T
            self.D = -p
        self.basis[r] = c
        self.pivots += 1

    def _primal(self, obj, allowed):
        T = self.T
        m, nc = self.m, self.ncols
        iters = 0
        while True:
            iters += 1
            orow = T[obj, :nc]
            c = None
            if iters < 60:
                best = 0
                for j in allowed:
                    if orow[j] < best:
                        best = orow[j]
                        c = j
            else:
                for j in allowed:
                    if orow[j] < 0:
                        c = j
                        break
            if c is None:
                return 'optimal'
            r = None
            bn = bd = None
            for i in range(m):
                a = T[i, c]
                if a > 0:
                    b = T[i, nc]
                    if r is None or b * bd < bn * a or (b * bd == bn * a and self.basis[i] < self.basis[r]):
                        r, bn, bd = i, b, a
            if r is None:
                return 'unbounded'
            self._pivot(r, c)

    def solve(self, bumps=None):
        """Returns the optimal value (Fraction), or None when infeasible. Raises on unbounded."""
        self._setup(bumps or {})
        m, nc = self.m, self.ncols
        if self.artset:
            self._primal(m + 1, list(range(nc)))
            if self.T[m + 1, nc] != 0:
                return None
            for i in range(m):
                if self.basis[i] in self.artset:
                    for j in range(nc):
                        if j not in self.artset and self.T[i, j] != 0:
                            self._pivot(i, j)
                            break
        allowed = [j for j in range(nc) if j not in self.artset]
        if self._primal(m, allowed) == 'unbounded':
            raise ValueError('reference LP unbounded')
        return Fraction(-self.T[m, nc], self.D * self.cd * Q)

    def solution(self):
        x = [Fraction(0)] * self.n
        for i in range(self.m):
            if self.basis[i] < self.n:
                x[self.basis[i]] = Fraction(self.T[i, self.ncols], self.D * Q)
        return x

    def perturbed(self, row, sign):
        """Optimal value with rhs of user row `row` changed by sign/Q (None if infeasible)."""
        return self.solve({row: Fraction(sign, Q)})
