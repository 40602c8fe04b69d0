"""Truncated multivariate Taylor arithmetic over a finite probability space.

A value is an array c[w, i, j, ...]: Taylor coefficient of (t-t0)^i (x-x0)^j ... for the outcome w (axis of length 1 when
deterministic).  `Interp.den(expr)` interprets a sympy expression: fields are jets, Expectation is the mean over outcomes,
Derivative is the derivation of jets.  It is written from the mathematical meaning only and never calls the code under test.
"""
import math
import numpy as np
import sympy


class J:
    __slots__ = ("c",)
    def __init__(self, c): self.c = c


class Space:
    def __init__(self, coords, orders, base, W):
        self.coords, self.orders, self.base, self.W = list(coords), tuple(orders), list(base), W
        self.shape = tuple(n + 1 for n in orders)
        self.deg = sum(orders)

    def zero(self): return np.zeros((1,) + self.shape)

    def const(self, v):
        z = self.zero()
        z[(slice(None),) + (0,) * len(self.shape)] = v
        return z

    def coord(self, k):
        z = self.const(self.base[k])
        if self.orders[k] >= 1:
            idx = [0] * len(self.shape); idx[k] = 1
            z[(slice(None),) + tuple(idx)] = 1.
        return z

    def mul(self, a, b):
        W = max(a.shape[0], b.shape[0])
        out = np.zeros((W,) + self.shape)
        # iterate over the nonzero coefficients of the sparser operand
        na = np.any(a != 0, axis=0); nb = np.any(b != 0, axis=0)
        if nb.sum() < na.sum(): a, b, na = b, a, nb
        for idx in np.argwhere(na):
            src = (slice(None),) + tuple(slice(0, s - i) for s, i in zip(self.shape, idx))
            dst = (slice(None),) + tuple(slice(i, s) for s, i in zip(self.shape, idx))
            coef = a[(slice(None),) + tuple(idx)].reshape((-1,) + (1,) * len(self.shape))
            out[dst] += coef * b[src]
        return out

    def compose(self, a, derivs):
        """f(a) from derivs(a0, n) -> list of f^(k)(a0), k<=n"""
        a0 = a[(slice(None),) + (0,) * len(self.shape)]
        h = a.copy(); h[(slice(None),) + (0,) * len(self.shape)] = 0.
        ds = derivs(a0, self.deg)
        sh = (-1,) + (1,) * len(self.shape)
        out = np.zeros(a.shape); out[(slice(None),) + (0,) * len(self.shape)] = ds[0]
        p = None
        for k in range(1, self.deg + 1):
            p = h if p is None else self.mul(p, h)
            if not np.any(p): break
            out = out + p * (np.asarray(ds[k]) / math.factorial(k)).reshape(sh)
        return out

    def pow(self, a, p):
        if float(p) == int(p) and p >= 0:
            out = self.const(1.)
            for _ in range(int(p)): out = self.mul(out, a)
            return out
        def derivs(a0, n):
            if float(p) != int(p) and np.any(a0 <= 0): raise ValueError("fractional power of a nonpositive value")
            out, c = [], 1.
            for k in range(n + 1):
                out.append(c * np.power(a0, float(p) - k)); c *= (float(p) - k)
            return out
        return self.compose(a, derivs)

    def diff(self, a, k, n=1):
        for _ in range(n):
            b = np.zeros_like(a)
            N = self.shape[k]
            src = [slice(None)] * a.ndim; dst = [slice(None)] * a.ndim
            src[k + 1] = slice(1, N); dst[k + 1] = slice(0, N - 1)
            f = np.arange(1, N).reshape([-1 if i == k + 1 else 1 for i in range(a.ndim)])
            b[tuple(dst)] = a[tuple(src)] * f
            a = b
        return a

    def mean(self, a):
        return a.mean(axis=0, keepdims=True)

    def val(self, a):
        """value(s) at the base point"""
        return a[(slice(None),) + (0,) * len(self.shape)]


def _trig(a0, n, f0):
    s, c = np.sin(a0), np.cos(a0)
    cyc = [s, c, -s, -c] if f0 == "sin" else [c, -s, -c, s]
    return [cyc[k % 4] for k in range(n + 1)]


class Interp:
    """functions: {function head name: jet}; symbols: {Symbol: float}; E: the Expectation class"""
    def __init__(self, space, functions, symbols, E, overrides=None):
        self.s, self.functions, self.symbols, self.E = space, functions, dict(symbols), E
        self.overrides = overrides or {}
        self.cache = {}

    def den(self, e):
        e = sympy.sympify(e)
        r = self.cache.get(e)
        if r is None:
            r = self._den(e)
            self.cache[e] = r
        return r

    def _den(self, e):
        s = self.s
        if e in self.overrides:
            v = self.overrides[e]
            return self.den(v) if isinstance(v, sympy.Basic) else v
        if e.is_Number or e.is_NumberSymbol: return s.const(float(e))
        if isinstance(e, sympy.Symbol):
            if e in s.coords: return s.coord(s.coords.index(e))
            return s.const(self.symbols[e])
        if isinstance(e, sympy.Add):
            out = self.den(e.args[0])
            for a in e.args[1:]: out = out + self.den(a)
            return out
        if isinstance(e, sympy.Mul):
            out = self.den(e.args[0])
            for a in e.args[1:]: out = s.mul(out, self.den(a))
            return out
        if isinstance(e, sympy.Pow):
            b, p = e.args
            if p.is_number: return s.pow(self.den(b), float(p) if not p.is_Integer else int(p))
            raise NotImplementedError(f"power {e}")
        if isinstance(e, self.E): return s.mean(self.den(e.args[0]))
        if isinstance(e, sympy.Derivative):
            out = self.den(e.expr)
            for v, n in e.variable_count:
                if v not in s.coords: return s.const(0.)
                out = s.diff(out, s.coords.index(v), int(n))
            return out
        if isinstance(e, sympy.Abs): 
            a = self.den(e.args[0]); sg = np.sign(s.val(a)).reshape((-1,) + (1,) * len(s.shape))
            return a * sg
        if isinstance(e, sympy.exp): return s.compose(self.den(e.args[0]), lambda a0, n: [np.exp(a0)] * (n + 1))
        if isinstance(e, sympy.sin): return s.compose(self.den(e.args[0]), lambda a0, n: _trig(a0, n, "sin"))
        if isinstance(e, sympy.cos): return s.compose(self.den(e.args[0]), lambda a0, n: _trig(a0, n, "cos"))
        if isinstance(e, sympy.log):
            def dl(a0, n):
                return [np.log(a0)] + [(-1) ** (k - 1) * math.factorial(k - 1) * a0 ** (-float(k)) for k in range(1, n + 1)]
            return s.compose(self.den(e.args[0]), dl)
        if isinstance(e, sympy.Function):
            name = str(e.func)
            if name in self.functions: return self.functions[name]
            raise KeyError(f"unknown function {e}")
        raise NotImplementedError(f"{type(e)}: {e}")

    def scale(self, e):
        """magnitude of the terms of a sum, to calibrate the tolerance of a residual"""
        e = sympy.sympify(e)
        terms = e.args if isinstance(e, sympy.Add) else [e]
        return max([float(np.max(np.abs(self.s.val(self.den(a))))) for a in terms] + [0.])


def need(e, E, coords):
    """largest number of derivations met on a path, per coordinate"""
    if isinstance(e, sympy.Derivative):
        n = need(e.expr, E, coords)
        for v, k in e.variable_count:
            if v in n: n[v] += int(k)
        return n
    out = {c: 0 for c in coords}
    for a in e.args:
        if isinstance(a, sympy.Basic):
            m = need(a, E, coords)
            for c in coords: out[c] = max(out[c], m[c])
    return out
