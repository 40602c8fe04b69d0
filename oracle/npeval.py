"""Independent evaluation, on a periodic grid, of an expression without derivatives whose fields are shifted."""
import numpy as np
import sympy
from sympy import Add, Mul, Pow, Symbol
from sympy.core.function import AppliedUndef

FUN = {sympy.sin: np.sin, sympy.cos: np.cos, sympy.tan: np.tan, sympy.exp: np.exp, sympy.log: np.log, sympy.tanh: np.tanh,
       sympy.sinh: np.sinh, sympy.cosh: np.cosh, sympy.Abs: np.abs, sympy.sign: np.sign, sympy.atan: np.arctan}


class Grid:
    def __init__(self, coords, shape, dx, fields, consts):
        """fields: {func name: (args, array of the shape of the grid)}"""
        self.coords, self.shape, self.fields, self.consts = coords, shape, fields, consts
        self.inc = {Symbol("d" + str(c)): h for c, h in zip(coords, dx)}

    def field(self, f):
        args, arr = self.fields[f.func.__name__]
        out = arr
        for a, c in zip(f.args, args):
            if a == c: continue
            k = sympy.simplify((a - c) / Symbol("d" + str(c)))
            assert k.is_Integer, f
            out = np.roll(out, -int(k), axis=self.coords.index(c))
        return out

    def ev(self, e):
        if isinstance(e, AppliedUndef): return self.field(e)
        if e.is_Integer: return float(int(e))
        if e.is_Rational: return int(e.p) / int(e.q)
        if e.is_Float: return float(e)
        if e is sympy.pi: return np.pi
        if e is sympy.E: return np.e
        if isinstance(e, Symbol):
            if e in self.inc: return self.inc[e]
            return self.consts[e]
        if isinstance(e, Add):
            s = 0.
            for a in e.args: s = s + self.ev(a)
            return s
        if isinstance(e, Mul):
            s = 1.
            for a in e.args: s = s * self.ev(a)
            return s
        if isinstance(e, Pow): return np.power(self.ev(e.base) * 1., self.ev(e.exp))
        for k, f in FUN.items():
            if isinstance(e, k): return f(self.ev(e.args[0]))
        if isinstance(e, sympy.Max): return np.maximum.reduce([self.ev(a) + np.zeros(self.shape) for a in e.args])
        raise NotImplementedError(f"{type(e)} {e}")

    def rhs(self, r, fd):
        """value of a right-hand side: each derivative of a field is replaced by fd(derivative)"""
        r = r.doit()
        D = {d: sympy.Dummy() for d in r.atoms(sympy.Derivative)}
        vals = {}
        for d, s in D.items():
            vals[s] = self.ev(fd(d))
        g = Grid(self.coords, self.shape, [self.inc[Symbol("d" + str(c))] for c in self.coords], self.fields, {**self.consts, **vals})
        return g.ev(r.xreplace(D)) + np.zeros(self.shape)
