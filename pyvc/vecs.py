"""states as vectors: normal form of linear combinations (decision procedure for the equality of states)

A state is an arbitrary vector of an arbitrary real vector space (numpy arrays of every shape), the trend an arbitrary
function of (time, state).  A value is a linear combination, with coefficients rational in the symbols, of the initial
states and of values of the trend; trend(t,s) is the same generator as trend(t',s') exactly when t=t' and s=s' are proved
(congruence), so that equality of normal forms is equality for every trend, time, step and state."""
import z3
import engine
from engine import SReal, SInt, SNum, zterm, Unsupported


class Space:
    def __init__(self):
        self.gens = []          # name or (function, t, combination)

    def var(self, name):
        self.gens.append(name)
        return Vec(self, {len(self.gens) - 1: z3.RealVal(1)}, name)

    def ones(self):
        """generator: the state whose components are all one"""
        if "ones" not in self.gens: self.gens.append("ones")
        return self.gens.index("ones")

    def apply(self, f, t, v):
        E = engine.CUR
        if not isinstance(v, Vec): raise Unsupported(f"trend of a {type(v).__name__}")
        t = zterm(t)
        for i, g in enumerate(self.gens):
            if isinstance(g, tuple) and g[0] == f and E.holds(g[1] == t) and self.equal(g[2], v.c): return Vec(self, {i: z3.RealVal(1)}, f)
        self.gens.append((f, t, dict(v.c)))
        return Vec(self, {len(self.gens) - 1: z3.RealVal(1)}, f)

    def equal(self, a, b):
        E = engine.CUR
        return all(E.holds(a.get(k, z3.RealVal(0)) == b.get(k, z3.RealVal(0))) for k in set(a) | set(b))

    def eq(self, a, b):
        """equality of two combinations, as a formula"""
        return z3.And([a.get(k, z3.RealVal(0)) == b.get(k, z3.RealVal(0)) for k in sorted(set(a) | set(b))])

    def show(self, c):
        out = []
        for k, v in sorted(c.items()):
            g = self.gens[k]
            out.append(f"({z3.simplify(v)})*" + (g if isinstance(g, str) else f"{g[0]}({z3.simplify(g[1])}, {self.show(g[2])})"))
        return " + ".join(out) or "0"


def scalar(o):
    if isinstance(o, bool): return None
    if isinstance(o, (int, float, SNum)):
        z = zterm(o)
        return z3.ToReal(z) if z3.is_int(z) else z
    return None


class Vec:
    vc_frozen = True
    __array_ufunc__ = None
    def __init__(self, space, c, origin=None): self.space, self.c, self.origin = space, c, origin

    def _comb(self, o, sign):
        if not isinstance(o, Vec): 
            if isinstance(o, (int, float)) and o == 0: return dict(self.c)
            z = scalar(o)
            if z is None: return None
            o = Vec(self.space, {self.space.ones(): z})        # a number is broadcast to all the components
        c = dict(self.c)
        for k, v in o.c.items():
            c[k] = c[k] + sign * v if k in c else (v if sign == 1 else -v)
        return c
    def _scale(self, z): return {k: v * z for k, v in self.c.items()}

    def new(self, c): return NotImplemented if c is None else Vec(self.space, c)
    def __add__(self, o): return self.new(self._comb(o, 1))
    __radd__ = __add__
    def __sub__(self, o): return self.new(self._comb(o, -1))
    def __rsub__(self, o):
        r = self - o
        return r if r is NotImplemented else -r
    def __neg__(self): return self.new(self._scale(z3.RealVal(-1)))
    def __pos__(self): return self.new(dict(self.c))
    def __mul__(self, o):
        z = scalar(o)
        return NotImplemented if z is None else self.new(self._scale(z))
    __rmul__ = __mul__
    def __truediv__(self, o):
        z = scalar(o)
        if z is None: return NotImplemented
        if not engine.CUR.holds(z != 0): raise Unsupported("division by a possibly null number")
        return self.new(self._scale(1 / z))
    def _in(self, c):
        if c is None: return NotImplemented
        self.c = c
        return self
    def __iadd__(self, o): return self._in(self._comb(o, 1))
    def __isub__(self, o): return self._in(self._comb(o, -1))
    def __imul__(self, o):
        z = scalar(o)
        return NotImplemented if z is None else self._in(self._scale(z))
    def __itruediv__(self, o):
        z = scalar(o)
        return NotImplemented if z is None else self._in(self._scale(1 / z))
    def __setitem__(self, i, v):
        if i != slice(None) and i is not Ellipsis: raise Unsupported("partial assignment of a state")
        if not isinstance(v, Vec): raise Unsupported("assignment of a state")
        self.c = dict(v.c)
    def __getitem__(self, i):
        if i == slice(None) or i is Ellipsis: raise Unsupported("view of a state")
        raise Unsupported("component of a state")
    def copy(self): return Vec(self.space, dict(self.c))
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, *a, **k): return self.copy()
    def __eq__(self, o): raise Unsupported("comparison of states")
    def __bool__(self): raise Unsupported("truth value of a state")
    def __iter__(self): raise Unsupported("iteration over a state")
    __hash__ = object.__hash__
    def __repr__(self): return self.space.show(self.c)
