"""Symbolic execution of the generated programs (C11, C12).

Arrays on the grid are known by their value at an arbitrary grid point and at the points reached from it by integer shifts: an
array is a function  shift -> expression.  Numbers are exact (sympy expressions; the floats written in the code are the rationals
they stand for); equality of two values is decided by normal forms of sympy and, when it is not, left unknown, unless exact
evaluation at rational points tells them apart."""
import ast, json, os, subprocess, sys, tempfile, types, fractions
import sympy, z3
import engine
from engine import SInt, SReal, SRC, Unsupported, VDict, VList, SymSeq, zterm
from loader import World, Instrument
from models_np import Missing

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def generate(E, seed, n, *what):
    """the programs, generated by the code of the repository"""
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "g.json")
        env = dict(os.environ, PYTHONPATH=SRC, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([VENV, "-W", "ignore", os.path.join(HERE, "gen.py"), out, str(seed), *map(str, n), *what], env=env, cwd=d, capture_output=True, text=True, timeout=max(20, E.deadline - 30 - __import__("time").time()))
        if not os.path.exists(out):
            E.undecided.append("generation of the programs: " + p.stderr[-400:])
            return []
        return json.load(open(out))


# ---------------------------------------------------------------- exact values
def exact(v):
    if isinstance(v, bool): return sympy.Integer(int(v))
    if isinstance(v, int): return sympy.Integer(v)
    if isinstance(v, float):
        if v != v: raise Unsupported("nan in the trend")
        f = fractions.Fraction(v).limit_denominator(10 ** 6)
        if v and abs(float(f) - v) > 1e-15 * abs(v): raise Unsupported(f"the float {v!r} is not a simple rational")
        return sympy.Rational(f.numerator, f.denominator)
    if isinstance(v, sympy.Expr): return v
    raise Unsupported(f"{type(v).__name__} as a number")


class Scalar:
    """number of the program"""
    vc_frozen = True
    def __init__(self, e): self.e = exact(e)
    def _b(self, o, f):
        if isinstance(o, Scalar): return Scalar(f(self.e, o.e))
        if isinstance(o, (int, float)): return Scalar(f(self.e, exact(o)))
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._b(o, lambda a, b: b ** a)
    def __neg__(self): return Scalar(-self.e)
    def __pos__(self): return self
    def __abs__(self): return Scalar(sympy.Abs(self.e))
    def __bool__(self): raise Unsupported("truth of a symbolic number")
    def __eq__(self, o): raise Unsupported("comparison of symbolic numbers")
    __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __eq__
    __hash__ = None
    def __repr__(self): return f"{self.e}"


class Cell:
    def __init__(self, at, real=True): self.at, self.real, self.writes = at, real, 0


trunc = sympy.Function("truncated_to_an_integer")


class GA:
    """array on the grid (or on some of its axes)"""
    vc_frozen = True
    vc_isinstance = None
    __array_priority__ = 100
    def __init__(self, cell, axes): self.cell, self.axes = cell, tuple(axes)
    @property
    def shape(self): return GridShape(self.axes)
    @property
    def ndim(self): return len(self.axes)
    @property
    def dtype(self): return DType(self.cell.real)
    @staticmethod
    def combine(f, *ops, real=None):
        arrays = [o for o in ops if isinstance(o, GA)]
        axes = max((a.axes for a in arrays), key=len)
        for a in arrays:
            if a.axes != axes[len(axes) - len(a.axes):]: raise Unsupported("arrays on different axes")
        ats = [o.cell.at if isinstance(o, GA) else (lambda s, e=(o.e if isinstance(o, Scalar) else exact(o)): e) for o in ops]
        if real is None: real = any((o.cell.real if isinstance(o, GA) else not isinstance(o, int)) for o in ops)
        return GA(Cell(lambda s: f(*[at(s) for at in ats]), real), axes)
    def _b(self, o, f, real=None):
        if isinstance(o, (GA, Scalar, int, float)): return GA.combine(f, self, o, real=real)
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b, True)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a, True)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._b(o, lambda a, b: b ** a)
    def __neg__(self): return GA.combine(lambda a: -a, self)
    def __pos__(self): return GA.combine(lambda a: a, self)
    def __abs__(self): return GA.combine(sympy.Abs, self)
    def copy(self): return GA.combine(lambda a: a, self)
    def astype(self, t, **k):
        if t is float or (isinstance(t, DType) and t.real): return GA(Cell(self.cell.at, True), self.axes)
        raise Unsupported("astype")
    def write(self, v):
        if isinstance(v, GA):
            if v.axes != self.axes[len(self.axes) - len(v.axes):]: raise Unsupported("assignment of an array on other axes")
            at, real = v.cell.at, v.cell.real
        elif isinstance(v, (Scalar, int, float)):
            e = v.e if isinstance(v, Scalar) else exact(v); at, real = (lambda s: e), not isinstance(v, int)
        else: raise Unsupported(f"assignment of {type(v).__name__}")
        if real and not self.cell.real:
            old = at; at = lambda s: trunc(old(s))
        self.cell.at = at; self.cell.writes += 1
    def _i(self, o, f):
        r = f(self, o)
        if r is NotImplemented: return r
        self.write(r); return self
    def __iadd__(self, o): return self._i(o, GA.__add__)
    def __isub__(self, o): return self._i(o, GA.__sub__)
    def __imul__(self, o): return self._i(o, GA.__mul__)
    def __itruediv__(self, o): return self._i(o, GA.__truediv__)
    def __ipow__(self, o): return self._i(o, GA.__pow__)
    def __setitem__(self, k, v):
        if k is Ellipsis or isinstance(k, slice) and k == slice(None) or (isinstance(k, tuple) and all(q is Ellipsis or q == slice(None) for q in k)): self.write(v)
        else: raise Unsupported("assignment of a part of an array")
    def __getitem__(self, k):
        if k is Ellipsis or isinstance(k, slice) and k == slice(None): return self
        if isinstance(k, Shift): k = Ix([k])
        if isinstance(k, Ix):
            if len(k.shifts) != len(self.axes): raise Unsupported("number of index arrays")
            for s, a in zip(k.shifts, self.axes):
                if s.axis != a: raise WrongAxis(f"the index array of axis {s.axis} is used along axis {a}")
            d = {s.axis: s.k for s in k.shifts}
            at = self.cell.at
            return GA(Cell(lambda s: at(tuple(v + d.get(i, 0) for i, v in enumerate(s))), self.cell.real), self.axes)
        raise Unsupported("indexing of an array")
    def __bool__(self): raise Unsupported("truth of an array")
    def __eq__(self, o): raise Unsupported("comparison of arrays")
    __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __eq__
    __hash__ = None
del GA.vc_isinstance


class WrongAxis(Exception): pass


class DType:
    vc_frozen = True
    def __init__(self, real): self.real = real
    def __eq__(self, o): return (o is float and self.real) or (o is int and not self.real) or (isinstance(o, DType) and o.real == self.real)
    def __hash__(self): return 3


class GridShape:
    vc_frozen = True
    def __init__(self, axes, n=None): self.axes, self.n = axes, n
    def __eq__(self, o): return isinstance(o, GridShape) and (o.axes, o.n) == (self.axes, self.n)
    def __hash__(self): return 3
    def __getitem__(self, k):
        if k == slice(1, None) and self.n is not None: return GridShape(self.axes)
        if k == 0 and self.n is not None: return self.n
        raise Unsupported("part of a shape")
    def __radd__(self, o):
        if isinstance(o, tuple) and len(o) == 1 and self.n is None: return GridShape(self.axes, o[0])
        raise Unsupported("sum of shapes")


class State:
    """array of n fields"""
    vc_frozen = True
    def __init__(self, cells, axes, real=True): self.cells, self.axes, self.real = cells, tuple(axes), real
    @property
    def shape(self): return GridShape(self.axes, len(self.cells))
    @property
    def dtype(self): return DType(self.real)
    def __len__(self): return len(self.cells)
    def __iter__(self): return iter([self[i] for i in range(len(self.cells))])
    def __getitem__(self, k):
        if isinstance(k, int) and not isinstance(k, bool): return GA(self.cells[k], self.axes)
        if k is Ellipsis or isinstance(k, slice) and k == slice(None): return self
        if isinstance(k, tuple) and len(k) >= 1 and isinstance(k[0], int) and all(q is Ellipsis or q == slice(None) for q in k[1:]): return GA(self.cells[k[0]], self.axes)
        raise Unsupported("indexing of a state")
    def __setitem__(self, k, v):
        if isinstance(k, (int, tuple)): self[k].write(v)
        elif k is Ellipsis or isinstance(k, slice) and k == slice(None):
            for i in range(len(self.cells)): self[i].write(v[i] if isinstance(v, State) else v)
        else: raise Unsupported("assignment in a state")
    def copy(self): return State([Cell(c.at, c.real) for c in self.cells], self.axes, self.real)
    def __bool__(self): raise Unsupported("truth of an array")
    def __eq__(self, o): raise Unsupported("comparison of arrays")
    __hash__ = None


class Shift:
    """contract of index(c,k) (C12): the indices i+k modulo the number of points of the axis"""
    vc_frozen = True
    def __init__(self, axis, k): self.axis, self.k = axis, k


class Ix:
    vc_frozen = True
    def __init__(self, shifts): self.shifts = shifts


def trend_numpy():
    m = Missing("numpy")
    def mapped(f):
        def g(x, **k):
            if k: raise Unsupported("ufunc with keywords")
            return GA.combine(f, x, real=True) if isinstance(x, GA) else Scalar(f(x.e if isinstance(x, Scalar) else exact(x)))
        return g
    for n, f in dict(sin=sympy.sin, cos=sympy.cos, tan=sympy.tan, exp=sympy.exp, log=sympy.log, sqrt=sympy.sqrt, tanh=sympy.tanh, sinh=sympy.sinh, cosh=sympy.cosh,
                     arctan=sympy.atan, arcsin=sympy.asin, arccos=sympy.acos, abs=sympy.Abs, absolute=sympy.Abs, sign=sympy.sign, negative=lambda a: -a,
                     square=lambda a: a ** 2, reciprocal=lambda a: 1 / a).items(): setattr(m, n, mapped(f))
    m.abs = lambda x: GA.combine(sympy.Abs, x) if isinstance(x, GA) else Scalar(sympy.Abs(x.e if isinstance(x, Scalar) else exact(x)))
    m.pi, m.e, m.E = Scalar(sympy.pi), Scalar(sympy.E), Scalar(sympy.E)
    m.nan = float("nan")
    m.float64 = float; m.newaxis = None
    class ndarray: pass
    m.ndarray = ndarray
    def made(real, shape, value):
        if not isinstance(shape, GridShape): raise Unsupported("array of another shape")
        cell = lambda: Cell(lambda s: value, real)
        return GA(cell(), shape.axes) if shape.n is None else State([cell() for _ in range(shape.n)], shape.axes, real)
    def isreal(dtype):
        if dtype is None or dtype is float: return True
        if isinstance(dtype, DType): return dtype.real
        if dtype is int: return False
        if getattr(dtype, "vc_class", None) in (int, float): return dtype.vc_class is float
        raise Unsupported("dtype")
    junk = sympy.Symbol("uninitialized")
    m.zeros = lambda shape, dtype=None: made(isreal(dtype), shape, sympy.Integer(0))
    m.ones = lambda shape, dtype=None: made(isreal(dtype), shape, sympy.Integer(1))
    m.empty = lambda shape, dtype=None: made(isreal(dtype), shape, junk)
    m.zeros_like = lambda a, dtype=None: made(a.dtype.real if dtype is None else isreal(dtype), a.shape, sympy.Integer(0))
    m.empty_like = lambda a, dtype=None: made(a.dtype.real if dtype is None else isreal(dtype), a.shape, junk)
    def array(l, dtype=None, **k):
        if isinstance(l, State): return l.copy()
        l = list(l)
        if not l or not all(isinstance(a, GA) for a in l) or len({a.axes for a in l}) != 1: raise Unsupported("np.array")
        real = any(a.cell.real for a in l)
        return State([Cell(a.cell.at, real) for a in l], l[0].axes, real)
    m.array = m.stack = array
    def asarray(a, *r, **k):
        if isinstance(a, (State, GA)) and not r and not k: return a
        raise Unsupported("np.asarray")
    m.asarray = asarray
    def ix_(*a):
        if not all(isinstance(s, Shift) for s in a): raise Unsupported("np.ix_")
        return Ix(list(a))
    m.ix_ = ix_
    def roll(a, k, axis=None):
        if not isinstance(a, GA): raise Unsupported("np.roll")
        if axis is None:
            if len(a.axes) != 1: raise Unsupported("np.roll without axis")
            axis = 0
        ax = (axis,) if isinstance(axis, int) else tuple(axis); ks = (k,) if isinstance(k, int) else tuple(k)
        d = {}
        for x, q in zip(ax, ks): d[a.axes[x]] = d.get(a.axes[x], 0) - q
        at = a.cell.at
        return GA(Cell(lambda s: at(tuple(v + d.get(i, 0) for i, v in enumerate(s))), a.cell.real), a.axes)
    m.roll = roll
    def power(a, b): return a ** b
    m.power = power
    def extreme(f):
        def g(l, axis=None, **k):
            if axis != 0 or k: raise Unsupported("np.amax")
            l = list(l)
            return GA.combine(f, *l) if any(isinstance(v, GA) for v in l) else Scalar(f(*[exact(v) if not isinstance(v, Scalar) else v.e for v in l]))
        return g
    m.amax = extreme(sympy.Max); m.amin = extreme(sympy.Min)
    m.maximum = lambda a, b: m.amax((a, b), axis=0); m.minimum = lambda a, b: m.amin((a, b), axis=0)
    return m


def load_program(text, models, name="generated"):
    """the program, instrumented as the modules of the repository; `from sympkf.model import Model` is the real module"""
    W = World(models)
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = W.builtins(); m.__dict__["_vc_"] = W.vc
    m.__package__ = ""
    tree = Instrument(name).visit(ast.parse(text, name))
    ast.fix_missing_locations(tree)
    exec(compile(tree, name, "exec"), m.__dict__)
    return m


# ---------------------------------------------------------------- equality of values
def decide_equal(a, b, tries=6):
    """True (normal forms), False (exact or high precision evaluation at some point), None"""
    a, b = sympy.sympify(a), sympy.sympify(b)
    from sympy.core.function import AppliedUndef
    def opaque(e):
        """unknown functions (of anything) are independent unknowns"""
        if isinstance(e, AppliedUndef): return sympy.Symbol(str(e))
        return e.func(*[opaque(q) for q in e.args]) if e.args else e
    a, b = opaque(a), opaque(b)
    d = a - b
    if d == 0 or sympy.expand(d) == 0: return True
    syms = sorted(d.free_symbols, key=str)
    import random
    rng = random.Random(7)
    diff = same = 0
    for k in range(tries):
        pt = {s: sympy.Rational(rng.randrange(1, 40), rng.randrange(3, 23)) for s in syms}
        try:
            va, vb = sympy.N(a.subs(pt), 60), sympy.N(b.subs(pt), 60)
            if not (va.is_number and vb.is_number) or va.has(sympy.nan, sympy.zoo) or vb.has(sympy.nan, sympy.zoo): continue
            err, size = abs(sympy.N(va - vb, 40)), 1 + abs(va) + abs(vb)
            if err > sympy.Float("1e-25") * size: return False
            same += 1
        except (TypeError, ValueError, ZeroDivisionError): continue
    if same:
        for f in (lambda e: sympy.cancel(sympy.together(e)), lambda e: sympy.expand(sympy.powdenest(sympy.together(e), force=True)), sympy.simplify):
            try:
                if f(d) == 0: return True
            except Exception: pass
    return None
