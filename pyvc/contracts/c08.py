"""C08: the algebra of equations acts equally on both sides.

Arithmetic: the sides are arbitrary expressions of the differential algebra (generic symbols, fields, derivatives, numbers, sums):
the result of each operator must be an equation of the class of self with the stated sides, the operands being left alone.
subs / doit / expand: the base class of sympy is replaced by its contract -- it acts on both sides with the given arguments and
returns an equation (of any equation class), or a truth value --, the sides are arbitrary values that only remember what is asked of
them; the result must be the truth value, or an equation of the class of self with these sides.
isolate: for a0*x + b0 = a1*x + b1 with arbitrary coefficients free of x."""
import itertools, types
import engine, cas
from cas import sym, num, X, Fr, FnSym, Equation
from pkfsem import equal
from . import symb

OPS = ("__add__", "__sub__", "__neg__", "__mul__", "__imul__")


def load(E, base=None):
    def prepare(m):
        if base is not None: m.Eq = m.Equality = base
    W = symb.world(prepare=prepare)
    return W.load("vsympkf.symbolic.util")


def classes(U):
    class Sub(U.Eq): pass
    return {"Eq": U.Eq, "subclass of Eq": Sub}


def sides(E):
    t, x = sym("t"), sym("x")
    u = FnSym("u")(t, x)
    pool = {"generic": [sym(n) for n in "abcd"],
            "fields": [cas.Derivative(u, t), u * cas.Derivative(u, x) + sym("a"), u, sym("b") * u],
            "numbers": [num(0), num(3), num(Fr(-1, 2)), num(1)],
            "zero right": [cas.Derivative(u, t), num(0), u, num(0)],
            "same": [sym("a"), sym("b"), sym("a"), sym("b")]}
    return pool[E.choose(list(pool))]


def is_eq(E, r, cls, a, b, what):
    ok = isinstance(r, Equation)
    E.prove("the result is an equation", ok, detail="" if ok else f"{what}: {r!r}"[:300])
    if not ok: return
    E.prove("the equation is of the class of self", type(r) is cls, detail=f"{what}: {type(r)}")
    ok = cas.asx(r.args[0]) == a and cas.asx(r.args[1]) == b
    E.prove("the sides are those of the operation", ok, detail="" if ok else f"{what}: {r!r} for {a} = {b}"[:500], backend="differential-algebra normal form")


def arithmetic(E, op):
    def run():
        U = load(E)
        cs = classes(U)
        cls, cls2 = cs[E.choose(list(cs))], cs[E.choose(list(cs))]
        a, b, c, d = sides(E)
        e1, e2 = cls(a, b), cls2(c, d)
        if E.choose(["two equations", "one object"]) == "one object": e2, c, d = e1, a, b
        s = E.choose([sym("s"), num(2), num(0), num(1), num(-1), num(Fr(1, 3)), FnSym("u")(sym("t"), sym("x")), 3])
        if op == "__add__": is_eq(E, e1 + e2, cls, a + c, b + d, "e1+e2")
        elif op == "__sub__": is_eq(E, e1 - e2, cls, a - c, b - d, "e1-e2")
        elif op == "__neg__": is_eq(E, -e1, cls, -a, -b, "-e1")
        elif op == "__mul__": is_eq(E, e1 * s, cls, s * a, s * b, f"e1*({s})")
        elif op == "__imul__":
            r = e1
            if E.choose(["scalar", "equation"]) == "scalar":
                r *= s
                is_eq(E, r, cls, s * a, s * b, f"e1*=({s})")
            else:
                r *= e2
                is_eq(E, r, cls, a * c, b * d, "e1*=e2")
        E.prove("the operands are left alone", type(e1) is cls and e1.args == (a, b) and e2.args == (c, d))
    return run


class Side:
    """arbitrary side of an equation: remembers the operation asked, with its arguments"""
    vc_frozen = True
    def __init__(self, *d): self.d = d
    def __eq__(self, o): return isinstance(o, Side) and o.d == self.d
    def __hash__(self): return hash(str(self.d))
    def op(self, name, a, k): return Side(name, self, tuple(a), tuple(sorted(k.items())))
    def subs(self, *a, **k): return self.op("subs", a, k)
    def doit(self, *a, **k): return self.op("doit", a, k)
    def expand(self, *a, **k): return self.op("expand", a, k)
    def __repr__(self): return str(self.d)


class Truth:
    """BooleanTrue / BooleanFalse"""
    vc_frozen = True
    args = ()
    def __init__(self, v): self.v = v
    def __bool__(self): return self.v
    def __eq__(self, o): return o is self or o is self.v
    def __hash__(self): return hash(self.v)


def base_class(E):
    """contract of sympy.Eq: an operation acts on both sides; the result is an equation, of the base class or of the class of self,
    or a truth value"""
    class Base(Equation):
        def act(self, name, a, k):
            args = [getattr(v, name)(*a, **k) for v in self.args]
            r = E.choose(["base", "own", "true", "false"])
            Base.last = Truth(r == "true") if r in ("true", "false") else None
            if Base.last is not None: return Base.last
            return (Base if r == "base" else type(self))(*args)
        def subs(self, *a, **k): return Base.act(self, "subs", a, k)
        def doit(self, *a, **k): return Base.act(self, "doit", a, k)
        def expand(self, *a, **k): return Base.act(self, "expand", a, k)
        @property
        def func(self): return type(self)
        last = None
    return Base


CALLS = {"subs": [(("x", "y"), {}), (({"x": "y", "y": "x"},), {}), (([("x", "y")],), {}), (("x", "y"), {"simultaneous": True})],
         "doit": [((), {}), ((), {"deep": False}), ((), {"integrals": False, "deep": True})],
         "expand": [((), {}), ((), {"trig": True}), ((), {"deep": False, "force": True}), ((True,), {"power_base": False})]}


def structural(E, name):
    def run():
        B = base_class(E)
        U = load(E, B)
        cs = classes(U)
        cls = cs[E.choose(list(cs))]
        l, r = Side("left"), Side("right")
        e = cls(l, r)
        a, k = E.choose(CALLS[name])
        res = getattr(e, name)(*a, **k)
        if B.last is not None:
            E.prove("the truth value to which the equation reduces is returned", res is B.last or (isinstance(res, Truth) and res.v == B.last.v) or (isinstance(res, bool) and res == B.last.v),
                    detail=repr(res))
        else:
            ok = isinstance(res, Equation)
            E.prove("the result is an equation", ok, detail=repr(res))
            if ok:
                E.prove("the equation is of the class of self", type(res) is cls, detail=str(type(res)))
                want = (l.op(name, a, k), r.op(name, a, k))
                E.prove("both sides are transformed, with the arguments given", tuple(res.args) == want, detail=f"{res.args} for {want}"[:500])
        E.prove("the equation is left alone", type(e) is cls and e.args == (l, r))
    return run


def isolate(E):
    def run():
        U = load(E)
        cs = classes(U)
        cls = cs[E.choose(list(cs))]
        t, xx = sym("t"), sym("x")
        u = FnSym("u")(t, xx)
        x = E.choose([sym("z"), u, cas.Derivative(u, t), cas.Derivative(u, (xx, 2))])
        pools = [[sym("p"), num(0), num(1), FnSym("v")(t, xx), num(-2)], [sym("q"), num(0), FnSym("w")(t, xx)],
                 [sym("r"), num(0), num(3)], [sym("s"), num(0), FnSym("w")(t, xx) * sym("s")]]
        a0, a1, b0, b1 = [E.choose(p) for p in (pools[0], pools[2], pools[1], pools[3])]
        if not (a0 - a1).d: raise engine.PathDone()
        e = cls(a0 * x + b0, a1 * x + b1)
        r = e.isolate(x)
        ok = isinstance(r, Equation)
        E.prove("the result is an equation", ok, detail=repr(r))
        if not ok: return
        E.prove("the equation is of the class of self", type(r) is cls, detail=str(type(r)))
        E.prove("the left-hand side is the isolated expression", cas.asx(r.args[0]) == x, detail=str(r.args[0]))
        y = cas.asx(r.args[1])
        E.prove("the right-hand side does not contain it", x.single() not in y.allgens(), detail=str(y))
        E.prove("the equation is equivalent to the original one", equal((a0 - a1) * y, b1 - b0), detail=f"{y} for ({a0 - a1})*x = {b1 - b0}", backend="differential-algebra normal form")
        E.prove("the equation is left alone", e.args == (a0 * x + b0, a1 * x + b1))
    return run


def verify(E):
    E.trusted += ["sympy: sums and products of expressions (differential algebra), solve of an equation that is linear in the unknown",
                  "sympy.Eq: subs, doit and expand act on both sides and return an equation or a truth value"]
    E.assumptions += ["the sides are generic expressions (the code does not look into them other than through the operations of the algebra; a few special shapes are explored besides)"]
    for op in OPS: E.explore(f"Eq.{op}", arithmetic(E, op), f"sympkf.symbolic.util.Eq.{op}")
    for n in CALLS: E.explore(f"Eq.{n}", structural(E, n), f"sympkf.symbolic.util.Eq.{n}")
    E.explore("Eq.isolate", isolate(E), "sympkf.symbolic.util.Eq.isolate")
