"""C10: finite differences are consistent at the second order on the regular grid.

get_subs_derivative, for every order (symbolic integers) in every variable, arbitrary names: the points given to sympy's
as_finite_difference are distinct integer shifts of the coordinate, symmetric, and at least one more than the order.  With the contract
of as_finite_difference (Fornberg: the exact weights of the interpolation polynomial) this is consistency at the second order.
finite_difference on the algebra: arbitrary (opaque, nonlinear) expressions of derivatives, every combination of small orders (shape
bound): each derivative is replaced by a composition of difference operators of the same orders, whose points are checked exactly
(moments of the weights), and no derivative is left."""
import itertools
import fractions
import numpy
import engine, cas
from cas import sym, num, X, FnSym, T, asx
from engine import SInt, SBool, SymSeq, VList, VSet, Unsupported, zterm
from loader import World
from . import symb
from .c17 import Sy, Nm, Step, Expr_
from .c09 import Atoms
import z3

Fr = fractions.Fraction


class ARange(SymSeq):
    """lo, lo + step, .. (n terms), n symbolic"""
    def __init__(self, lo, n, step):
        super().__init__(n, lambda i: lo + step * i, "range")
        self.lo, self.step = lo, step
    def vc_comp(self, vc, kind, gens, elt):
        if len(gens) != 1 or kind not in ("list", "gen"): raise Unsupported("comprehension over a symbolic range")
        j = z3.Int(engine.CUR.name("index"))
        k = SInt(z3.simplify(zterm(self.lo) + self.step * j))
        cond = z3.BoolVal(True)
        for c in gens[0][1]:
            v = c(k)
            v = v.z if isinstance(v, SBool) else z3.BoolVal(bool(v))
            cond = z3.And(cond, v)
        return Family(j, zterm(self.length), cond, elt(k))
    def __iter__(self): raise Unsupported("iteration over a symbolic range")


class Family:
    """{ value(j) : 0 <= j < n, cond(j) }"""
    vc_frozen = True
    def __init__(self, j, n, cond, value): self.j, self.n, self.cond, self.value = j, n, cond, value
    def __iter__(self): raise Unsupported("iteration over a symbolic family")
    def __len__(self): raise Unsupported("size of a symbolic family")


def arange(*a, **k):
    if k: raise Unsupported("arange with options")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    lo, hi = [v if isinstance(v, SInt) else int(v) for v in (lo, hi)]
    if not (isinstance(lo, SInt) or isinstance(hi, SInt)): return VList(list(range(lo, hi, int(st))))
    if not isinstance(st, int) or st <= 0: raise Unsupported("symbolic range")
    n = z3.simplify((zterm(hi) - zterm(lo) + (st - 1)) / st)
    return ARange(lo, SInt(z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))), st)


class Numpy:
    arange = staticmethod(arange)
    def __getattr__(self, k): return getattr(numpy, k)


class Sx(Sy):
    def __add__(self, o): return Lin.of(self) + o
    def __radd__(self, o): return Lin.of(self) + o
    def __sub__(self, o): return Lin.of(self) + (-1) * o
    def __mul__(self, k): return Lin.of(self) * k
    def __rmul__(self, k): return Lin.of(self) * k


class Lin:
    """linear combination of symbols"""
    vc_frozen = True
    def __init__(self, terms): self.terms = terms
    @staticmethod
    def of(v):
        if isinstance(v, Lin): return v
        if isinstance(v, Sx): return Lin({v.nm.z.sexpr(): 1})
        raise Unsupported("sum of a symbol and something else")
    def __add__(self, o):
        o = Lin.of(o)
        out = dict(self.terms)
        for k, c in o.terms.items(): out[k] = out[k] + c if k in out else c
        return Lin(out)
    __radd__ = __add__
    def __sub__(self, o): return self + Lin.of(o) * -1
    def __mul__(self, k):
        if not isinstance(k, (int, Fr, SInt, X)): raise Unsupported("product of symbols")
        if isinstance(k, X): k = k.const()
        return Lin({s: c * k for s, c in self.terms.items()})
    __rmul__ = __mul__


class Pair(tuple): vc_frozen = True


class Der(Expr_):
    """Derivative(f, (x, n), ..) of an arbitrary expression, symbolic orders"""
    kinds = ("Derivative", "Expr", "Basic")
    def __init__(self, f, vc): self.expr, self.variable_count = f, tuple(Pair(p) for p in vc); self.args = (f,) + self.variable_count
    @property
    def variables(self): raise Unsupported("list of the variables")
    def as_finite_difference(self, points=1, x0=None, wrt=None):
        if len(self.variable_count) != 1: raise Unsupported("difference of a mixed derivative")
        (x, o), = self.variable_count
        if x0 is not None and x0 is not x or wrt is not None and wrt is not x: raise Unsupported("other point of the difference")
        check_points(x, o, points)
        return Difference(self.expr, [(x, o)])


class Difference(Expr_):
    """a consistent difference of the given orders of an expression, then derivatives"""
    def __init__(self, f, done, rest=()): self.f, self.done, self.rest = f, done, tuple(rest)
    def doit(self, *a, **k): return self
    def expand(self, *a, **k): return self
    simplify = doit


def derivative(f, *vs, evaluate=False):
    out, i = [], 0
    vs = list(vs)
    while i < len(vs):
        v = vs[i]
        if isinstance(v, (tuple, list)): out.append((v[0], v[1]))
        elif i + 1 < len(vs) and isinstance(vs[i + 1], (int, SInt)): out.append((v, vs[i + 1])); i += 1
        else: out.append((v, 1))
        i += 1
    if isinstance(f, Difference): return Difference(f.f, f.done, f.rest + tuple(out))
    return Der(f, out)


class DerivativeClass:
    vc_kinds = ("Derivative",)
    def __new__(cls, f, *vs, **k): return derivative(f, *vs, **k)


def check_points(x, o, points):
    E = engine.CUR
    o = zterm(o)
    if isinstance(points, (Sx, Lin)):
        E.prove("sympy's own points are on the regular grid (even orders)", o % 2 == 0)
        return
    if isinstance(points, SymSeq): raise Unsupported("points")
    if not isinstance(points, Family): raise Unsupported("points of the difference")
    v = points.value
    v = v.terms if isinstance(v, Lin) else {}
    name, inc = x.nm.z.sexpr(), ("d" + x.nm).z
    others = [k for k in v if k != name]
    ok = name in v and len(others) == 1 and others[0] == inc.sexpr() and not isinstance(v[name], SInt) and v[name] == 1
    E.prove("the points are the coordinate plus multiples of its increment ('d' followed by its name)", ok, detail=str(v))
    if not ok: return
    k = v[others[0]]
    E.prove("the multiples are integers", isinstance(k, (int, SInt)), detail=str(k))
    if not isinstance(k, SInt): return
    k, j, n, cond = k.z, points.j, points.n, points.cond
    a = z3.simplify(z3.substitute(k, (j, z3.IntVal(0))))
    s = z3.simplify(z3.substitute(k, (j, z3.IntVal(1))) - a)
    if not (z3.is_int_value(s) and s.as_long() > 0 and E.holds(k == a + s * j)): raise Unsupported("points that are not in arithmetic progression")
    s = s.as_long()
    def member(m):
        i = (m - a) / s
        return z3.And((m - a) % s == 0, i >= 0, i < n, z3.substitute(cond, (j, i)))
    m = z3.Int(E.name("shift"))
    E.prove("the points are symmetric", z3.Implies(member(m), member(-m)), weak=True)
    i = z3.Int(E.name("rank"))
    enough = [z3.Implies(z3.And(0 <= i, i <= o), member(al + be * i)) for al, be in [(-(o / 2), 1), (-o, 2), (-o, 1), (a, s)]]
    E.prove("there are more points than the order", next((c for c in enough if E.holds(c)), enough[0]), weak=True)


def orders(E, k):
    def run():
        model = cas.sympy_model()
        W = World({"sympy": model, "numpy": Numpy()})
        FD = W.load("vsympkf.symbolic.finite_difference")
        class SymbolClass:
            vc_kinds = ("Symbol",)
            def __new__(cls, name, **k): return Sx(name)
        class IntegerClass:
            vc_kinds = ("Integer",)
            def __new__(cls, v): return v if isinstance(v, SInt) else int(v)
        model.Symbol, model.Integer, model.Derivative = SymbolClass, IntegerClass, DerivativeClass
        FD.range = arange
        for n in ("Symbol", "Integer", "Derivative"):
            if n in vars(FD): setattr(FD, n, getattr(model, n))
        f = Expr_()
        vc = []
        for j in range(k):
            o = Step(z3.Int(f"order{j}")); E.assume(o.z >= 1)
            vc.append((Sx(Nm(z3.String(f"coordinate{j}"))), o))
        r = FD.get_subs_derivative(Der(f, vc))
        ok = isinstance(r, Difference) and r.f is f
        E.prove("the derivative is replaced by a difference of the same function", ok)
        if not ok: return
        got = list(r.done) + list(r.rest)
        same = len(got) == k and all(any(x is y and zterm(n) is not None and E.holds(zterm(n) == zterm(q)) for y, q in got) for x, n in vc)
        E.prove("the difference and the derivatives left have the orders of the derivative", same, weak=True)
    return run


# ---------------------------------------------------------------------- on the algebra
def weights(ks, o):
    """exact weights of the derivative of order o at 0 from the points ks"""
    n = len(ks)
    A = [[Fr(k) ** p for k in ks] + [Fr(1)] for p in range(n)]
    import math
    for p in range(n): A[p][n] = Fr(math.factorial(o)) if p == o else Fr(0)
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c])
        A[c], A[p] = A[p], A[c]
        A[c] = [v / A[c][c] for v in A[c]]
        for r in range(n):
            if r != c and A[r][c]: A[r] = [u - A[r][c] * v for u, v in zip(A[r], A[c])]
    return [A[r][n] for r in range(n)]


def consistent(ks, o):
    if len(set(ks)) != len(ks): return "points given twice"
    if len(ks) < o + 1: return "not enough points"
    if len(ks) >= o + 2: return ""
    w = weights(ks, o)
    return "" if sum(a * k ** (o + 1) for a, k in zip(w, ks)) == 0 else "first order only"


def fd_name(name, orders):
    """name of the difference of orders {coordinate: n} of the field `name`"""
    base, old = (name.split("|fd|", 1) + [""])[:2]
    tot = {}
    for p in old.split(";") if old else []:
        c, n = p.rsplit("#", 1); tot[c] = int(n)
    for c, n in orders.items(): tot[c] = tot.get(c, 0) + n
    return base + "|fd|" + ";".join(f"{c}#{n}" for c, n in sorted(tot.items()) if n)


def as_finite_difference(self, points=1, x0=None, wrt=None):
    E = engine.CUR
    g = self.single()
    if g is None or g[0] != "j": raise Unsupported("finite difference of an expression")
    nz = [(s, n) for s, n in zip(g[1][1], g[2]) if n]
    w = asx(wrt).symbol() if wrt is not None else None
    if w is None:
        if len(nz) != 1: raise Unsupported("difference of a mixed derivative")
        w = nz[0][0]
    o = dict(nz).get(w, 0)
    if x0 is not None and asx(x0) != sym(w): raise Unsupported("other point of the difference")
    d = sym("d" + w)
    if isinstance(points, X):
        ks = [points.coeff(d) * num(i) / (1 if o % 2 == 0 else 2) for i in (range(-(o // 2), o // 2 + 1) if o % 2 == 0 else range(-o, o + 1, 2))]
        pts = [sym(w) + k * d for k in ks]
    else: pts = [asx(p) for p in points]
    ks = [(p - sym(w)).coeff(d) for p in pts]
    fine = all(k.const() is not None and p == sym(w) + k * d for p, k in zip(pts, ks))
    E.prove("the points are the coordinate plus multiples of its increment", fine, detail=f"{pts} for {w}")
    if not fine: raise engine.PathDone()
    ks = [k.const() for k in ks]
    E.prove("the points are on the regular grid", all(k.denominator == 1 for k in ks), detail=f"{pts}, order {o} in {w}")
    why = consistent(ks, o)
    E.prove("the difference is consistent at the second order", not why, detail=f"{why}: {pts}, order {o} in {w}", backend="exact weights")
    idx = tuple(0 if s == w else n for s, n in zip(g[1][1], g[2]))
    return cas.jet((fd_name(g[1][0], {w: o}), g[1][1]), idx)


def expected(x):
    """each derivative replaced by the difference of its orders"""
    x = cas.doit(x)
    def gen(g):
        if g[0] == "j" and sum(g[2]): return cas.jet((fd_name(g[1][0], {s: n for s, n in zip(g[1][1], g[2]) if n}), g[1][1]), ())
        if g[0] == "T": return cas.rebuild(g, [expected(n) if isinstance(n, X) else n for n in g[2:]])
        return cas.atom(g)
    out = num(0)
    for m, c in x.d.items():
        t = num(c)
        for g, e in m: t = t * cas.power(gen(g), num(e))
        out = out + t
    return out


plain_atoms = X.atoms
NAMES = {1: [("x",), ("d",)], 2: [("x", "y"), ("y", "x"), ("s", "\\theta"), ("d", "x")], 3: [("x", "y", "z"), ("z", "y", "X^{a}")], 4: [("x", "y", "z", "p"), ("b", "a", "d", "c")],
         5: [("a", "b", "c", "e", "g")], 6: [("a", "b", "c", "e", "g", "h")]}


def modules(E):
    X.as_finite_difference = as_finite_difference
    X.atoms = lambda self, *c: Atoms(plain_atoms(self, *c))
    Atoms.flip = E.choose([False, True])
    W = World({"sympy": cas.sympy_model(), "numpy": Numpy()})
    return W, W.load("vsympkf.symbolic.finite_difference"), W.load("vsympkf.symbolic.util")


def D(f, names, a):
    for s, n in zip(names, a):
        if n: f = cas.Derivative(f, (sym(s), n))
    return f


def check(E, got, e):
    left = plain_atoms(asx(got), cas.Derivative)
    E.prove("no derivative is left", not left, detail=f"{got} for {e}"[:400])
    want = expected(e)
    E.prove("each derivative is replaced by a difference of its orders, and nothing else changes", asx(got) == want, detail="" if asx(got) == want else f"{got} for {e}, expected {want}"[:600], backend="differential-algebra normal form")


def single(E, d, top):
    def run():
        W, FD, U = modules(E)
        names = E.choose(NAMES[d])
        time = E.choose([["t"], []])
        a = E.choose([a for a in itertools.product(range(top + 1), repeat=d) if 1 <= sum(a) <= top and (d < 4 or sum(map(bool, a)) >= d - 1)])
        u = FnSym("u")(*[sym(s) for s in time + list(names)])
        e = D(u, names, a)
        if E.choose([0, 1]): check(E, FD.finite_difference(e), e)
        else: check(E, FD.finite_difference_derivative(e), e)
    return run


def combined(E, d, top):
    def run():
        W, FD, U = modules(E)
        names = E.choose(NAMES[d][:2])
        t = sym("t")
        idx = [a for a in itertools.product(range(top + 1), repeat=d) if 1 <= sum(a) <= top]
        # (orders of one and two digits together as well)
        pairs = [(i, j) for i in range(len(idx)) for j in range(i + 1)]
        if d == 1: pairs += [(len(idx) + a, b) for a in range(2) for b in range(len(idx))]; idx = idx + [(10,), (12,)]
        i, j = E.choose(pairs)
        u = FnSym("u")(t, *[sym(s) for s in names])
        v = FnSym("v")(*[sym(s) for s in E.choose([names, names[:1]])])
        k = sym("k")
        p, q = D(u, names, idx[i]), D(u, names, idx[j])
        form = E.choose(["opaque", "polynomial", "composite"])
        if form == "opaque": e = T("any", p, q, u, k) + p * k
        elif form == "polynomial": e = 3 * p * q ** 2 - u * q / k + v * D(v, names, (1,) + (0,) * (d - 1)) * p + u
        else: e = D(T("any", u) * 1 if False else u * v, names, idx[j]) * u + p
        check(E, FD.finite_difference(e), e)
    return run


def every_order(E, d, top):
    """all the derivatives of two fields at once"""
    def run():
        W, FD, U = modules(E)
        names = E.choose(NAMES[d][:2])
        u = FnSym("u")(sym("t"), *[sym(s) for s in names])
        v = FnSym("v")(*[sym(s) for s in names])
        l = [D(f, names, a) for a in itertools.product(range(top + 1), repeat=d) if 1 <= sum(a) <= top for f in (u, v)]
        if E.choose([True, False]): l.reverse()
        e = T("any", *l, u, v)
        if E.choose([True, False]):
            for n, p in enumerate(l): e = e + num(n + 1) * p
        check(E, FD.finite_difference(e), e)
    return run


def systems(E):
    def run():
        W, FD, U = modules(E)
        names = E.choose(NAMES[2][:2] + NAMES[1][:1])
        d = len(names)
        t = sym("t"); crd = [sym(s) for s in names]
        direct = E.choose([True, False])
        args = E.choose([[t, *crd], [*crd, t]]) if direct else [t, *crd]
        u, v = FnSym("u")(*args), FnSym("v")(*args)
        a = FnSym("a")(*crd)
        one, two = (1,) + (0,) * (d - 1), (0,) * (d - 1) + (2,)
        R = [-u * D(u, names, one) + a * D(v, names, two), T("any", D(a * v, names, one), D(u, names, two))]
        N = E.choose([1, 2])
        fs = [u, v][:N]
        left = [lambda f: cas.Derivative(f, t)]
        if direct: left += [lambda f: cas.Derivative(f, crd[0]), lambda f: cas.Derivative(f, (crd[-1], 2)), lambda f: f, lambda f: T("left", cas.Derivative(f, crd[0]), f)]
        left = [E.choose(left)(f) for f in fs]
        eqs = [U.Eq(l, r) for l, r in zip(left, R)]
        arg = VList(list(eqs))
        out = (lambda: FD.finite_difference_system(arg) if direct else U.PDESystem(arg).finite_difference)()
        E.prove("one equation per equation", len(out) == N)
        for e, r in zip(eqs, out):
            E.prove("the left-hand sides are unchanged", r.args[0] == e.args[0], detail=f"{r} for {e}"[:300])
            check(E, r.args[1], e.args[1])
        E.prove("the system is left alone", len(arg) == N and all(x is y and x.args[1] == r for x, y, r in zip(arg, eqs, R)))
    return run


def verify(E):
    E.trusted += ["sympy.Derivative.as_finite_difference (Fornberg: exact weights for the given points)", "sympy: subs of a derivative, doit, expand", "numpy.arange on integers"]
    E.assumptions += ["consistency of a composition of consistent linear difference operators, and of a smooth expression of them (calculus)",
                      "orders of the combined expressions and dimensions bounded as listed in the names of the obligations; get_subs_derivative has no bound on the orders"]
    m = "sympkf.symbolic.finite_difference."
    q = E.tier == "quick"
    for k in (1, 2, 3): E.explore(f"get_subs_derivative [any orders in {k} variables]", orders(E, k), m + "get_subs_derivative")
    for d, top in [(1, 12), (2, 5), (3, 4), (4, 4), (5, 5)] if q else [(1, 14), (2, 8), (3, 6), (4, 6), (5, 6), (6, 6)]:
        E.explore(f"one derivative [dimension {d}, orders to {top}]", single(E, d, top), m + "finite_difference_derivative")
    for d, top in [(1, 5), (2, 3), (3, 2)] if q else [(1, 7), (2, 4), (3, 3)]:
        E.explore(f"expressions of derivatives [dimension {d}, orders to {top}]", combined(E, d, top), m + "finite_difference")
    for d, top in [(1, 12), (2, 4), (3, 3)] if q else [(1, 16), (2, 5), (3, 3)]:
        E.explore(f"all the derivatives at once [dimension {d}, orders to {top}]", every_order(E, d, top), m + "finite_difference")
    E.explore("systems", systems(E), m + "finite_difference_system")
    E.functions.append("sympkf.symbolic.util.PDESystem.finite_difference")
