"""C18: coordinate systems and expression tools.

gradient / div / compatibility: for coordinate systems of 1 to 4 coordinates (any order of the names), fields whose arguments are
every subset of the coordinates, and arbitrary (opaque) expressions of the fields.  Orders: derivatives with arbitrary integer orders
(symbolic, z3) in 1 to 4 variables.  Comparisons: expressions known by their developed terms only (arbitrary distinct terms)."""
import itertools
import engine, cas
from cas import sym, num, X, Fr, FnSym, T, Mat, Tup, Equation
from engine import SInt, zterm
from . import symb
import z3

NAMES = {1: [("x",)], 2: [("x", "y"), ("y", "x")], 3: [("x", "y", "z"), ("z", "\\phi", "x")], 4: [("a", "x", "y", "z")],
         5: [("a", "x", "y", "z", "\\phi")], 6: [("a", "x", "y", "z", "\\phi", "r")]}


def util(): return symb.world().load("vsympkf.symbolic.util")


def field(E, name, X_, full=None, orders=True):
    """a field whose arguments are some coordinates, time or not, in some order; (field, depends on all)"""
    if full is None: full = E.choose([True, False])
    args = list(X_)
    if not full: args.remove(E.choose(args))
    extra = E.choose([["t"], []]) if orders else ["t"]
    args = extra + args
    if not args: args = ["t"]
    if orders and E.choose([False, True]): args = args[::-1]
    return FnSym(name)(*[sym(a) for a in args]), full


def expression(E, name, X_, nf):
    """an arbitrary expression of nf fields; (expression, every field depends on all the coordinates)"""
    fs = [field(E, f"{name}{k}", X_) for k in range(nf)]
    ok = all(o for _, o in fs)
    fs = [f for f, _ in fs]
    shape = E.choose(["opaque", "plain", "derivative"] if nf else ["opaque"])
    if shape == "opaque": e = T("rhs", 0, *fs) if fs else E.choose([sym("k"), num(2), sym(X_[0]) * sym("k")])
    elif shape == "plain": e = num(0) + fs[0] if nf == 1 else fs[0] * fs[1] + sym("k")
    else:
        s = fs[-1].args[-1]
        e = cas.Derivative(fs[-1], s) * (fs[0] if nf > 1 else num(2))
    return e, ok


def gradient(E, d, nf):
    def run():
        U = util()
        names = E.choose(NAMES[d])
        X_ = [sym(n) for n in names]
        cs = U.CoordinateSystem(E.choose([list, tuple])(X_))
        e, ok = expression(E, "f", names, nf)
        try: g = cs.gradient(e)
        except ValueError as err:
            E.prove("ValueError only if a field does not depend on all the coordinates", not ok, detail=f"{e} on {names}: {err}"[:300])
            return
        E.prove("ValueError if a field does not depend on all the coordinates", ok, detail=f"{e} on {names}"[:300])
        if not ok: return
        v = [c for c in (g if not isinstance(g, Mat) else list(g))]
        good = len(v) == d and all(cas.doit(cas.asx(a)) == cas.doit(cas.asx(cas.Derivative(e, x))) for a, x in zip(v, X_))
        E.prove("the gradient is the vector of first derivatives in coordinate order", good, detail="" if good else f"{v} for {e} on {names}"[:500], backend="differential-algebra normal form")
        E.prove("the gradient is a column", not isinstance(g, Mat) or g.shape == (d, 1))
    return run


def div(E, d):
    def run():
        U = util()
        names = E.choose(NAMES[d])
        X_ = [sym(n) for n in names]
        cs = U.CoordinateSystem(X_)
        bad = E.choose(list(range(-1, d)))
        v, oks = [], []
        for k in range(d):
            if E.choose(["field", "expression"]) == "field": f, ok = field(E, f"v{k}", names, k != bad, d < 3); e = f
            else:
                f, ok = field(E, f"v{k}", names, k != bad, d < 3)
                e = T("rhs", k, f)
            v.append(e); oks.append(ok)
        arg = E.choose([list, tuple, Mat])(v)
        try: r = cs.div(arg)
        except ValueError as err:
            E.prove("ValueError only if a component does not depend on all the coordinates", not all(oks), detail=f"{v} on {names}: {err}"[:300])
            return
        E.prove("ValueError if a component does not depend on all the coordinates", all(oks), detail=f"{v} on {names}"[:300])
        if not all(oks): return
        want = num(0)
        for e, x in zip(v, X_): want = want + cas.Derivative(e, x)
        good = cas.doit(cas.asx(r)) == cas.doit(want)
        E.prove("the divergence is the sum of the derivative of each component in its coordinate", good, detail="" if good else f"{r} for {v} on {names}"[:500], backend="differential-algebra normal form")
    return run


def iteration(E, d):
    def run():
        U = util()
        X_ = [sym(n) for n in E.choose(NAMES[d])]
        cs = U.CoordinateSystem(X_)
        E.prove("iteration gives the coordinates in order, each time", [c for c in cs] == X_ and [c for c in cs] == X_)
        f, ok = field(E, "f", [x.symbol() for x in X_])
        E.prove("is_compatible exactly when the function depends on all the coordinates", bool(cs.is_compatible(f)) == ok, detail=f"{f} on {X_}")
    return run


class Der:
    """Derivative(expr, (x, n), ..) of an arbitrary expression, with symbolic orders"""
    vc_frozen = True
    vc_kinds = ("Derivative",)
    def __init__(self, e, vc):
        self.expr, self.variable_count = e, tuple(Tup(p) for p in vc)
        self.args = (e,) + self.variable_count
    @property
    def derivative_count(self): return sum(n for _, n in self.variable_count)
    def vc_isinstance(self, classes): return any("Derivative" in getattr(c, "vc_kinds", ()) for c in classes)


def orders(E, k):
    def run():
        U = util()
        names = ("x", "y", "t", "z")[:k] if E.choose([0, 1]) else ("z", "t", "y", "x")[:k]
        n = [E.int(f"order_{s}") for s in names]
        for v in n: E.assume(v.z >= 1)
        e = E.choose([FnSym("u")(*[sym(s) for s in names]), T("any", FnSym("u")(sym("x")))])
        D = Der(e, [(sym(s), v) for s, v in zip(names, n)])
        r = U.get_derivative_partial_orders(D)
        E.prove("the partial orders are listed for the variables of the derivative", isinstance(r, dict) and set(r) == {sym(s) for s in names}, detail=str(r))
        if isinstance(r, dict) and set(r) == {sym(s) for s in names}:
            E.prove("each partial order is that of its variable", z3.And([zterm(r[sym(s)]) == v.z for s, v in zip(names, n)]))
        t = U.get_total_order(D)
        E.prove("the total order is the sum of the partial orders", zterm(t) == z3.Sum([v.z for v in n]))
    return run


def trend(E):
    def run():
        U = util()
        t, x, y = sym("t"), sym("x"), sym("y")
        u, v = FnSym("u")(t, x, y), FnSym("v")(t, x)
        ut, vt = cas.Derivative(u, t), cas.Derivative(v, t)
        rest = E.choose([num(0), u * cas.Derivative(u, x), T("any", cas.Derivative(u, (x, 2)), v), cas.Derivative(u, (t, 2)) + cas.Derivative(v, (x, 3), y) * sym("k"), sym("k") * t,
                         cas.Derivative(u, t, x) * v + cas.Derivative(v, x, t), cas.Derivative(u, (t, 1), (sym("a"), 2)) + u])
        trends = E.choose([[], [ut], [vt], [ut, vt]])
        where = E.choose(["left", "right", "product", "inside"])
        l, r = num(1) * u, rest
        for k, d in enumerate(trends):
            if where == "left" and k == 0: l = d
            elif where == "right" or where == "left": r = r + d
            elif where == "product": l = l * d * sym("k")
            else: r = r + T("sin", d)
        e = E.choose([Equation, U.Eq])(l, r)
        got = U.get_trend(e)
        if len(trends) == 1: E.prove("the trend of an equation is its derivative of first order in time", isinstance(got, X) and got == trends[0], detail=f"{got!r} of {e}"[:300])
        else: E.prove("no trend, or all of them, when there is not exactly one", not isinstance(got, X) and set(got) == set(trends), detail=f"{got!r} of {e}"[:300])
    return run


def triangle(E, n):
    def run():
        U = util()
        m = E.choose(list(range(n, n + 3)))
        M = [[sym(f"m{i}_{j}") for j in range(m)] for i in range(n)]
        want = [M[i][j] for i in range(n) for j in range(i, m)]
        E.prove("upper_triangle lists the upper triangle row by row", list(U.upper_triangle(Mat(M))) == want)
        E.prove("Matrix.upper_triangle lists the upper triangle row by row", list(U.Matrix(M).upper_triangle) == want)
        E.prove("the same for the matrices of the module", list(U.upper_triangle(U.Matrix(M))) == want)
    return run


class Ex:
    """an expression known by its development: a sum of distinct terms, or one term"""
    vc_frozen = True
    def __init__(self, terms, developed=False): self.terms, self.developed = tuple(terms), developed
    def expand(self, *a, **k):
        if a or k: raise engine.Unsupported("expand with options")
        if len(self.terms) == 1: return Term(self.terms[0])
        return Ex(self.terms, True)
    @property
    def args(self):
        if not self.developed: raise engine.Unsupported("arguments of an expression that is not developed")
        return tuple(Term(v) for v in self.terms)
    def vc_isinstance(self, classes):
        if not self.developed: raise engine.Unsupported("kind of an expression that is not developed")
        return any("Add" in getattr(c, "vc_kinds", ()) for c in classes)
    @property
    def is_Add(self): return self.vc_isinstance([cas.Add])
    @property
    def func(self): return cas.Add
    def __eq__(self, o): return isinstance(o, Ex) and self.developed and o.developed and frozenset(self.terms) == frozenset(o.terms)
    def __hash__(self): return hash(frozenset(self.terms))


class Term:
    """an arbitrary term (never a sum); its arguments, if any, are no terms"""
    vc_frozen = True
    def __init__(self, n): self.n = n
    args = (Ex(("factor1",)), Ex(("factor2",)))
    is_Add = False
    def expand(self, *a, **k): return self
    def vc_isinstance(self, classes): return any(k in getattr(c, "vc_kinds", ()) for c in classes for k in ("Mul",))
    def __eq__(self, o): return isinstance(o, Term) and o.n == self.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return f"<{self.n}>"


def compare(E):
    def venn(tag):
        c = E.choose([0, 1, 2]); a = E.choose([0, 1, 2]); b = E.choose([0, 1, 2])
        if c + a == 0 or c + b == 0: raise engine.PathDone()
        C, A, B = [f"{tag}common{k}" for k in range(c)], [f"{tag}first{k}" for k in range(a)], [f"{tag}second{k}" for k in range(b)]
        return C, A, B
    def check(c, C, A, B, what):
        tm = lambda l: {Term(v) for v in l}
        reads = ["common", "specific"] if E.choose([0, 1]) else ["specific", "common"]
        for r in reads + reads:
            if r == "common": E.prove(f"{what}common terms", set(c.common) == tm(C), detail=f"{c.common} of {C} {A} {B}")
            else:
                s = [set(v) for v in c.specific]
                E.prove(f"{what}specific terms", s == [tm(A), tm(B)], detail=f"{s} of {C} {A} {B}")
    def expressions():
        U = util()
        C, A, B = venn("")
        check(U.CompareExpression(Ex(C + A), Ex(B + C)), C, A, B, "")
    def equations():
        U = util()
        class Q: pass
        sides = []
        for s in ("lhs_", "rhs_"):
            C, A, B = E.choose([(["c"], ["a"], ["b"]), ([], ["a"], ["b1", "b2"]), (["c1", "c2"], [], []), (["c"], ["a"], [])])
            sides.append(tuple([s + v for v in l] for l in (C, A, B)))
        e1, e2 = Equation(*[Ex(C + A) for C, A, B in sides]), Equation(*[Ex(C + B) for C, A, B in sides])
        c = U.CompareEquation(e1, e2)
        check(c.lhs, *sides[0], "left-hand sides: "); check(c.rhs, *sides[1], "right-hand sides: ")
    return expressions, equations


def verify(E):
    E.trusted += ["sympy.Derivative, Matrix, atoms, expand (the sum of the developed terms)", "python sets"]
    E.assumptions += ["expressions of fields are opaque: they are seen through the fields they contain and their derivatives",
                      "coordinate systems of 1 to 6 coordinates (the divergence: 1 to 5), derivatives along 1 to 7 variables, matrices up to 8 rows (shape bounds)"]
    m = "sympkf.symbolic.util."
    for d in NAMES:
        for nf in (0, 1, 2) if d <= 3 else (0, 1) if d == 4 else (1,):
            E.explore(f"gradient [{d} coordinates, {nf} fields]", gradient(E, d, nf), m + "CoordinateSystem.gradient")
        E.explore(f"iteration and is_compatible [{d} coordinates]", iteration(E, d), m + "CoordinateSystem.is_compatible")
    for d in (1, 2, 3, 4, 5): E.explore(f"div [{d} coordinates]", div(E, d), m + "CoordinateSystem.div")
    E.functions += [m + "CoordinateSystem.__iter__", m + "CoordinateSystem._check_compatible", m + "get_total_order", m + "Matrix.upper_triangle", m + "CompareExpression.common", m + "CompareExpression.specific", m + "CompareExpression.sets"]
    for k in range(1, 8): E.explore(f"orders of a derivative [{k} variables]", orders(E, k), m + "get_derivative_partial_orders")
    E.explore("get_trend", trend(E), m + "get_trend")
    for n in range(1, 9): E.explore(f"upper_triangle [{n} rows]", triangle(E, n), m + "upper_triangle")
    a, b = compare(E)
    E.explore("CompareExpression", a, m + "CompareExpression")
    E.explore("CompareEquation", b, m + "CompareEquation")
