"""Coordinate systems, orders of derivatives, trends, upper triangles and comparisons of expressions."""
from common import *
import itertools, collections
import sympy
from sympy import symbols, Function, Derivative, Symbol, Integer, Rational, Add, Mul, sin, exp
from sympy.core.function import AppliedUndef
from shuffle import shuffled


def run_all(run):
    from sympkf.symbolic import util
    from sympkf.symbolic.util import (CoordinateSystem, CompareExpression, CompareEquation, Eq, Matrix, upper_triangle,
                                      get_trend, get_derivative_partial_orders, get_total_order)
    from sympkf.symbolic import Expectation, omega
    t, a, b, c = symbols("t a b c")
    POOL = symbols("x y z lon \\phi x_1 theta dx")

    def coords(rng):
        if rng.random() < .04: return rng.sample(list(symbols("x1:11")), rng.randrange(5, 11))
        return rng.sample(list(POOL), rng.randrange(1, 5))

    def field(rng, X, ok=True):
        """a field that depends on all the coordinates (and possibly on others), or misses at least one"""
        args = list(X)
        if not ok: args.remove(rng.choice(args))
        args += rng.sample([q for q in POOL if q not in X], rng.choice([0, 0, 1]))
        if rng.random() < .5: args.append(t)
        rng.shuffle(args)
        if not args: args = [t]
        return Function(rng.choice(["u", "v", "h", "\\rho", "w"]))(*args)

    def expression(rng, X, ok=True):
        """ok: every field involved depends on all the coordinates"""
        fs = [field(rng, X) for _ in range(rng.randrange(1, 3))]
        if not ok: fs[rng.randrange(len(fs))] = field(rng, X, False)
        e = rng.choice([a, Integer(2), Rational(1, 3)])
        for k, f in enumerate(fs):
            g = rng.choice([f, f, f ** 2, sin(f), exp(-f), Expectation(Function("X")(*f.args, omega) ** 2)])
            if rng.random() < .3: g = Derivative(f, rng.choice([q for q in f.args]))
            e = e * g if rng.random() < .5 else e + g
        if rng.random() < .2: e = e + rng.choice(list(X))
        if rng.random() < .1 and ok: e = rng.choice([a, Integer(3), X[0] ** 2])
        return e

    def wanted(e, X):
        """every field of e depends on all of X"""
        return all(set(X) <= set(f.args) for f in e.atoms(AppliedUndef))

    def same(chk, got, want, what, **kw):
        chk.true(sympy.simplify((got - want).doit()) == 0, what, got=got, want=want, **kw)

    def gradient(rng, chk):
        X = coords(rng)
        cs = CoordinateSystem(X if rng.random() < .5 else tuple(X))
        chk.equal(list(cs), X, "iteration on the coordinates"); chk.equal(list(cs), X, "second iteration on the coordinates")
        ok = rng.random() < .6
        e = expression(rng, X, ok)
        if wanted(e, X):
            g = cs.gradient(e)
            chk.equal(tuple(g.shape), (len(X), 1), "shape of a gradient", coords=X, field=e)
            for k, x in enumerate(X): same(chk, g[k], Derivative(e, x), f"component {k} of the gradient", coords=X, field=e)
        else:
            chk.raises(ValueError, lambda: cs.gradient(e), "gradient of a field that does not depend on all the coordinates", coords=X, field=e)
        # compatible
        f = field(rng, X, rng.random() < .5)
        chk.equal(bool(cs.is_compatible(f)), set(X) <= set(f.args), "is_compatible", coords=X, field=f)
        return f"{X} {e}"

    def div(rng, chk):
        X = coords(rng)
        cs = CoordinateSystem(X)
        v = [expression(rng, X, rng.random() < .85) for _ in X]
        arg = rng.choice([list, tuple, lambda q: sympy.Matrix(q), lambda q: Matrix(q)])(v)
        if all(wanted(e, X) for e in v):
            d = cs.div(arg)
            same(chk, sympy.sympify(d), Add(*[Derivative(e, x) for e, x in zip(v, X)]), "divergence", coords=X, vector=v)
        else:
            chk.raises(ValueError, lambda: cs.div(arg), "divergence of a vector with a component that does not depend on all the coordinates", coords=X, vector=v)
        # the divergence of a gradient is the Laplacian
        f = field(rng, X)
        same(chk, sympy.sympify(cs.div(cs.gradient(f))), Add(*[Derivative(f, (x, 2)) for x in X]), "divergence of a gradient", coords=X, field=f)
        return f"{X} {v}"

    def orders(rng, chk):
        X = coords(rng)
        f = field(rng, X)
        vs = rng.sample(list(f.args), rng.randrange(1, len(f.args) + 1))
        o = {v: rng.randrange(1, 9) for v in vs}
        d = Derivative(f, *o.items())
        if rng.random() < .3: d = Derivative(f * field(rng, X), *o.items())
        got = get_derivative_partial_orders(d)
        chk.equal({k: int(v) for k, v in got.items()}, o, "partial orders", derivative=d)
        chk.equal(int(get_total_order(d)), sum(o.values()), "total order", derivative=d)
        return str(d)

    def trend(rng, chk):
        X = coords(rng)
        f = Function("u")(t, *X); g = Function("v")(t, *X)
        cls = rng.choice([Eq, sympy.Eq])
        r = rng.choice([f * Derivative(f, X[0]), a * Derivative(f, (X[0], 2)) + g, Derivative(g, X[-1]) ** 2, sin(f) + Derivative(f, (t, 2)), a * f])
        side = rng.random() < .7
        l = Derivative(f, t)
        e = cls(l, r) if side else cls(r, l * a)
        with shuffled(rng): got = get_trend(e)
        chk.equal(got, l, "trend of an equation", equation=e)
        # no trend, or several
        e0 = cls(f, r)
        with shuffled(rng): chk.equal(set(get_trend(e0)), set(), "trend of an equation without trend", equation=e0)
        e2 = cls(l, r + Derivative(g, t))
        with shuffled(rng): got = get_trend(e2)
        chk.equal(set(got), {l, Derivative(g, t)}, "trends of an equation", equation=e2)
        # the trends of one field at several places (e.g. of a delay, or of several points)
        h = f.func(t, *[Symbol("q")] * len(X)); l3 = Derivative(h, t)
        e3 = cls(l, r + rng.choice([a, Integer(1), g]) * l3)
        with shuffled(rng): got = get_trend(e3)
        chk.equal(set(got), {l, l3}, "trends of an equation, of one field", equation=e3)
        # other derivatives in time are not trends
        e4 = cls(rng.choice([Derivative(f, (t, 2)), Derivative(f, t, X[0]), Derivative(f, (t, 3))]), r if not r.has(Derivative(f, t)) else a)
        with shuffled(rng): chk.equal(set(get_trend(e4)) if not isinstance(get_trend(e4), sympy.Basic) else get_trend(e4), set(), "trend of an equation without trend", equation=e4)
        return str(e)

    def triangle(rng, chk):
        n = rng.randrange(1, 7)
        m = n if rng.random() < .8 else rng.randrange(n, n + 3)
        E = [[Symbol(f"m{i}_{j}") * rng.choice([1, a]) for j in range(m)] for i in range(n)]
        # matrices of particular shapes: diagonal, triangular, symmetric, null, made of numbers
        kind = rng.choice(["any", "any", "diagonal", "lower", "upper", "symmetric", "null", "numbers", "sparse"])
        for i in range(n):
            for j in range(m):
                if (kind == "diagonal" and i != j) or (kind == "lower" and j > i) or (kind == "upper" and j < i) or kind == "null" or (kind == "sparse" and rng.random() < .6): E[i][j] = Integer(0)
                elif kind == "symmetric" and j < i: E[i][j] = E[j][i]
                elif kind == "numbers": E[i][j] = Integer(7 * i - 3 * j)
        want = [E[i][j] for i in range(n) for j in range(i, m)]
        chk.equal(list(upper_triangle(sympy.Matrix(E))), want, "upper triangle, row by row", n=n, m=m)
        chk.equal(list(upper_triangle(Matrix(E))), want, "upper triangle, row by row", n=n, m=m)
        chk.equal(list(Matrix(E).upper_triangle), want, "upper triangle of a matrix, row by row", n=n, m=m)
        from sympkf.symbolic.pkfcas import Field
        return f"{n}x{m}"

    def terms(rng):
        f, g = Function("u")(t, *POOL[:2]), Function("v")(POOL[0])
        pool = [a * f, b * f, f ** 2, Derivative(f, POOL[0]), a * Derivative(f, (POOL[1], 2)), g, sin(f), a * b, Integer(3), c / 2, f * g, -a, Derivative(g, POOL[0]) ** 2, -Integer(2) * f * Derivative(f, POOL[0])]
        return rng.sample(pool, rng.randrange(1, 6))

    def build(rng, T):
        """an expression, not developed, whose developed terms are T"""
        e = Add(*T)
        if rng.random() < .5:
            k = rng.choice([a, c, Integer(2)])
            e2 = k * Add(*T)
            return e2, sympy.expand(e2)
        if rng.random() < .3:
            e2 = rng.choice([lambda: Add(*T) ** rng.choice([2, 3]), lambda: (Add(*T[:2]) + a) ** 2 + Add(*T[2:]), lambda: Add(*T[:3]) * (b + Add(*T[-2:])),
                             lambda: (a * (b + T[0])) ** 2, lambda: Add(*T[:2]) ** 2 * (1 + c)])()
            return e2, sympy.expand(e2)
        return e, sympy.expand(e)

    def compare(rng, chk):
        e1, d1 = build(rng, terms(rng)); e2, d2 = build(rng, terms(rng))
        if rng.random() < .5:
            s = Add(*terms(rng)); e1, e2 = e1 + s, e2 + s
            d1, d2 = sympy.expand(e1), sympy.expand(e2)
        T = lambda d: set(d.args) if isinstance(d, Add) else {d}
        C = CompareExpression(e1, e2)
        for rep in range(2):
            read = ["common", "specific"]; rng.shuffle(read)
            for r in read:
                if r == "common": chk.equal(set(C.common), T(d1) & T(d2), "common terms", first=e1, second=e2)
                else: chk.equal([set(q) for q in C.specific], [T(d1) - T(d2), T(d2) - T(d1)], "specific terms", first=e1, second=e2)
        for d, q in zip((d1, d2), C.specific): chk.true(sympy.expand(Add(*C.common) + Add(*q) - d) == 0, "common and specific terms do not give the expression", first=e1, second=e2)
        # equations
        l1, l2 = Add(*terms(rng)), Add(*terms(rng))
        q1, q2 = rng.choice([Eq, sympy.Eq])(l1, e1), rng.choice([Eq, sympy.Eq])(l2, e2)
        if isinstance(q1, sympy.Eq) and isinstance(q2, sympy.Eq):
            Q = CompareEquation(q1, q2)
            for side, (u, v) in ((Q.lhs, (q1.args[0], q2.args[0])), (Q.rhs, (q1.args[1], q2.args[1]))):
                u, v = sympy.expand(u), sympy.expand(v)
                chk.equal(set(side.common), T(u) & T(v), "common terms of a side", first=q1, second=q2)
                chk.equal([set(q) for q in side.specific], [T(u) - T(v), T(v) - T(u)], "specific terms of a side", first=q1, second=q2)
        return f"{e1} | {e2}"

    for j in range(run.n(720, 2000)): run.case("gradient", j, gradient)
    for j in range(run.n(720, 2000)): run.case("div", j, div)
    for j in range(run.n(1200, 5000)): run.case("orders", j, orders)
    for j in range(run.n(600, 2000)): run.case("trend", j, trend)
    for j in range(run.n(240, 500)): run.case("triangle", j, triangle)
    for j in range(run.n(1200, 4000)): run.case("compare", j, compare)


if __name__ == "__main__":
    main("C18", run_all)
