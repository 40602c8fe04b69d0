from common import *
import sympy
from sympy import symbols, Function, Derivative, Symbol, Integer, Rational, Add, Mul, S, sin


def run_all(run):
    from sympkf.symbolic.util import Eq
    from sympkf.symbolic import Expectation, omega
    a, b, c, d, k = symbols("a b c d k")
    t, x = symbols("t x")
    u, v, X = Function("u")(t, x), Function("v")(x), Function("X")(t, x, omega)
    ATOMS = [a, b, c, d, u, v, Derivative(u, t), Derivative(u, x, 2), Expectation(X ** 2), X, Derivative(v, x)]

    class Sub(Eq):
        pass

    def expr(rng, depth=2):
        if depth == 0: return rng.choice(ATOMS + [Integer(rng.randrange(-3, 4)), Rational(1, 2)])
        q = rng.choice(["add", "mul", "pow", "fun", "atom"])
        if q == "add": return Add(*[expr(rng, depth - 1) for _ in range(rng.randrange(2, 4))])
        if q == "mul": return Mul(*[expr(rng, depth - 1) for _ in range(2)])
        if q == "pow": return expr(rng, depth - 1) ** rng.choice([2, 3])
        if q == "fun": return sin(expr(rng, 0))
        return expr(rng, 0)

    def eqn(rng, cls=Eq):
        for _ in range(50):
            l, r = expr(rng), expr(rng)
            e = cls(l, r)
            if type(e) is cls: return e
        raise Skip()

    def is_eq(chk, e, cls, l, r, what, /, **kw):
        """e is the equation l=r (or the truth value if that reduces to one)"""
        w = sympy.Eq(l, r)
        if isinstance(w, sympy.Eq):
            chk.true(type(e) is cls, f"{what}: not an equation of the same kind", got=type(e), **kw)
            chk.true(sympy.expand(e.args[0] - l) == 0 and sympy.expand(e.args[1] - r) == 0, f"{what}: wrong equation", got=e, want=(l, r), **kw)
        else:
            chk.true(e == w or e is w, f"{what}: wrong truth value", got=e, want=w, **kw)

    def algebra(rng, chk):
        cls = rng.choice([Eq, Eq, Sub])
        e, f = eqn(rng, cls), eqn(rng, rng.choice([cls, Eq]))
        s = rng.choice([a, k, Integer(3), Rational(-1, 2), u, Derivative(u, t), 2, 0.5])
        (l, r), (m, n) = e.args, f.args
        e0, f0 = (l, r), (m, n)
        is_eq(chk, e + f, cls, l + m, r + n, "sum", e=e, f=f)
        is_eq(chk, e - f, cls, l - m, r - n, "difference", e=e, f=f)
        is_eq(chk, -e, cls, -l, -r, "opposite", e=e)
        is_eq(chk, e * s, cls, s * l, s * r, "product", e=e, s=s)
        g = e; g *= s
        is_eq(chk, g, cls, s * l, s * r, "in-place product by a scalar", e=e, s=s)
        g = e; g *= f
        is_eq(chk, g, cls, l * m, r * n, "in-place product by an equation", e=e, f=f)
        # the same object on both sides
        is_eq(chk, e + e, cls, 2 * l, 2 * r, "sum with itself", e=e)
        z = e - e
        chk.true(z == S.true or z is True, "difference with itself", e=e, got=z)
        g = e; g *= g
        is_eq(chk, g, cls, l ** 2, r ** 2, "in-place product by itself", e=e)
        g = e; g *= cls(l, r)
        is_eq(chk, g, cls, l ** 2, r ** 2, "in-place product by an equal equation", e=e)
        is_eq(chk, -(-e), cls, l, r, "opposite of the opposite", e=e)
        is_eq(chk, cls(l, 0) * s, cls, s * l, Integer(0), "product with a null side", e=e) if type(cls(l, 0)) is cls else None
        is_eq(chk, -cls(l, 0), cls, -l, Integer(0), "opposite with a null side", e=e) if type(cls(l, 0)) is cls else None
        chk.true(e.args == e0 and f.args == f0, "an operand was modified", e=e, f=f)
        is_eq(chk, (e + f) - f, cls, l, r, "sum then difference", e=e, f=f)
        return f"{e} ; {f} ; {s}"

    def rewrite(rng, chk):
        cls = rng.choice([Eq, Sub])
        e = eqn(rng, cls)
        l, r = e.args
        old = rng.choice([q for q in ATOMS])
        new = rng.choice([expr(rng, 1), Integer(0), Integer(2), k])
        if rng.random() < .5:
            g = e.subs(old, new); L, R = l.subs(old, new), r.subs(old, new)
        elif rng.random() < .5:
            g = e.subs({old: new, k: a}); L, R = l.subs({old: new, k: a}), r.subs({old: new, k: a})
        else:
            g = e.subs([(old, new), (a, b)]); L, R = l.subs([(old, new), (a, b)]), r.subs([(old, new), (a, b)])
        if any(q.has(sympy.nan, sympy.zoo) for q in (L, R)): raise Skip()
        is_eq(chk, g, cls, L, R, "subs", e=e, old=old, new=new)
        # hints reach the operation on both sides
        p1, p2 = rng.sample([a, b, c, d], 2)
        L0, R0 = p1 + 2 * p2 ** 2 * l, p2 * r - p1
        e4 = cls(L0, R0)
        if type(e4) is cls:
            m = {p1: p2 + rng.choice([0, 1]), p2: p1}
            is_eq(chk, e4.subs(m, simultaneous=True), cls, L0.subs(m, simultaneous=True), R0.subs(m, simultaneous=True), "subs(simultaneous=True)", e=e4, m=m)
            is_eq(chk, e4.subs([(p1, p2), (p2, k)]), cls, L0.subs([(p1, p2), (p2, k)]), R0.subs([(p1, p2), (p2, k)]), "subs one after the other", e=e4)
        e5 = cls(sin(a + b) * (c + d), sin(a - c) + (b + d) ** 2)
        g = e5.expand(trig=True)
        is_eq(chk, g, cls, e5.args[0].expand(trig=True), e5.args[1].expand(trig=True), "expand(trig=True)", e=e5)
        if isinstance(g, sympy.Eq): chk.equal(tuple(g.args), tuple(q.expand(trig=True) for q in e5.args), "expand(trig=True)")
        g = e5.expand(mul=False, multinomial=False)
        if isinstance(g, sympy.Eq): chk.equal(tuple(g.args), tuple(q.expand(mul=False, multinomial=False) for q in e5.args), "expand(mul=False)")
        # doit develops derivatives and integrals of both sides
        inner = rng.choice([u * v, u ** 2, x * u, a * x])
        e2 = cls(l + Derivative(inner, x), r + sympy.Integral(x * a, x))
        if type(e2) is cls:
            is_eq(chk, e2.doit(), cls, (l + Derivative(inner, x)).doit(), (r + sympy.Integral(x * a, x)).doit(), "doit", e=e2)
            chk.true(not (isinstance(e2.doit(), sympy.Eq) and e2.doit().atoms(sympy.Integral)), "doit: an integral is left", e=e2)
        e3 = cls((l + a) * (r + b), (a + b) ** 2 * (l - c))
        if type(e3) is cls:
            g = e3.expand()
            is_eq(chk, g, cls, ((l + a) * (r + b)).expand(), ((a + b) ** 2 * (l - c)).expand(), "expand", e=e3)
            if isinstance(g, sympy.Eq):
                for side, w in zip(g.args, e3.args):
                    chk.true(side == w.expand(), "expand: a side is not developed", got=side, want=w.expand())
        # equations that reduce to a truth value
        chk.true(cls(a, b).subs(a, b) == S.true, "subs to True")
        chk.true(cls(a, b).subs({a: 1, b: 2}) == S.false, "subs to False")
        return f"{e} [{old}->{new}]"

    def isolate(rng, chk):
        cls = rng.choice([Eq, Sub])
        target = rng.choice([a, u, Derivative(u, t), Derivative(u, x, 2), Expectation(X ** 2)])
        other = [q for q in [b, c, d, v, k, Derivative(v, x), X] ]
        p = sum((rng.choice([1, -2, 3]) * rng.choice(other) * rng.choice([1, b, v]) for _ in range(2)), Integer(0))
        q = sum((rng.choice([1, -2, 5]) * rng.choice(other) for _ in range(2)), Integer(0))
        coef = rng.choice([Integer(1), Integer(-2), b, 3 * v, b + c, Rational(1, 2)])
        coef2 = rng.choice([Integer(0), Integer(0), d])
        e = cls(coef * target + p, q + coef2 * target)
        if type(e) is not cls: raise Skip()
        if rng.random() < .4: e = cls(e.args[1], e.args[0])
        r = e.isolate(target)
        chk.true(type(r) is cls, "isolate: not an equation of the same kind", e=e, got=r)
        chk.equal(r.args[0], target, "isolate: wrong left-hand side", e=e, target=target)
        chk.true(target not in sympy.preorder_traversal(r.args[1]), "isolate: the isolated expression is left on the right-hand side", e=e, got=r)
        resid = (coef * target + p - q - coef2 * target)
        D = sympy.Dummy()
        val = sympy.simplify(resid.xreplace({target: D}).subs(D, r.args[1].xreplace({target: D})))
        chk.true(val == 0, "isolate: not a solution", e=e, got=r, residual=val)
        return f"{e} for {target}"

    for j in range(run.n(360, 3000)): run.case("algebra", j, algebra)
    for j in range(run.n(300, 2500)): run.case("rewrite", j, rewrite)
    for j in range(run.n(120, 800)): run.case("isolate", j, isolate)


if __name__ == "__main__":
    main("C08", run_all)
