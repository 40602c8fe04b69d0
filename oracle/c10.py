"""Second-order consistency on the regular grid, in 400-digit arithmetic with exponential fields."""
from common import *
import mpmath as mp
import sympy
from sympy import symbols, Function, Derivative, Integer, Rational, Symbol, Add, Mul, Pow, sin, cos, exp, sqrt
from sympy.core.function import AppliedUndef
from shuffle import shuffled

mp.mp.dps = 400
NAMES = [["x"], ["x", "y"], ["y", "x"], ["d"], ["dx"], ["d", "x"], ["dd", "x"], ["x", "y", "z"], ["theta"], ["\\theta", "phi"],
         ["x_1", "x_2"], ["X"], ["lon", "lat"], ["dlon", "dlat"], ["s"], ["delta", "dz"]]


class Fields:
    """each field is a sum of exponentials of its coordinates: every derivative is exact"""
    def __init__(self, rng, fields):
        self.f = {}
        for F in fields:
            n = len(F.args)
            self.f[F.func] = [(mp.mpf(rng.uniform(.2, 1.)), [mp.mpf(rng.uniform(.3, 1.2)) * rng.choice([-1, 1]) for _ in range(n)]) for _ in range(2)]
            self.f[F.func].append((mp.mpf(rng.uniform(1.5, 2.5)), [mp.mpf(0)] * n))

    def value(self, func, args, orders):
        s = mp.mpf(0)
        for c, a in self.f[func]:
            p = c
            for ai, n in zip(a, orders): p *= ai ** n
            s += p * mp.exp(sum(ai * x for ai, x in zip(a, args)))
        return s

    def ev(self, e, sub):
        if e in sub: return sub[e]
        if e.is_Integer: return mp.mpf(int(e))
        if e.is_Rational: return mp.mpf(int(e.p)) / int(e.q)
        if e.is_Float: return mp.mpf(str(e))
        if e is sympy.pi: return mp.pi
        if e is sympy.E: return mp.e
        if isinstance(e, Add): return mp.fsum([self.ev(a, sub) for a in e.args])
        if isinstance(e, Mul):
            p = mp.mpf(1)
            for a in e.args: p *= self.ev(a, sub)
            return p
        if isinstance(e, Pow): return self.ev(e.base, sub) ** self.ev(e.exp, sub)
        if isinstance(e, sympy.log): return mp.log(self.ev(e.args[0], sub))
        if isinstance(e, sympy.Abs): return abs(self.ev(e.args[0], sub))
        if isinstance(e, (sin, cos, exp)): return getattr(mp, e.func.__name__)(self.ev(e.args[0], sub))
        if isinstance(e, AppliedUndef):
            return self.value(e.func, [self.ev(a, sub) for a in e.args], [0] * len(e.args))
        if isinstance(e, Derivative):
            F = e.expr
            assert isinstance(F, AppliedUndef), e
            vc = dict(e.variable_count)
            assert set(vc) <= set(F.args), e
            return self.value(F.func, [self.ev(a, sub) for a in F.args], [int(vc.get(a, 0)) for a in F.args])
        raise NotImplementedError(f"{type(e)} {e}")


def gen_expr(rng, fields, consts, maxorder, depth):
    def deriv():
        F = rng.choice(fields)
        cs = rng.sample(list(F.args), rng.randrange(1, min(3, len(F.args)) + 1))
        budget = rng.randrange(1, maxorder + 1)
        vc = []
        for c in cs:
            if budget <= 0: break
            k = rng.randrange(1, budget + 1); budget -= k
            vc.append((c, k))
        return Derivative(F, *vc)
    def atom():
        r = rng.random()
        if r < .62: return deriv()
        if r < .82: return rng.choice(fields)
        return rng.choice(consts + [Integer(2), Rational(-3, 2)])
    if depth == 0: return atom()
    k = rng.choice(["add", "add", "mul", "mul", "mul", "pow", "fun", "inv", "dprod", "expo", "root"])
    sub = lambda d=depth - 1: gen_expr(rng, fields, consts, maxorder, d)
    if k == "add": return Add(*[sub() for _ in range(rng.randrange(2, 4))])
    if k == "mul": return Mul(*[sub() for _ in range(rng.randrange(2, 4))])
    if k == "pow": return sub() ** rng.choice([2, 3])
    if k == "fun": return rng.choice([sin, cos])(sub(0))
    if k == "expo": return Pow(rng.choice([Integer(2), Rational(3, 2), exp(Integer(1)), 4 + rng.choice(fields) ** 2]), sub(0))
    if k == "root": return sqrt(3 + sub(0) ** 2) if rng.random() < .5 else (2 + sub(0) ** 2) ** Rational(-3, 2)
    if k == "inv": return sub(0) / (4 + rng.choice(fields) ** 2)
    F, G = rng.choice(fields), rng.choice(fields)
    c = rng.choice(list(F.args))
    inner = F * G if rng.random() < .5 else F * (Derivative(G, c) if c in G.args else G)
    return Derivative(inner, c)


def run_all(run):
    from sympkf.symbolic.finite_difference import finite_difference, finite_difference_system
    from sympkf.symbolic import PDESystem
    try:
        from sympkf.symbolic.util import Eq
    except Exception:
        from sympy import Eq
    t = symbols("t")

    def check(rng, chk, expr, fields, consts, fd, desc, what="finite_difference"):
        chk.true(not fd.atoms(Derivative), f"{what}: a derivative is left", expr=expr, got=fd)
        chk.true(not fd.has(sympy.nan, sympy.zoo, sympy.oo), f"{what}: not finite", expr=expr, got=fd)
        coords = []
        for F in fields: coords += [c for c in F.args if c not in coords]
        inc = {c: Symbol("d" + str(c)) for c in coords}
        base = {F.func: F for F in fields}
        for f in fd.atoms(AppliedUndef):
            F = base.get(f.func)
            chk.true(F is not None and len(f.args) == len(F.args), f"{what}: unknown field", field=f)
            for a, c in zip(f.args, F.args):
                k = sympy.expand(a - c) / inc[c]
                k = sympy.simplify(k)
                chk.true(k.is_Integer, f"{what}: a field is not evaluated on the regular grid", field=f, expr=expr)
        sub0 = {c: mp.mpf(rng.uniform(-.5, .5)) for c in coords}
        sub0.update({c: mp.mpf(rng.uniform(.5, 1.5)) for c in consts})
        ratio = {c: mp.mpf(rng.uniform(.5, 1.5)) for c in coords}
        V = Fields(rng, fields)
        exact = V.ev(expr.doit(), sub0)
        err = []
        for h in (mp.mpf(10) ** -4, mp.mpf(10) ** -8):
            s = dict(sub0); s.update({inc[c]: h * ratio[c] for c in coords})
            err.append(abs(V.ev(fd, s) - exact))
        scale = 1 + abs(exact)
        # second order: err ~ C h^2 ; C of the size of derivatives of order <= 10
        chk.true(err[1] <= mp.mpf(10) ** -11 * scale * 10 and err[1] <= err[0] * mp.mpf(10) ** -7 + mp.mpf(10) ** -25 * scale,
                 f"{what}: not consistent at the second order", expr=expr, got=fd, error_h4=mp.nstr(err[0], 5), error_h8=mp.nstr(err[1], 5), case=desc)

    def fields_for(rng):
        names = rng.choice(NAMES)
        cs = [Symbol(n) for n in names]
        fs = []
        for n in rng.sample(["u", "v", "f", "\\rho"], rng.choice([1, 2, 2])):
            k = rng.random()
            args = [t] + cs if k < .6 else (list(cs) if k < .8 or len(cs) == 1 else [t] + cs[:1])
            fs.append(Function(n)(*args))
        return fs, [Symbol("c"), Symbol("\\kappa")], names

    def linear(rng, chk):
        fs, consts, names = fields_for(rng)
        F = fs[0]
        cs = rng.sample(list(F.args), rng.randrange(1, min(3, len(F.args)) + 1))
        mo = run.n(5, 8)
        if rng.random() < .25: cs, mo = cs[:1], 9
        vc = [(c, rng.randrange(1, mo + 1 - len(cs))) for c in cs]
        if sum(k for _, k in vc) > mo + 1: raise Skip()
        e = Derivative(F, *vc)
        with shuffled(rng): fd = finite_difference(e)
        check(rng, chk, e, [F], consts, fd, f"{e}")
        return f"{e}"

    def nonlinear(rng, chk):
        fs, consts, names = fields_for(rng)
        e = gen_expr(rng, fs, consts, rng.choice([2, 3, 4]), rng.choice([1, 2, 2]))
        if not e.atoms(Derivative) or len(str(e)) > 500: raise Skip()
        e_before = str(e)
        with shuffled(rng): fd = finite_difference(e)
        chk.equal(str(e), e_before, "finite_difference modified its argument")
        check(rng, chk, e, fs, consts, fd, f"{e}")
        with shuffled(rng): fd2 = finite_difference(e)
        chk.true(fd == fd2 or sympy.expand(fd - fd2) == 0 or sympy.simplify(fd - fd2) == 0, "the result depends on the order of the derivatives", expr=e, got=fd, other=fd2)
        return f"{e}"

    def top(rng, chk):
        """a single node over derivatives: powers, exponents, functions, quotients"""
        fs, consts, names = fields_for(rng)
        F = fs[0]; x = F.args[-1]; D, D2 = Derivative(F, x), Derivative(F, (x, 2)) + rng.choice(fs)
        k = rng.randrange(8)
        e = [lambda: 2 ** D, lambda: (4 + F ** 2) ** D, lambda: (2 + D ** 2) ** D2, lambda: exp(D * D2), lambda: sin(D + cos(D2)), lambda: sqrt(1 + D ** 2),
             lambda: D ** 7, lambda: D / (5 + D2 ** 2)][k]()
        with shuffled(rng): fd = finite_difference(e)
        check(rng, chk, e, fs, consts, fd, f"{e}")
        return f"{e}"

    def many(rng, chk):
        """mixed derivatives of a field of four to six coordinates"""
        cs = symbols(rng.choice(["a b c e g", "x1 x2 x3 x4 x5 x6", "x y z w", "lat lon z p s"]))
        cs = [t] + list(cs) if rng.random() < .5 else list(cs)
        cs = cs[:6]
        F = Function(rng.choice(["u", "\\rho"]))(*cs)
        k = rng.randrange(4, min(5, len(cs)) + 1)
        vs = rng.sample(cs, k)
        vc = [(c, 1) for c in vs]
        if k == 4 and rng.random() < .6: i = rng.randrange(k); vc[i] = (vs[i], 2)
        e = Derivative(F, *vc)
        if rng.random() < .4: e = e * rng.choice([F, Integer(3), Symbol("c")]) + Derivative(F, vs[0])
        with shuffled(rng): fd = finite_difference(e)
        check(rng, chk, e, [F], [Symbol("c")], fd, f"{e}")
        return f"{e}"

    def high(rng, chk):
        """orders of one and of two digits together"""
        x, y = symbols("x y")
        F = Function("u")(*rng.choice([(x,), (t, x), (x, y)]))
        ks = [rng.choice([10, 11, 12, 12, 13, 14, 16])] + rng.sample([1, 2, 3, 4, 5, 6], 2)
        e = Add(*[c * Derivative(F, (x, k)) for c, k in zip(rng.sample([Integer(1), Symbol("c"), F, Rational(1, 2)], 3), ks)])
        with shuffled(rng): fd = finite_difference(e)
        check(rng, chk, e, [F], [Symbol("c")], fd, f"{e}")
        return f"{e}"

    def orders(rng, chk):
        """derivatives of many orders in one expression"""
        x, y = symbols("x y")
        F = Function("u")(*rng.choice([(x,), (t, x), (x, y)]))
        G = Function("v")(*F.args)
        ks = rng.sample(range(1, 10), rng.randrange(5, 9))
        e = Add(*[rng.choice([Integer(1), Symbol("c"), G, Rational(1, 2)]) * Derivative(F, (x, k)) for k in ks])
        with shuffled(rng): fd = finite_difference(e)
        check(rng, chk, e, [F, G], [Symbol("c")], fd, f"{e}")
        return f"{e}"

    def branches(rng, chk):
        """roots, logarithms and non-integer powers of products of negative quantities"""
        fs, consts, names = fields_for(rng)
        F = fs[0]; x = F.args[-1]
        D, D2 = Derivative(F, x), Derivative(F, (x, 2))
        n = lambda d: -d ** 2 - rng.choice([1, 2])
        k = rng.randrange(6)
        e = [lambda: sqrt(n(D) * n(D2)), lambda: sympy.log(n(D) * n(F)), lambda: (n(D2) * n(D)) ** Rational(1, 3), lambda: sqrt((1 + D ** 2) ** 2 * F ** 2),
             lambda: sqrt((D * n(F)) ** 2 + 0), lambda: ((n(D) ** 2) ** Symbol("c"))][k]()
        s = rng.choice([1, -1])
        if k in (3, 4): e = e + s * sqrt(D ** 2) * F
        with shuffled(rng): fd = finite_difference(e)
        check(rng, chk, e, fs, consts + [Symbol("c")], fd, f"{e}")
        return f"{e}"

    def lefts(rng, chk):
        """systems whose left-hand sides are of any form: they are not to be changed"""
        x, y, c = symbols("x y c")
        args = rng.choice([(x, t), (x, y, t), (t, x), (x, y)])
        U, V = Function("u")(*args), Function("v")(*args)
        lhs = [lambda f: Derivative(f, t), lambda f: Derivative(f, x), lambda f: Derivative(f, (args[-1], 2)), lambda f: f, lambda f: Derivative(f, x, args[-1]),
               lambda f: Derivative(f, x) + c * f, lambda f: c * Derivative(f, args[-1])]
        fs = [U, V][:rng.choice([1, 2])]
        eqs = []
        for f in fs:
            l = rng.choice(lhs)(f)
            r = gen_expr(rng, [U, V], [c], 2, 1)
            if t not in args and isinstance(l, Derivative) and t in l.variables: raise Skip()
            eqs.append(Eq(l, r))
        if any(not isinstance(e, sympy.Eq) or e.lhs == e.rhs for e in eqs): raise Skip()
        if any(not isinstance(e.args[0], sympy.Expr) or e.args[0].doit() == 0 for e in eqs): raise Skip()
        with shuffled(rng): s = finite_difference_system(eqs)
        chk.equal(len(s), len(eqs), "finite_difference_system: number of equations")
        for e, r in zip(eqs, s):
            chk.equal(r.args[0], e.args[0], "finite_difference_system: left-hand side changed")
            check(rng, chk, e.args[1], [U, V], [c], r.args[1], f"{e}", "finite_difference_system")
        return f"{eqs}"

    def hierarchy(rng, chk):
        """several derivatives of one field, of all orders, so that lower orders occur inside higher ones"""
        fs, consts, names = fields_for(rng)
        F = fs[0]
        D = []
        for _ in range(rng.randrange(2, 5)):
            cs = rng.sample(list(F.args), rng.randrange(1, min(2, len(F.args)) + 1))
            D.append(Derivative(F, *[(c, rng.randrange(1, 4)) for c in cs]))
        e = Add(*[rng.choice([Integer(1), F, consts[0]]) * d for d in D]) + D[0] * D[1] ** rng.choice([1, 2])
        with shuffled(rng): fd = finite_difference(e)
        check(rng, chk, e, [F], consts, fd, f"{e}")
        return f"{e}"

    def rename(rng, chk):
        """the same expression in other coordinates: same result up to the names"""
        x, y = symbols("x y")
        F, G = Function("u")(t, x, y), Function("v")(t, x)
        c = symbols("c")
        e = gen_expr(rng, [F, G], [c], 3, 1)
        if not e.atoms(Derivative): raise Skip()
        names = rng.choice([n for n in NAMES if len(n) >= 2])[:2]
        X, Y = [Symbol(n) for n in names]
        DX, DY = Symbol("d" + names[0]), Symbol("d" + names[1])
        p = {x: X, y: Y}
        e2 = e.xreplace(p)
        a = finite_difference(e).xreplace({**p, Symbol("dx"): DX, Symbol("dy"): DY})
        b = finite_difference(e2)
        chk.true(sympy.expand(a - b) == 0 or sympy.simplify(a - b) == 0, "the result depends on the names of the coordinates", expr=e, names=names, got=b, want=a)
        return f"{e} -> {names}"

    def system(rng, chk):
        fs, consts, names = fields_for(rng)
        cs = [Symbol(n) for n in names]
        pf = [Function(n)(t, *cs) for n in ["u", "v"][:rng.choice([1, 2])]]
        oth = [Function("a")(*cs)]
        eqs = [Eq(Derivative(f, t), gen_expr(rng, [Function(g.func.__name__)(*g.args) for g in pf + oth], consts, 2, 1).subs(t, t)) for f in pf]
        rhss = [e.args[1] for e in eqs]
        if any(r.has(Derivative(f, t)) for r in rhss for f in pf) or any(t in [v for d in r.atoms(Derivative) for v in d.variables] for r in rhss): raise Skip()
        if any(not isinstance(e, sympy.Eq) for e in eqs): raise Skip()
        with shuffled(rng):
            s1 = finite_difference_system(eqs)
            s2 = PDESystem(eqs).finite_difference
        for s, what in ((s1, "finite_difference_system"), (s2, "PDESystem.finite_difference")):
            chk.equal(len(s), len(eqs), f"{what}: number of equations")
            for e, r in zip(eqs, s):
                chk.equal(r.args[0], e.args[0], f"{what}: left-hand side changed")
                check(rng, chk, e.args[1], pf + oth, consts, r.args[1], f"{e}", what)
        return f"{eqs}"

    for k in range(run.n(60, 400)): run.case("linear", k, linear)
    for k in range(run.n(60, 800)): run.case("nonlinear", k, nonlinear)
    for k in range(run.n(40, 400)): run.case("hierarchy", k, hierarchy)
    for k in range(run.n(16, 160)): run.case("top", k, top)
    for k in range(run.n(30, 300)): run.case("rename", k, rename)
    for k in range(run.n(15, 150)): run.case("system", k, system)
    for k in range(run.n(8, 60)): run.case("many", k, many)
    for k in range(run.n(8, 60)): run.case("high", k, high)
    for k in range(run.n(8, 60)): run.case("orders", k, orders)
    for k in range(run.n(24, 200)): run.case("branches", k, branches)
    for k in range(run.n(24, 200)): run.case("lefts", k, lefts)


if __name__ == "__main__":
    main("C10", run_all)
