"""Expectation = mean over a finite probability space, checked on random expressions with explicit random fields."""
from common import *
import sympy
from sympy import symbols, Function, Derivative, Integral, Add, Mul, Pow, Rational, Integer, S, sin, exp


def run_all(run):
    from sympkf.symbolic import random as R
    from sympkf.symbolic.random import Expectation, israndom, omega
    from sympkf.symbolic.util import Eq, Matrix
    t, x, y, a, b, c = symbols("t x y a b c")
    X, Y = Function("X")(t, x, omega), Function("Y")(x, omega)
    Z = Function("Z")(t, x, y, omega)
    W = Function("W")(omega)
    Q, Q2 = Function("Q")(omega, x), Function("Q2")(t, omega, x)      # omega is not always the last argument
    f, g = Function("f")(t, x), Function("g")(x)
    h = Function("h")(t, x, y)
    RANDOM, DET = [X, Y, Z, W, Q, Q2], [f, g, h, a, b]
    VARS = [t, x, y]
    NW = 3

    def poly(rng, vs):
        return sum(Rational(rng.randrange(-4, 5), rng.randrange(1, 4)) * v ** rng.randrange(0, 3) * w ** rng.randrange(0, 3)
                   for v in vs for w in vs) + Rational(rng.randrange(1, 7), 3)

    class Meaning:
        def __init__(self, rng):
            self.fields = {F: [poly(rng, [v for v in F.args if v != omega] or [Integer(1)]) for _ in range(NW)] for F in RANDOM}
            self.det = {F: poly(rng, list(F.args)) for F in (f, g, h)}
            self.det.update({a: Rational(rng.randrange(1, 9), 4), b: Rational(-rng.randrange(1, 9), 5), c: Rational(7, 3)})
            self.om = [Rational(rng.randrange(-5, 6), 3) for _ in range(NW)]
            self.pt = {t: Rational(rng.randrange(-3, 4), 7), x: Rational(rng.randrange(1, 8), 5), y: Rational(rng.randrange(-8, 8), 9)}
            self.memo = {}

        def den(self, e, w):
            k = (e, w)
            if k not in self.memo: self.memo[k] = self._den(e, w)
            return self.memo[k]

        def _den(self, e, w):
            if e in self.fields: return self.fields[e][w]
            if e in self.det: return self.det[e]
            if e == omega: return self.om[w]
            for F in list(self.fields) + [k for k in self.det if k.args]:      # same head, renamed (bound) coordinates
                if e.func == F.func and len(e.args) == len(F.args):
                    base = self.fields[F][w] if F in self.fields else self.det[F]
                    return base.subs({v: self.den(k, w) for v, k in zip(F.args, e.args) if v != omega}, simultaneous=True)
            if e.is_Number or isinstance(e, sympy.Symbol): return e
            if isinstance(e, Expectation):
                return sum(self.den(e.args[0], k) for k in range(NW)) / NW
            if isinstance(e, Derivative):
                r = self.den(e.expr, w)
                for v, n in e.variable_count: r = sympy.diff(r, v, n)
                return r
            if isinstance(e, Integral):
                r = self.den(e.function, w)
                for lim in e.limits:
                    v = lim[0]
                    F = sympy.integrate(sympy.expand(r), v)
                    if len(lim) == 1: r = F
                    elif len(lim) == 3: r = F.subs(v, self.den(lim[2], w)) - F.subs(v, self.den(lim[1], w))
                    else: raise NotImplementedError
                return r
            return e.func(*[self.den(k, w) for k in e.args])

        def values(self, e):
            out = []
            for w in range(NW):
                v = self.den(e, w)
                out.append(complex(sympy.N(v.subs(self.pt), 30)))
            return out

    def gen(rng, depth, rnd=None, poly_only=False):
        """random expression"""
        if depth <= 0 or rng.random() < 0.12:
            r = rng.random()
            if rnd is False or (rnd is None and r < .4):
                return rng.choice(DET + [Integer(2), Rational(-3, 2), t, x, c, Expectation(X), Expectation(X * Y)])
            return rng.choice(RANDOM + [X, X, omega])
        k = rng.choice(["add", "add", "mul", "mul", "mul", "pow", "der", "der", "int", "E", "fun", "div"])
        if poly_only and k in ("fun", "div"): k = "mul"
        sub = lambda r=rnd, p=poly_only: gen(rng, depth - 1, r, p)
        if k == "add": return Add(*[sub() for _ in range(rng.randrange(2, 4))])
        if k == "mul": return Mul(*[sub(rng.choice([None, rnd])) for _ in range(rng.randrange(2, 4))])
        if k == "pow":
            if not poly_only and rng.random() < .3: return Pow(rng.choice([Integer(2), a ** 2, Rational(3, 2), exp(f)]), sub(p=True))
            return Pow(sub(), rng.choice([2, 2, 3]))
        if k == "div": return sub() / rng.choice([a, b, 1 + a ** 2, f])
        if k == "fun": return rng.choice([sin, exp])(sub())
        if k == "E": return Expectation(sub(None))
        e = sub(p=True) if k == "int" else sub()
        if k == "der":
            ev = rng.random() < .3
            vc = [(v, rng.randrange(1, 3)) for v in rng.sample(VARS, rng.choice([1, 1, 2, 3]))]
            return Derivative(e, *vc, evaluate=ev)
        lim = [rng.choice([(v,), (v, 0, Rational(1, 2)), (v, a, b)] + [(v, 0, W), (v, W, a), (v, Expectation(W), b)][:3 * (rng.random() < .4)]) for v in rng.sample(VARS, rng.choice([1, 1, 2]))]
        if rng.random() < .2: lim.append(lim[0])
        return Integral(e, *lim)

    def my_random(e):
        if isinstance(e, Expectation): return False
        if e == omega: return True
        return any(my_random(k) for k in e.args)

    def nodes(e):
        out = [e] if isinstance(e, Expectation) else []
        for k in e.args: out += nodes(k)
        return out

    def normal(chk, r, src):
        for n in nodes(r):
            q = n.args[0]
            chk.true(my_random(q), "Expectation of a deterministic expression is left", node=n, source=src)
            chk.true(not isinstance(q, (Add, Derivative)) and not (isinstance(q, Integral) and not any(my_random(k) for l in q.limits for k in l[1:])), "Expectation is not distributed/commuted", node=n, source=src)
            if isinstance(q, Mul):
                chk.true(all(my_random(k) for k in q.args), "deterministic factor left inside the Expectation", node=n, source=src)

    def close(chk, e1, e2, m, what, **d):
        v1, v2 = m.values(e1), m.values(e2)
        if any(v != v or abs(v) == float("inf") for v in v2): raise Skip()       # (division by zero at the point of evaluation)
        chk.true(all(abs(p - q) <= 1e-9 * (1 + abs(p)) for p, q in zip(v1, v2)), what, got=e1, want=e2, v1=v1, v2=v2, **d)

    def mean_of(chk, r, e, m, what, **d):
        v = m.values(e); mu = sum(v) / NW
        if mu != mu or abs(mu) == float("inf"): raise Skip()
        chk.true(all(abs(p - mu) <= 1e-9 * (1 + abs(mu) + max(abs(k) for k in v)) for p in m.values(r)), what, got=r, arg=e, want=mu, value=m.values(r), **d)

    def usable(e):
        try:
            if e.has(sympy.nan, sympy.zoo, sympy.oo): return False
        except Exception: return False
        return len(str(e)) < 900

    def expr_case(rng, chk):
        e = gen(rng, rng.choice([1, 2, 2, 3]))
        if not isinstance(e, sympy.Expr) or not usable(e): raise Skip()
        m = Meaning(rng)
        try: vals = m.values(e)
        except (TypeError, OverflowError): raise Skip()
        if any(abs(v) > 1e12 or v != v for v in vals): raise Skip()
        chk.equal(israndom(e), my_random(e), "israndom is wrong", expression=e)
        r = Expectation(e)
        chk.true(not my_random(r), "the expectation is random", expression=e, result=r)
        mean_of(chk, r, e, m, "Expectation is not the mean", expression=e)
        normal(chk, r, e)
        r2 = Expectation(r)
        close(chk, r2, r, m, "Expectation is not idempotent")
        chk.true(sympy.expand(r2 - r) == 0, "Expectation of a deterministic expression is not that expression", got=r2, want=r)
        if not my_random(e):
            chk.true(sympy.expand(r - e) == 0, "Expectation of a deterministic expression is not that expression", got=r, want=e)
        return str(e)[:200]

    def linear_case(rng, chk):
        d = 2
        p, q = gen(rng, d, True), gen(rng, d, True)
        s = gen(rng, 1, False)
        if my_random(s) or not (usable(p) and usable(q) and usable(s)): raise Skip()
        m = Meaning(rng)
        try:
            vp, vq = m.values(p), m.values(q); vs = m.values(s)
        except (TypeError, OverflowError): raise Skip()
        if any(abs(v) > 1e10 or v != v for v in vp + vq + vs): raise Skip()
        E = Expectation
        close(chk, E(s * p + q), s * E(p) + E(q), m, "Expectation is not linear", p=p, q=q, s=s)
        normal(chk, E(s * p + q), (s, p, q))
        return f"{s} ; {p} ; {q}"[:200]

    def commute_case(rng, chk):
        # structure, on pure derivatives/integrals of random fields
        p = rng.choice([X, Z, X * Y, X ** 2, X * Z, Y * W, Q * X, Q2])
        vs = rng.sample(VARS, rng.choice([1, 2, 3]))
        vc = [(v, rng.randrange(1, 4)) for v in vs]
        d = Derivative(p, *vc, evaluate=False)
        E = Expectation
        r = E(d)
        w = Derivative(E(p), *vc, evaluate=False)
        if E(p).free_symbols >= set(vs):
            chk.true(isinstance(r, Derivative) and dict(r.variable_count) == dict(w.variable_count) and r.expr == w.expr,
                     "Expectation does not commute with the derivative", got=r, want=w)
        lims = [rng.choice([(v,), (v, 0, 1), (v, a, b), (v, 0, c)]) for v in vs]
        if rng.random() < .4:
            v = rng.choice(vs); lims = lims + [(v,), (v,)] if rng.random() < .5 else [(v,)] * rng.choice([2, 3])
        i = Integral(p, *lims)
        r = E(i)
        w = Integral(E(p), *lims)
        chk.true(r == w, "Expectation does not commute with the integral", got=r, want=w)
        nested = Derivative(Integral(X, (x, 0, y)), t, (y, 2), evaluate=False)
        m = Meaning(rng)
        mean_of(chk, E(f * nested), f * nested, m, "mean of a derivative of an integral")
        # derivative of an expectation keeps the orders; nothing is lost
        der = sympy.diff(E(p), *[v for v, n in vc for _ in range(n)])
        if E(p).free_symbols >= set(vs):
            chk.true(isinstance(der, Derivative) and dict(der.variable_count) == dict(vc), "derivative of an expectation", got=der, want=vc)
        return f"{d} {i}"

    def struct_case(rng, chk):
        E = Expectation
        sh = rng.choice([(2, 2), (1, 4), (4, 1), (3, 2), (2, 3), (1, 1), (3, 3)])
        exprs = [gen(rng, 2 if k < 4 else 1) for k in range(max(4, sh[0] * sh[1]))]
        if not all(isinstance(k, sympy.Expr) and usable(k) for k in exprs): raise Skip()
        lhs, rhs = rng.choice([(exprs[0] + X, exprs[1]), (f, exprs[1] + X), (exprs[0] + Q, g * 2), (h + f, b * X * exprs[0]), (f, g * E(X)), (g * E(X * Y), 2 * f), (E(X) ** 2, f * E(Y)), (E(X) + f, Derivative(g, x) * E(X * Q)),
                               (f, E(X) * Y), (sin(E(X)), f), (Integral(E(X), (x, 0, a)), a * E(Y))])
        if sympy.expand(lhs - rhs) == 0 : raise Skip()
        q = rng.choice([Eq, Eq, sympy.Eq])(lhs, rhs)
        if not isinstance(q, sympy.Eq): raise Skip()
        chk.equal(israndom(q), my_random(q), "israndom(equation)", eq=q)
        chk.equal(israndom(q.func(q.args[1], q.args[0])), my_random(q), "israndom(equation)", eq=q)
        r = E(q)
        m = Meaning(rng)
        try:
            if any(abs(v) > 1e10 or v != v for k in exprs for v in m.values(k)): raise Skip()
        except (TypeError, OverflowError): raise Skip()
        if r not in (S.true, S.false):
            chk.true(isinstance(r, sympy.Eq), "Expectation of an equation is not an equation", got=r, eq=q)
            if q.expand() not in (S.true, S.false) and isinstance(r, sympy.Eq):
                l2, r2 = r.args
                mean_of(chk, l2, q.args[0], m, "Expectation of the left-hand side", eq=q)
                mean_of(chk, r2, q.args[1], m, "Expectation of the right-hand side", eq=q)
        exprs = exprs[:sh[0] * sh[1]]
        for M in (sympy.Matrix(*sh, exprs), sympy.ImmutableMatrix(*sh, exprs), Matrix(*sh, exprs)):
            ir = any(my_random(k) for k in exprs)
            chk.equal(israndom(M), ir, "israndom(matrix)", matrix=M)
            r = E(M)
            chk.equal(tuple(r.shape), sh, "Expectation of a matrix: shape")
            for k in range(len(exprs)):
                mean_of(chk, list(r)[k], exprs[k], m, f"Expectation of a matrix: entry {k}", matrix=M)
        return f"{q} {sh}"[:200]

    def subs_case(rng, chk):
        E = Expectation
        p = gen(rng, 2, True, True)
        q = gen(rng, 1, None, True)
        if not usable(p) or not usable(q) or not p.has(X) or p.has(Integral): raise Skip()
        m = Meaning(rng)
        r = E(p)
        s1 = r.subs(X, f)                       # X becomes deterministic
        m2 = Meaning(rng); m2.fields = dict(m.fields); m2.det, m2.om, m2.pt = m.det, m.om, m.pt
        m2.fields[X] = [m.det[f]] * NW
        m2.memo = {}
        v = m2.values(p)
        if any(abs(k) > 1e10 for k in v): raise Skip()
        mu = sum(v) / NW
        chk.true(all(abs(k - mu) <= 1e-9 * (1 + abs(mu)) for k in m.values(s1)), "substitution in an Expectation", arg=p, got=s1, want=mu)
        for nd in (s1,): normal(chk, nd, p)
        return f"{p}"[:150]

    def has_case(rng, chk):
        E = Expectation
        p = rng.choice([X, X * Y, Z ** 2, X * sin(Z)])
        chk.equal(israndom(Q), True, "israndom(field)"); chk.equal(israndom(sympy.atan2(X, x)), True, "israndom(function of two arguments)")
        chk.equal(israndom(Function('k')(X, x)), True, "israndom(function of a random field)")
        n = E(p)
        chk.true(n.has(omega) is False, "an expectation shows omega", node=n)
        chk.true(n.has(x) is True, "an expectation hides its coordinates", node=n)
        chk.true(n.has(omega, x) is True, "has with several patterns", node=n)
        chk.true((n + f).has(t) is True, "has in a sum", node=n)
        chk.equal(israndom(n), False, "israndom(expectation)")
        chk.equal(israndom(n * X), True, "israndom(expectation times random)")
        chk.equal(israndom(n * f), False, "israndom(expectation times deterministic)")
        i = Integral(rng.choice([f, X]), (x, rng.choice([(0, W), (W, a), (n, W), (0, W * n)])[0], W))
        chk.equal(israndom(i), True, "israndom(integral with a random bound)")
        chk.equal(israndom(Integral(f, (x, 0, E(W)))), False, "israndom(integral with a deterministic bound)")
        chk.equal(israndom(omega), True, "israndom(omega)")
        chk.equal(israndom(x), False, "israndom(symbol)")
        return f"{n}"

    def factor_case(rng, chk):
        """every deterministic factor goes out: signs, numbers, symbols, functions, powers, expectations, several at once"""
        E = Expectation
        dets = [Integer(-1), Integer(2), Rational(-1, 2), sympy.I, sympy.pi, a, -a, 1 / b, f, -f, g ** 2, exp(f), a ** f, sin(x), E(X), -E(X * Y), E(X) ** 2,
                sympy.Derivative(f, x), sympy.sqrt(2), Integral(f, (x, 0, a)), f + g, 1 / (a + b)]
        rands = [X, X * Y, X ** 2, omega, sin(X), exp(X), 1 / X, sympy.Derivative(X, t), X * E(X) * Y, sympy.sqrt(Z), a ** X]
        d = Mul(*rng.sample(dets, rng.choice([1, 1, 2, 3]))); q = Mul(*rng.sample(rands, rng.choice([1, 1, 2])))
        if my_random(d) or not my_random(q): raise Skip()
        r = E(d * q)
        normal(chk, r, (d, q))
        m = Meaning(rng)
        try: close(chk, r, d * E(q), m, "a deterministic factor does not go out of the expectation", factor=d, rest=q)
        except (TypeError, OverflowError, ZeroDivisionError): raise Skip()
        for e in (-X, -q, X - Y, a - q, -X - q, -Derivative(X, x), 2 * X - Q): normal(chk, E(e), e)
        chk.true(sympy.expand(E(-q) + E(q)) == 0, "E(-q) is not -E(q)", got=E(-q), q=q)
        many = Add(*[Integer(k - 4) * (X if k % 2 else Y) ** (k + 1) for k in range(rng.choice([3, 8, 12]))])
        r = E(many); normal(chk, r, many)
        chk.equal(sympy.expand(r - Add(*[E(k) for k in many.args])), S.Zero, "E of a long sum")
        return f"{d} | {q}"[:150]

    for k in range(run.n(250, 5000)): run.case("expr", k, expr_case)
    for k in range(run.n(60, 800)): run.case("factor", k, factor_case)
    for k in range(run.n(80, 1500)): run.case("linear", k, linear_case)
    for k in range(run.n(60, 800)): run.case("commute", k, commute_case)
    for k in range(run.n(60, 500)): run.case("struct", k, struct_case)
    for k in range(run.n(40, 600)): run.case("subs", k, subs_case)
    def wide_case(rng, chk):
        """many terms, factors, arguments, integrals, components"""
        k = rng.randrange(6)
        vs = list(symbols("p1:%d" % rng.randrange(5, 13)))
        S_ = [Function(f"R{i}")(x, omega) for i in range(rng.randrange(5, 12))]
        D_ = [Function(f"q{i}")(t, x) for i in range(rng.randrange(5, 12))]
        if k == 0:
            args = vs + [rng.choice([omega, X, X * f, Expectation(X), f])]; rng.shuffle(args)
            e = Function("F")(*args)
        elif k == 1:
            lim = [(v, 0, 1) for v in vs]; lim[rng.randrange(len(lim))] = (vs[-1], 0, rng.choice([W, Expectation(W), a]))
            e = Integral(rng.choice([f, X]) * vs[0], *lim)
        elif k == 2:
            n, m_ = rng.randrange(3, 7), rng.randrange(3, 7)
            rows = [rng.choice(D_) for _ in range(n * m_)]
            if rng.random() < .8: rows[rng.randrange(n * m_)] = rng.choice([X, X * f + g])
            M = rng.choice([sympy.Matrix, sympy.ImmutableMatrix])(n, m_, rows)
            chk.equal(israndom(M), any(my_random(q) for q in M), "israndom is wrong", expression=M)
            r = Expectation(M)
            chk.true(r.shape == M.shape and all(r[i] == Expectation(M[i]) for i in range(n * m_)), "Expectation of a matrix is not that of its components", got=r, arg=M)
            return "matrix"
        elif k == 3:
            ts = [rng.choice(D_) * q for q in S_] + D_; rng.shuffle(ts)
            e = Add(*ts)
            want = Add(*[Expectation(q) for q in ts])
            chk.true(sympy.expand(Expectation(e) - want) == 0, "Expectation of a sum is not the sum", got=Expectation(e), want=want)
        elif k == 4:
            e = Mul(*(S_ + D_))
            chk.true(Expectation(e) == Mul(*D_) * Expectation(Mul(*S_)), "deterministic factors are not taken out", got=Expectation(e), arg=e)
        else:
            e = X
            for v in vs: e = rng.choice([lambda q: sin(q), lambda q: q ** 2, lambda q: exp(q), lambda q: Function("G")(v, q), lambda q: q * Function("G")(v)])(e)
            if rng.random() < .5: e = e.subs(X, rng.choice([f, Expectation(X)]))
        chk.equal(israndom(e), my_random(e) if not isinstance(e, Integral) else any(my_random(q) for q in (e.function, *[q for l in e.limits for q in l[1:]])), "israndom is wrong", expression=e)
        r = Expectation(e)
        chk.true(not my_random(r), "the expectation is random", expression=e, result=r)
        if not isinstance(e, Integral): normal(chk, r, e)
        return str(e)[:200]

    for k in range(run.n(48, 600)): run.case("wide", k, wide_case)
    for k in range(run.n(6, 12)): run.case("has", k, has_case)


if __name__ == "__main__":
    main("C05", run_all)
