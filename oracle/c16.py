"""Closures against the derivatives of the correlation function, computed in truncated Taylor arithmetic from the formulas."""
from common import *
import itertools, math
import numpy as np
import sympy
from sympy import symbols, Function, Derivative, Symbol, Rational, exp, cos
from jets import Space, Interp


def multi(n, d):
    return [a for a in itertools.product(range(d + 1), repeat=n) if sum(a) == d]


def det(s, m):
    n = len(m)
    if n == 1: return m[0][0]
    if n == 2: return s.mul(m[0][0], m[1][1]) - s.mul(m[0][1], m[1][0])
    return sum((-1) ** j * s.mul(m[0][j], det(s, [r[:j] + r[j + 1:] for r in m[1:]])) for j in range(n))


def inverse(s, m):
    n = len(m); r = s.pow(det(s, m), -1)
    if n == 1: return [[r]]
    minor = lambda i, j: det(s, [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i])
    return [[s.mul(r, (-1) ** (i + j) * minor(j, i)) for j in range(n)] for i in range(n)]


def expj(s, a):
    return s.compose(a, lambda a0, n: [np.exp(a0)] * (n + 1))


def run_all(run):
    from sympkf.symbolic.pkfcas import Closure, LocGaussianClosure, Field
    from sympkf.symbolic.random import Expectation
    t = symbols("t")
    COORDS = {1: [("x",), ("theta",), ("\\lambda",), ("d",)], 2: [("x", "y"), ("y", "x"), ("lon", "lat"), ("x_{1}", "x_{2}")], 3: [("x", "y", "z")]}

    class LocAspect(LocGaussianClosure):
        """the local Gaussian written with the aspect tensor"""
        def correlation(self, px, py, metric=False):
            return super().correlation(px, py, metric)

    class Skewed(Closure):
        """a correlation without any symmetry, to tell apart all the multi-indices"""
        def correlation(self, px, py):
            d = [b - a for a, b in zip(px, py)]
            S = lambda i, j, p: self.aspect[i, j].subs({c: q for c, q in zip(self.spatial_coordinates, p)})
            n = len(d)
            q = sum(S(i, i, py) * d[i] ** 2 for i in range(n)) + sum((i + 1) * d[i] ** 3 for i in range(n))
            if n > 1: q += d[0] * d[1] * S(0, 1, px) + 2 * d[0] * d[1] ** 2
            return exp(-q)

    def tensor(rng, s, n):
        """symmetric positive definite tensor field (jets in x)"""
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        m = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                c = nr.uniform(-.4, .4, (1,) + s.shape)
                c[(slice(None),) + (0,) * n] = nr.uniform(1.2, 2.) if i == j else nr.uniform(-.3, .3)
                m[i][j] = m[j][i] = c
        return m

    def frozen(s, m):
        return [[s.const(float(s.val(c)[0])) for c in r] for r in m]

    def rho(kind, s, m, n):
        """jet in h of the correlation between x0 and x0+h, from the jet of the tensor at x0"""
        h = []
        for k in range(n):
            z = s.zero(); idx = [0] * n; idx[k] = 1
            z[(slice(None),) + tuple(idx)] = 1.; h.append(z)
        m0 = frozen(s, m)
        quad = lambda A: sum(s.mul(s.mul(h[i], A[i][j]), h[j]) for i in range(n) for j in range(n))
        if kind == "gauss":
            sm = [[m0[i][j] + m[i][j] for j in range(n)] for i in range(n)]
            half = [[.5 * c for c in r] for r in sm]
            norm = s.mul(s.mul(s.pow(det(s, m0), .25), s.pow(det(s, m), .25)), s.pow(det(s, half), -.5))
            return s.mul(norm, expj(s, -quad(inverse(s, sm))))
        if kind == "metric": return expj(s, -.5 * quad(m0))
        if kind == "aspect": return expj(s, -.5 * quad(inverse(s, m0)))
        if kind == "skewed":
            q = sum(s.mul(m[i][i], s.mul(h[i], h[i])) + (i + 1) * s.mul(h[i], s.mul(h[i], h[i])) for i in range(n))
            if n > 1: q = q + s.mul(s.mul(h[0], h[1]), m0[0][1]) + 2 * s.mul(h[0], s.mul(h[1], h[1]))
            return expj(s, -q)
        raise KeyError(kind)

    CLS = {"gauss": Closure, "metric": LocGaussianClosure, "aspect": LocAspect, "skewed": Skewed}

    def term_of(eps, X, a):
        e = eps
        for x, k in zip(X, a):
            for _ in range(k): e = Derivative(e, x).doit() if False else sympy.diff(e, x)
        return Expectation(eps * e)

    def check_closure(chk, got, kind, cl, mf, s, m, n, order, desc, metric=None, part=None):
        X = mf.spatial_coordinates
        r = rho(kind, s, m, n)
        comps = {}
        for i in range(n):
            for j in range(n):
                if kind == "metric": comps[mf.metric[i, j]] = m[i][j]
                else: comps[mf.aspect[i, j]] = m[i][j]
                if metric is not None: comps[mf.metric[i, j]] = metric[i][j]
        I = Interp(s, {}, {t: .7}, Expectation, comps)
        for p in range(order + 1):
            for a in multi(n, p):
                k = term_of(mf.epsilon, X, a)
                chk.true(k in got, f"no value for {k}", case=desc, keys=list(got)[:12])
                v = sympy.sympify(got[k])
                if metric is not None and p == 2:
                    i, j = [q for q, c in enumerate(a) for _ in range(c)]
                    want = -float(s.val(metric[i][j])[0])
                else:
                    want = float(r[(0,) + a]) * math.prod(math.factorial(c) for c in a)
                try: val = float(s.val(I.den(v))[0])
                except (KeyError, NotImplementedError) as e: raise Violation(f"the value of {k} involves something else than the tensor: {e}", case=desc, value=v)
                chk.true(abs(val - want) <= 1e-7 * max(1., abs(want), I.scale(v)), f"value of {k} is not the derivative of the correlation", case=desc, value=v, got=val, want=want)
                if metric is not None:
                    left = {q for q in v.atoms(sympy.core.function.AppliedUndef) if q in [c for c in mf.aspect]}
                    chk.true(not left, "an aspect component is left in the closure in metric", value=v, term=k, case=desc)

    def history(kind, n, maxo, met):
        def go(rng, chk):
            names = rng.choice(COORDS[n])
            X = [Symbol(q) for q in names]
            u = Function(rng.choice(["u", "T", "\\theta_{a}"]))(t, *X)
            mf = Field(u)
            cl = CLS[kind](mf) if rng.random() < .7 else CLS[kind](u)
            mf = cl.mfield
            s = Space(X, (maxo + 2,) * n if n == 1 else (maxo + 1,) * n, [0.] * n, 1)
            m = tensor(rng, s, n)
            if kind == "skewed": g = None
            log = [kind, names]
            last = None
            for _ in range(rng.randrange(1, 5) if maxo > 2 else 2):
                o = rng.randrange(0, maxo + 1)
                act = rng.choice(["closure", "closure", "by_order", "taylor", "metric" if met else "closure"])
                if act == "metric": o = max(o, 2)
                log.append(f"{act}({o})")
                if act == "taylor": cl.taylor(o)
                elif act == "closure":
                    check_closure(chk, cl.closure(o), kind, cl, mf, s, m, n, o, log)
                elif act == "by_order":
                    b = cl.closure_by_order(o)
                    flat = {}
                    for p in range(o + 1):
                        chk.equal(set(b[p]), {term_of(mf.epsilon, mf.spatial_coordinates, a) for a in multi(n, p)}, f"terms of order {p}", case=log)
                        flat.update(b[p])
                    check_closure(chk, flat, kind, cl, mf, s, m, n, o, log)
                else:
                    g = inverse(s, m)
                    b = cl.in_metric_by_order(o)
                    flat = {}
                    for p in range(o + 1): flat.update(b[p])
                    check_closure(chk, flat, kind, cl, mf, s, m, n, o, log, metric=g)
            log.append("end")
            check_closure(chk, cl.closure(2), kind, cl, mf, s, m, n, 2, log)
            return str(log)
        return go

    def formula(rng, chk):
        """the correlation functions themselves, at two arbitrary points"""
        n = rng.choice([1, 1, 2, 2])
        X = [Symbol(q) for q in rng.choice(COORDS[n])]
        u = Function("u")(t, *X); mf = Field(u)
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        P, Q = [symbols(f"p0:{n}")[i] for i in range(n)], [symbols(f"q0:{n}")[i] for i in range(n)]
        pv, qv = nr.uniform(-1, 1, n), nr.uniform(-1, 1, n)
        def spd():
            A = nr.uniform(-.5, .5, (n, n)); return A @ A.T + np.eye(n)
        Mp, Mq = spd(), spd()
        def value(e, M):
            sub = {}
            for i in range(n):
                for j in range(n):
                    sub[M[i, j].subs(dict(zip(X, P)), simultaneous=True)] = Mp[i, j]; sub[M[i, j].subs(dict(zip(X, Q)), simultaneous=True)] = Mq[i, j]
            e = e.xreplace({k: sympy.Float(v, 30) for k, v in sub.items()})
            return float(e.xreplace({**{a: sympy.Float(b, 30) for a, b in zip(P, pv)}, **{a: sympy.Float(b, 30) for a, b in zip(Q, qv)}}).evalf())
        d = pv - qv
        het = (np.linalg.det(Mp) * np.linalg.det(Mq)) ** .25 / np.linalg.det((Mp + Mq) / 2) ** .5
        c, l = Closure(mf), LocGaussianClosure(mf)
        f = lambda v: float(v)
        chk.close(f(value(c.correlation(P, Q), mf.aspect)), het * np.exp(-d @ np.linalg.inv(Mp + Mq) @ d), "heterogeneous Gaussian correlation", n=n)
        chk.close(f(value(c.correlation(Q, P), mf.aspect)), het * np.exp(-d @ np.linalg.inv(Mp + Mq) @ d), "symmetry of the heterogeneous Gaussian correlation", n=n)
        chk.close(f(value(c.correlation_in_diffusion(P, Q), mf.diffusion)), het * np.exp(-.5 * d @ np.linalg.inv(Mp + Mq) @ d), "heterogeneous Gaussian correlation in diffusion", n=n)
        chk.close(f(value(l.correlation(P, Q), mf.metric)), np.exp(-.5 * d @ Mp @ d), "local Gaussian correlation in metric", n=n)
        chk.close(f(value(l.correlation(P, Q, metric=False), mf.aspect)), np.exp(-.5 * d @ np.linalg.inv(Mp) @ d), "local Gaussian correlation in aspect", n=n)
        return f"n={n} {X}"

    part = os.environ.get("ORACLE_PART")
    i, k = [int(v) for v in part.split("/")] if part else (0, 1)
    T = run.thorough
    jobs = [("formula", j, formula) for j in range(run.n(12, 100))]
    jobs += [("gauss2D", j, history("gauss", 2, 2, False)) for j in range(run.n(1, 3))]
    jobs += [("gauss1D", j, history("gauss", 1, 5 if T else 4, True)) for j in range(run.n(6, 40))]
    jobs += [("metric1D", j, history("metric", 1, 6, False)) for j in range(run.n(4, 20))]
    jobs += [("aspect1D", j, history("aspect", 1, 5, True)) for j in range(run.n(4, 20))]
    jobs += [("skewed1D", j, history("skewed", 1, 5, False)) for j in range(run.n(4, 20))]
    jobs += [("metric2D", j, history("metric", 2, 5 if T else 4, False)) for j in range(run.n(6, 40))]
    jobs += [("aspect2D", j, history("aspect", 2, 4 if T else 3, True)) for j in range(run.n(4, 20))]
    jobs += [("skewed2D", j, history("skewed", 2, 4, False)) for j in range(run.n(6, 30))]
    jobs += [("metric3D", j, history("metric", 3, 3, False)) for j in range(run.n(2, 8))]
    for j, (g, key, fn) in enumerate(jobs):
        if j % k == i or run.only: run.case(g, key, fn)


if __name__ == "__main__":
    main("C16", run_all)
