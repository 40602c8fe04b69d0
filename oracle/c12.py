"""Grid, axes, indices, constants and time scheme of the generated models; delegation to the manifold."""
from common import *
import io, contextlib
import numpy as np
import sympy
from sympy import symbols, Function, Derivative, Symbol, Integer
from shuffle import shuffled
from c11 import COORD, clean, quiet, build_system, t
from npeval import Grid


def run_all(run):
    from sympkf.symbolic import FDModelBuilder, PDESystem
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    from sympkf.symbolic.util import Eq as REq

    def make(builder, eqs, name, rng):
        ns = {}
        with shuffled(rng): exec(builder(eqs, class_name=name).code, ns)
        return ns[name]

    def roles(eqs, P, cs):
        fields, syms = set(P), set()
        for e in eqs:
            fields |= e.args[1].atoms(sympy.core.function.AppliedUndef); syms |= e.args[1].atoms(Symbol)
        cf = {f for f in fields - set(P) if t not in f.args}
        return cf, fields - set(P) - cf, syms - {t} - set(cs)

    def system(rng, dim):
        if dim > 3:          # many coordinates and constants of each kind
            cs = list(symbols("x1:%d" % (dim + 1)))
            u = Function("u")(t, *cs)
            C, A = symbols("k1:%d" % rng.randrange(5, 24)), [Function(f"a{i}")(*cs) for i in range(rng.randrange(3, 14))]
            return cs, [u], [rng.choice([sympy.Eq, REq])(Derivative(u, t), sum(Derivative(u, c) * u for c in cs) + sum(C) * u + sum(A))]
        while True:
            cs, P, eqs = build_system(rng, dim, rng.choice([sympy.Eq, REq]))
            if all(isinstance(e, sympy.Eq) for e in eqs) and max(len(str(e)) for e in eqs) < 400: return cs, P, eqs

    def constants(rng, chk, m, kw, cf, C, desc, arrays):
        for f in cf | C:
            n = clean(f.func) if f in cf else clean(f)
            v = getattr(m, n)
            if n in kw: chk.true(v is kw[n] or np.array_equal(v, kw[n]), f"value of {n} is not that of its keyword", case=desc, got=v, want=kw[n])
            else: chk.true(isinstance(v, float) and np.isnan(v), f"{n} is not nan by default", case=desc, got=v)

    def keywords(rng, cf, C, shape):
        kw = {}
        for f in sorted(cf | C, key=str):
            if rng.random() < .6: kw[clean(f.func) if f in cf else clean(f)] = np.random.RandomState(rng.randrange(99)).rand(*shape) if f in cf else rng.choice([0, 0., rng.uniform(-2, 2), 3])
        return kw

    SCHEMES = ["euler", "rk2", "rk4", "leapfrog"]

    def scheme_of(chk, m, name, desc):
        """the scheme a model integrates with is that of a model that selects it by name"""
        chk.true(m.time_scheme == m.time_schemes[name], f"time scheme is not {name}", case=desc, got=m.time_scheme)

    def grid(rng, chk):
        dim = rng.choice([1, 1, 2, 2, 3] * 5 + [4, 5, 6])
        cs, P, eqs = system(rng, dim)
        desc = str(eqs)[:400]
        cls = make(FDModelBuilder, eqs, "G", rng)
        cf, ex, C = roles(eqs, P, cs)
        for rep in range(3):
            shape = None if rng.random() < .2 and dim < 3 else tuple(rng.randrange(1, 12) if rng.random() < .3 else rng.randrange(3, 30) for _ in cs) if dim < 4 else tuple(rng.randrange(1, 5) for _ in cs)
            if dim == 1 and rng.random() < .05: shape = (rng.choice([300, 40000, 70001]),)
            lengths = None if rng.random() < .3 else tuple(rng.choice([1, 2., rng.uniform(.1, 50), 1e3]) for _ in cs)
            if shape is not None and rng.random() < .3: shape = list(shape)
            if lengths is not None and rng.random() < .3: lengths = list(lengths)
            sh = (100,) * dim if shape is None else tuple(shape)
            ln = (1.,) * dim if lengths is None else tuple(lengths)
            kw = keywords(rng, cf, C, sh)
            sch = rng.choice(SCHEMES + [None])
            if sch: kw["time_scheme"] = sch
            if shape is not None or rng.random() < .5: kw["shape"] = shape
            if lengths is not None or rng.random() < .5: kw["lengths"] = lengths
            m = quiet(cls, **kw)
            d = f"{desc} shape={shape} lengths={lengths} {sorted(kw)}"
            chk.equal(tuple(m.coordinates), tuple(clean(c) for c in cs), "coordinates", case=d)
            chk.equal(tuple(m.shape), sh, "shape", case=d)
            chk.equal(len(m.dx), dim, "number of steps", case=d)
            for k in range(dim):
                chk.close(m.dx[k], ln[k] / sh[k], "grid step is not length/points", rtol=1e-14, atol=0, case=d)
                chk.close(np.asarray(m.x[k]), np.arange(sh[k]) * (ln[k] / sh[k]), "axis is not k*dx", rtol=1e-13, atol=0, case=d)
                X = np.asarray(m.X[k])
                chk.equal(X.shape, sh, "shape of a mesh array is not that of the fields", case=d)
                want = (np.arange(sh[k]) * (ln[k] / sh[k])).reshape(tuple(sh[k] if j == k else 1 for j in range(dim))) + np.zeros(sh)
                chk.close(X, want, "X[c] does not vary along the axis of coordinate c", rtol=1e-13, atol=0, case=d)
            # the index of a shift does not depend on the history of requests
            hist = []
            for _ in range(rng.randrange(4, 14)):
                k = rng.randrange(dim)
                s = rng.choice([0, 1, -1, 2, -2, 3, rng.randrange(-40, 40), sh[k], -sh[k], rng.randrange(-10 ** 4, 10 ** 4), rng.randrange(-10 ** 9, 10 ** 9)])
                got = np.asarray(m.index(clean(cs[k]), s))
                hist.append((k, s))
                chk.true(got.shape == (sh[k],) and np.issubdtype(got.dtype, np.integer) and np.array_equal(got, (np.arange(sh[k]) + s) % sh[k]),
                         "index(c,k) is not (i+k) modulo the number of points", case=d, got=got, history=hist)
            constants(rng, chk, m, kw, cf, C, d, None)
            scheme_of(chk, m, sch or "rk4", d)
        # wrong numbers
        for bad in [(5,) * (dim + 1), (5,) * (dim - 1)]:
            chk.raises(ValueError, lambda: quiet(cls, shape=bad), "wrong number of points accepted", case=desc, shape=bad)
            chk.raises(ValueError, lambda: quiet(cls, shape=(5,) * dim, lengths=tuple(map(float, bad))), "wrong number of lengths accepted", case=desc, lengths=bad)
            chk.raises(ValueError, lambda: quiet(cls, lengths=tuple(map(float, bad))), "wrong number of lengths accepted", case=desc, lengths=bad)
        chk.raises(ValueError, lambda: quiet(cls, shape=(5,) * dim, time_scheme="nope"), "unknown time scheme accepted", case=desc)
        # models do not share anything
        a, b = quiet(cls, shape=(5,) * dim), quiet(cls, shape=(7,) * dim)
        a.index(clean(cs[0]), 1)
        chk.true(np.array_equal(b.index(clean(cs[0]), 1), (np.arange(7) + 1) % 7), "the indices of a model are those of another one", case=desc)
        return desc[:200]

    class Space:
        def __init__(self, dim, rng):
            self.dimension, self.calls, self.nr = dim, [], rng

        def diff(self, f, *orders):
            names, n = orders[0::2], orders[1::2]
            self.calls.append((f, tuple(zip(names, n))))
            return self.value(f, dict(zip(names, n)))

        @staticmethod
        def value(f, orders):
            """some functional of the function and of the orders"""
            w = sum(hash_(k) * int(v) for k, v in orders.items())
            return np.roll(f, 1) * (1 + w) - f * w ** 2

    def hash_(s):
        return (sum((i + 1) * ord(c) for i, c in enumerate(s)) % 17) / 7.

    def manifold(rng, chk):
        dim = rng.choice([1, 1, 2, 3] * 5 + [4, 5])
        cs, P, eqs = system(rng, dim)
        desc = str(eqs)[:500]
        cls = make(ManifoldModelBuilder, eqs, "V", rng)
        cf, ex, C = roles(eqs, P, cs)
        shape = tuple(rng.randrange(3, 6) for _ in cs)
        kw = keywords(rng, cf, C, shape)
        sch = rng.choice(SCHEMES + [None])
        if sch: kw["time_scheme"] = sch
        sp = Space(dim, rng)
        m = quiet(cls, sp, **kw)
        constants(rng, chk, m, kw, cf, C, desc, None)
        scheme_of(chk, m, sch or "rk4", desc)
        chk.true(m.base_space is sp, "base space", case=desc)
        chk.raises((AssertionError, ValueError), lambda: quiet(cls, Space(dim + 1, rng), **kw), "a manifold of another dimension is accepted", case=desc)
        chk.raises(ValueError, lambda: quiet(cls, sp, time_scheme="nope"), "unknown time scheme accepted", case=desc)
        # trend with everything given
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        val = {f: nr.uniform(-1, 1, shape) for f in sorted(cf | ex | set(P), key=str)}
        cv = {c: rng.uniform(-2, 2) for c in sorted(C, key=str)}
        sp = Space(dim, rng)

        class M(cls):
            def compute_exogenous(self, time, state):
                return [{clean(f.func): val[f] for f in ex}[n] for n in self.exogenous_functions]
        m = quiet(M, sp, **{clean(f.func): val[f] for f in cf}, **{clean(c): v for c, v in cv.items()})
        state = np.array([val[p] for p in P]); keep = state.copy(); state.setflags(write=False)
        with np.errstate(all="ignore"):
            got = m.trend(.3, state)
            g = Grid(cs, shape, [1.] * dim, {f.func.__name__: (f.args, a) for f, a in val.items()}, cv)
            fd = lambda d: d
            for i, e in enumerate(eqs):
                r = e.args[1].doit()
                D = {d: sympy.Dummy() for d in r.atoms(Derivative)}
                vals = {s: Space.value(val[d.expr], {clean(c): n for c, n in d.variable_count}) for d, s in D.items()}
                want = Grid(cs, shape, [1.] * dim, g.fields, {**cv, **vals}).ev(r.xreplace(D)) + np.zeros(shape)
                if not np.all(np.isfinite(want)): raise Skip()
                chk.close(got[i], want, f"manifold trend of {P[i]}", rtol=1e-8, case=desc)
        chk.true(np.array_equal(state, keep), "the state was modified", case=desc)
        # each derivative is delegated with its function and orders
        want = set()
        for e in eqs:
            for d in e.args[1].doit().atoms(Derivative):
                want.add((clean(d.expr.func), frozenset((clean(c), int(n)) for c, n in d.variable_count)))
        gotc = set()
        for f, o in sp.calls:
            nm = [clean(q.func) for q, a in val.items() if a is f or (a.shape == np.shape(f) and np.array_equal(a, f))]
            chk.equal(len(nm), 1, "diff called with something else than a field", case=desc)
            chk.true(all(isinstance(n, int) and n > 0 for _, n in o), "orders given to the manifold", case=desc, got=o)
            gotc.add((nm[0], frozenset(o)))
        chk.equal(gotc, want, "derivatives delegated to the manifold", case=desc)
        return desc[:200]

    part = os.environ.get("ORACLE_PART")
    i, k = [int(v) for v in part.split("/")] if part else (0, 1)
    jobs = [("grid", j, grid) for j in range(run.n(240, 1000))] + [("manifold", j, manifold) for j in range(run.n(240, 1000))]
    for j, (g, key, fn) in enumerate(jobs):
        if j % k == i or run.only: run.case(g, key, fn)


if __name__ == "__main__":
    main("C12", run_all)
