"""Generated model trend against an independent evaluation of the equations on the periodic grid."""
from common import *
import io, contextlib, tempfile, importlib.util
import numpy as np
import sympy
from sympy import symbols, Function, Derivative, Symbol, Integer, Rational, sin, cos, exp, sqrt, pi, tanh, Abs, log
from sympy.core.function import AppliedUndef
from shuffle import shuffled
from npeval import Grid

t = symbols("t")
COORD = {1: [["x"], ["y"], ["theta"], ["\\lambda"], ["x_{1}"], ["d"], ["dx"], ["s"]],
         2: [["x", "y"], ["y", "x"], ["\\lambda", "\\phi"], ["lon", "lat"], ["x_{1,1}", "x_{1,2}"], ["dx", "y"]],
         3: [["x", "y", "z"], ["z", "y", "x"], ["r", "\\theta", "z"]]}


def clean(s):
    return "".join("_" if c in "^," else c for c in str(s) if c not in "\\{}")


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return fn(*a, **k)


def build_system(rng, dim, Eq):
    cs = [Symbol(n) for n in rng.choice(COORD[dim])]
    # field names that contain each other and LaTeX names
    names = rng.sample(["u", "\\mu", "v", "h", "{V_{u}}", "g_{u,xx}", "\\rho^{a}", "T"], rng.choice([1, 1, 2, 2, 3]))
    P = [Function(n)(t, *cs) for n in names]
    cf = [Function(n)(*cs) for n in rng.sample(["a", "b", "au", "k_{u}"], rng.choice([0, 1, 2]))]
    if dim == 2 and rng.random() < .3: cf.append(Function("w")(cs[rng.randrange(2)]))
    ex = [Function(n)(t, *cs) for n in rng.sample(["f", "q", "\\sigma"], rng.choice([0, 0, 1, 2]))]
    C = rng.sample(list(symbols("c \\kappa nu0 {K_{u}} cc")), rng.choice([0, 1, 2, 3]))
    every = P + cf + ex

    def deriv():
        F = rng.choice(P + P + every)
        sc = [q for q in F.args if q != t]
        vs = rng.sample(sc, rng.randrange(1, min(2, len(sc)) + 1))
        return Derivative(F, *[(v, rng.choice([1, 1, 2, 2, 3]) if len(vs) == 1 else rng.choice([1, 1, 2])) for v in vs])

    def term():
        e = rng.choice([Integer(1), Integer(-1), Rational(1, 2), Rational(-3, 7), Integer(3)])
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            if r < .25: e *= rng.choice(P)
            elif r < .6: e *= deriv()
            elif r < .7: e *= rng.choice(every)
            elif r < .8 and C: e *= rng.choice(C)
            elif r < .86: e *= rng.choice([sin, cos, tanh])(rng.choice(every))
            elif r < .9: e *= exp(-rng.choice(every) ** 2)
            elif r < .93: e *= sqrt(1 + rng.choice(every) ** 2) / (2 + rng.choice(P) ** 2)
            elif r < .96: e *= rng.choice([pi, log(1 + rng.choice(P) ** 2), Abs(rng.choice(P))])
            else:
                F, G = rng.choice(P), rng.choice(every)
                v = rng.choice([q for q in G.args if q != t])
                e *= Derivative(rng.choice([F * G, F ** 2, F * Derivative(G, v)]), v)
        return e
    eqs = []
    for p in P:
        r = sum((term() for _ in range(rng.randrange(1, 4))), Integer(0))
        if rng.random() < .05: r = Integer(0)
        eqs.append(Eq(Derivative(p, t), r))
    return cs, P, eqs


def small_shape(rng, dim):
    r = rng.random()
    if r < .15: return tuple(rng.choice([1, 2, 3, 4]) for _ in range(dim))          # shifts larger than the grid
    if r < .3: return (rng.choice([4, 5, 6]),) * dim
    return tuple(rng.sample(range(4, 10), dim)) if dim < 3 else tuple(rng.sample([4, 5, 6], 3))


def reference(eqs, P, cs, shape, lengths, arrays, consts, fd):
    dx = [l / n for l, n in zip(lengths, shape)]
    g = Grid(cs, shape, dx, arrays, consts)
    return np.array([g.rhs(e.args[1], fd) for e in eqs])


def data_for(rng, eqs, P, cs, shape):
    nr = np.random.RandomState(rng.randrange(2 ** 31))
    arrays, given = {}, {}
    # the right-hand sides are developed: so are the fields that occur in them
    F = set(P)
    for e in eqs: F |= e.args[1].atoms(AppliedUndef)
    for f in sorted(F, key=str):
        sub = [q for q in f.args if q != t]
        sh = tuple(n if c in sub else 1 for n, c in zip(shape, cs))
        arr = nr.uniform(-1.5, 1.5, sh)
        arrays[f.func.__name__] = (f.args, arr + np.zeros(shape))
        given[f] = arr if len(sub) == len(cs) or sub[0] == cs[0] else arr.reshape(-1)   # a(y) on a 2D grid: a vector along the last axis
    return arrays, given


def run_all(run):
    from sympkf.symbolic import FDModelBuilder, PDESystem
    from sympkf.symbolic.finite_difference import finite_difference
    from sympkf.symbolic.util import Eq as REq

    def fd(d):
        return finite_difference(d)

    def factory(builder, name):
        ns = {}
        exec(builder.code, ns)
        return ns[name]

    def check_model(rng, chk, cls, eqs, P, cs, desc, nstates=2, shape=None):
        dim = len(cs)
        shape = shape or small_shape(rng, dim)
        lengths = tuple(n * rng.uniform(.6, 1.6) if rng.random() < .7 else rng.randrange(1, 3 * n + 2) for n in shape)
        arrays, given = data_for(rng, eqs, P, cs, shape)
        syms = set()
        for e in eqs: syms |= e.args[1].atoms(Symbol)
        consts = {c: rng.uniform(-2, 2) if rng.random() < .8 else rng.choice([0, 0., 1, -1, 3]) for c in sorted(syms - {t} - set(cs), key=str)}
        kw = {clean(c): v for c, v in consts.items()}
        fields = set(given)
        cf = {f for f in fields - set(P) if t not in f.args}
        ex = fields - set(P) - cf
        kw.update({clean(f.func): given[f] for f in cf})
        calls = []

        class M(cls):
            def compute_exogenous(self, time, state):
                calls.append((time, np.array(state)))
                byname = {clean(f.func): given[f] for f in ex}
                return [byname[n] for n in self.exogenous_functions]
        chk.equal(tuple(cls.prognostic_functions), tuple(clean(p.func) for p in P), "order of the state components", case=desc)
        if ex: chk.equal(set(cls.exogenous_functions), {clean(f.func) for f in ex}, "exogenous fields", case=desc)
        m = quiet(M, shape=shape, lengths=lengths, **kw)
        chk.true(np.allclose(m.dx, [l / n for l, n in zip(lengths, shape)]), "grid steps", case=desc)
        for k in range(nstates):
            nr = np.random.RandomState(rng.randrange(2 ** 31))
            state = nr.uniform(-1.5, 1.5, (len(P),) + shape)
            if k == 0 and rng.random() < .3: state = nr.randint(-2, 3, state.shape)      # a state of integers is a state
            for i, p in enumerate(P): arrays[p.func.__name__] = (p.args, state[i])
            keep = state.copy(); state.setflags(write=False)
            gkeep = {f: np.array(a) for f, a in given.items()}
            time = rng.uniform(0, 10)
            with np.errstate(all="ignore"):
                want = reference(eqs, P, cs, shape, lengths, arrays, consts, fd)
                got = m.trend(time, state)
            if not np.all(np.isfinite(want)): raise Skip()
            chk.true(isinstance(got, np.ndarray) and got.shape == state.shape, "shape of the trend", case=desc)
            chk.true(np.array_equal(state, keep), "the state was modified", case=desc)
            chk.true(all(np.array_equal(gkeep[f], a) for f, a in given.items()), "a supplied field was modified", case=desc)
            if ex: chk.true(calls and calls[-1][0] == time and np.array_equal(calls[-1][1], keep), "compute_exogenous does not get the time and state", case=desc)
            for i, p in enumerate(P):
                chk.close(got[i], want[i], f"trend of {p}", rtol=1e-8, atol=1e-9, case=desc, shape=shape)
            first = np.array(got)
            m.trend(time + 1., 1. - state)
            chk.true(np.array_equal(got, first, equal_nan=True), "the computation of another trend changed this one", case=desc)
            got[...] = 7.
            chk.true(np.array_equal(m.trend(time, state), m.trend(time, state)), "two calls differ", case=desc)

    def system(dim):
        def go(rng, chk):
            cs, P, eqs = build_system(rng, dim, rng.choice([sympy.Eq, REq]))
            if any(not isinstance(e, sympy.Eq) for e in eqs) or max(len(str(e)) for e in eqs) > 700: raise Skip()
            desc = str(eqs)
            arg = eqs[0] if len(eqs) == 1 and rng.random() < .5 else list(eqs)
            name = rng.choice(["M", "Model_1"])
            with shuffled(rng):
                how = rng.randrange(3)
                b = FDModelBuilder(arg, class_name=name) if how == 0 else FDModelBuilder(PDESystem(arg), class_name=name) if how == 1 else FDModelBuilder(PDESystem(arg, name=name))
                cls = factory(b, name)
            chk.equal(b.code, b.code, "second reading of the code")
            check_model(rng, chk, cls, eqs, P, cs, desc)
            return desc[:400]
        return go

    def special(which):
        """systems whose derivatives differ by a high order, or by one coordinate of three"""
        def go(rng, chk):
            x, y, z, k, c = symbols("x y z kappa c")
            D = Derivative
            u, v = Function("u")(t, x), Function("v")(t, x)
            T = Function("T")(t, x, y, z)
            U = Function("U")(t, x, y)
            cs, P, rhs = [([x], [u, v], [D(u, (x, 5)) + k * D(u, (x, 6)) - D(v, (x, 5)) * D(u, (x, 3)), D(v, (x, 7)) * c + D(v, (x, 6)) + D(v, (x, 8)) * u]),
                          ([x, y, z], [T], [D(T, x, y, z) - k * D(T, x, y) + D(T, x, z) * D(T, y, z)]),
                          ([x, y, z], [T], [c * D(T, x, y, (z, 2)) + D(T, x, y) * D(T, (x, 2), y, z) + D(T, (x, 2), y)]),
                          ([x, y], [U], [D(U, (x, 4), y) - c * D(U, x, (y, 4)) + D(U, (x, 4)) * D(U, (y, 5))])][which]
            eqs = [sympy.Eq(D(p, t), r) for p, r in zip(P, rhs)]
            with shuffled(rng): b = FDModelBuilder(eqs, class_name="M")
            check_model(rng, chk, factory(b, "M"), eqs, P, cs, str(eqs))
            return str(eqs)
        return go

    def many(rng, chk):
        """many fields, constants and derivatives in one model"""
        x = symbols("x"); N = rng.randrange(7, 13)
        P = [Function(f"u{i}")(t, x) for i in range(N)]
        F = [Function(f"a{i}")(x) for i in range(rng.randrange(2, 9))]; X = [Function(f"q{i}")(t, x) for i in range(rng.choice([0, 3, 8]))]
        C = symbols(" ".join(rng.choice(["c%d", "\\kappa_{%d}"]) % i for i in range(rng.randrange(2, 14))))
        eqs = []
        for i, p in enumerate(P):
            o = P[(i * 5 + 1) % N]
            e = rng.choice(C) * Derivative(p, (x, 1 + i % 3)) + rng.choice(P) * rng.choice(F) - Derivative(o, x) * rng.choice(C)
            if X: e += rng.choice(X) * p
            eqs.append(sympy.Eq(Derivative(p, t), e))
        eqs[0] = sympy.Eq(eqs[0].args[0], eqs[0].args[1] + sum(c * f for c, f in zip(C, F + X + P)) + sum(P[k] * P[-k - 1] for k in range(N)) + sum(F) + sum(X))
        with shuffled(rng): b = FDModelBuilder(eqs, class_name="Many")
        check_model(rng, chk, factory(b, "Many"), eqs, P, [x], str(eqs))
        return f"{N} equations"

    def high(rng, chk):
        """orders of one and of two digits together"""
        x = symbols("x"); u, v = Function("u")(t, x), Function("v")(t, x)
        D = lambda f, k: Derivative(f, (x, k))
        k = rng.sample([1, 2, 3, 4, 5, 6, 7], 2) + [rng.choice([8, 9, 10, 11])]
        rng.shuffle(k)
        eqs = [sympy.Eq(Derivative(u, t), sum(rng.choice([u, v, Integer(1)]) * D(rng.choice([u, v]), j) for j in k)), sympy.Eq(Derivative(v, t), D(u, k[0]) * v - D(v, rng.choice([9, 10])))]
        with shuffled(rng): b = FDModelBuilder(eqs, class_name="High")
        check_model(rng, chk, factory(b, "High"), eqs, [u, v], [x], str(eqs))
        return str(eqs)

    def default_name(rng, chk):
        cs, P, eqs = build_system(rng, 1, sympy.Eq)
        if any(not isinstance(e, sympy.Eq) for e in eqs): raise Skip()
        cls = factory(FDModelBuilder(eqs), "NumModel")
        check_model(rng, chk, cls, eqs, P, cs, str(eqs))
        return str(eqs)[:200]

    def module(rng, chk):
        """the written module is the same model"""
        cs, P, eqs = build_system(rng, rng.choice([1, 2]), sympy.Eq)
        if any(not isinstance(e, sympy.Eq) for e in eqs) or max(len(str(e)) for e in eqs) > 500: raise Skip()
        here = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                b = FDModelBuilder(eqs, class_name="Written")
                quiet(b.write_module)
                files = os.listdir(d)
                chk.true(len(files) == 1 and files[0].endswith(".py"), "files written", got=files)
                sp = importlib.util.spec_from_file_location("written", os.path.join(d, files[0]))
                mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
            finally:
                os.chdir(here)
            check_model(rng, chk, mod.Written, eqs, P, cs, str(eqs), nstates=1)
        return str(eqs)[:200]

    def integrates(rng, chk):
        """the model integrates: one step of each scheme uses the trend of the equations"""
        x = symbols("x"); u = Function("u")(t, x); c = symbols("c")
        e = sympy.Eq(Derivative(u, t), -c * Derivative(u, x) + Derivative(u, x, 2))
        cls = factory(FDModelBuilder(e, class_name="A"), "A")
        n = rng.randrange(5, 20); v = rng.uniform(-1, 1)
        m = quiet(cls, shape=(n,), lengths=(float(n),), c=v, time_scheme="euler")
        U = np.random.RandomState(3).rand(1, n)
        f = -v * (np.roll(U, -1, 1) - np.roll(U, 1, 1)) / 2 + np.roll(U, -1, 1) - 2 * U + np.roll(U, 1, 1)
        chk.close(m.forecast([0., .1], U)[.1], U + .1 * f, "one Euler step of a generated model")
        return f"n={n}"

    def burgers(rng, chk):
        from sympkf.dynamics.burgers import Burgers
        n = rng.randrange(8, 40)
        B = quiet(Burgers, n)
        m = B.model
        u, x = Burgers.u, Burgers.x
        eqs = list(Burgers.closed_pkf.in_aspect)
        from sympkf.symbolic.random import Expectation
        chk.true(not any(e.atoms(Expectation) for e in eqs), "Burgers: an unclosed term is left")
        P = [e.args[0].args[0] for e in eqs]
        f = Burgers.closed_pkf.fields[u]
        chk.equal(P, [u, f.variance, f.aspect[0]], "Burgers: components of the state")
        chk.equal(tuple(m.shape), (n,), "Burgers: number of points")
        # the equations of the filter: those derived from Burgers' equation, closed by E[eps D^4 eps] = 3 g^2 - 2 D^2 g with g = 1/s
        from sympkf.symbolic import SymbolicPKF
        k_, s_, V_ = Burgers.kappa, f.aspect[0], f.variance
        chk.true(sympy.simplify(Burgers.dynamics.args[1] + u * Derivative(u, x) - k_ * Derivative(u, x, 2)) == 0, "Burgers: the dynamics")
        other = SymbolicPKF(Burgers.dynamics)
        e4 = E = Expectation(f.epsilon * Derivative(f.epsilon, x, 4))
        chk.equal(other.unclosed_terms, {e4}, "Burgers: the unclosed term")
        cl = (3 / s_ ** 2 - 2 * Derivative(1 / s_, x, 2)).doit()
        for (e, w) in zip(eqs, other.in_aspect):
            r = (e.args[1] - w.args[1].subs(e4, cl)).doit()
            for a, h in ((s_, 2 + x ** 2 / 3 + x), (V_, 1 + x ** 3 / 5 + x ** 2), (u, x ** 2 - x / 7)): r = r.subs(a, h).doit()
            chk.true(abs(complex(sympy.N(r.subs({x: Rational(3, 7), k_: Rational(2, 11)})))) < 1e-9, "Burgers: closed equation", got=e, want=w)
        kap = rng.uniform(.001, .1)
        m.kappa = kap
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        state = nr.uniform(.5, 1.5, (3, n))
        arrays = {p.func.__name__: (p.args, state[i]) for i, p in enumerate(P)}
        want = reference(eqs, P, [x], (n,), (1.,), arrays, {Burgers.kappa: kap}, fd)
        got = m.trend(0., state)
        for i, p in enumerate(P): chk.close(got[i], want[i], f"Burgers: trend of {p}", rtol=1e-8)
        return f"n={n} kappa={kap}"

    part = os.environ.get("ORACLE_PART")
    i, k = [int(v) for v in part.split("/")] if part else (0, 1)
    jobs = [("1D", j, system(1)) for j in range(run.n(180, 1200))] + [("2D", j, system(2)) for j in range(run.n(90, 500))]
    jobs += [("special", j, special(j)) for j in range(4)]
    jobs += [("many", j, many) for j in range(run.n(8, 60))]
    jobs += [("high", j, high) for j in range(run.n(6, 60))]
    jobs += [("3D", j, system(3)) for j in range(run.n(8, 120))]
    jobs += [("burgers", j, burgers) for j in range(run.n(2, 6))] + [("module", j, module) for j in range(run.n(3, 20))]
    jobs += [("name", j, default_name) for j in range(run.n(2, 10))] + [("integrates", 0, integrates)]
    for j, (g, key, fn) in enumerate(jobs):
        if j % k == i or run.only: run.case(g, key, fn)


if __name__ == "__main__":
    main("C11", run_all)
