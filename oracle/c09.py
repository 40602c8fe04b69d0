from common import *
import sympy
from sympy import symbols, Function, Derivative, Symbol, Integer, Rational, sin, exp, sqrt, pi
from sympy.core.function import AppliedUndef
from shuffle import shuffled


def run_all(run):
    from sympkf.symbolic import PDESystem, SymbolicPKF
    from sympkf.symbolic.util import Eq, TrainableScalar, ScalarSymbol
    from sympkf.symbolic.random import Expectation
    t = symbols("t")
    COORD = [["x"], ["x", "y"], ["y", "x"], ["theta"], ["\\lambda", "\\phi"], ["x", "y", "z"], ["lon", "lat"]]

    def build(rng):
        large = rng.random() < .04         # many equations, coordinates, fields and constants
        cs = [Symbol(n) for n in rng.choice(COORD)] if not large else list(symbols("x1:%d" % rng.randrange(2, 9)))
        names = rng.sample(["u", "v", "h", "\\rho", "T", "q", "mu", "s", "V_{u}"], rng.choice([1, 1, 2, 3, 3, 4, 5, 7])) if not large else [f"u{i}" for i in range(rng.randrange(8, 34))]
        P = [Function(n)(t, *cs) for n in names]
        if len(P) > 1 and rng.random() < .4:       # some depend on part of the coordinates only; one on all of them
            full = rng.randrange(len(P))
            for i, n in enumerate(names):
                if i != full: P[i] = Function(n)(t, *[c for c in cs if rng.random() < .5])
        pool = rng.sample(["a", "b", "f", "g", "{w_{1}}", "k"], 4) if not large else [f"f{i}" for i in range(24)]
        ARGS = [tuple(cs), (t,) + tuple(cs), (t,), (cs[0],), (cs[0], t), tuple(cs[::-1]), tuple(cs) + (t,)]
        O = [(Function(n)(*rng.choice(ARGS))) for n in pool]
        C = list(symbols("c kappa nu0 \\alpha" if not large else "c1:24"))
        if rng.random() < .4: C += [rng.choice([ScalarSymbol("s0"), sympy.Dummy("r"), Symbol("p", positive=True), Symbol("n", integer=True), sympy.Dummy("r2", real=True), Symbol(cs[-1].name, real=True), sympy.Dummy(cs[0].name), Symbol("t", positive=True), sympy.MatrixSymbol("M", 2, 2)[0, 1] * 0 + Symbol("M")])]
        def deriv():
            F = rng.choice(P + O)
            sc = [q for q in F.args if q != t]
            return Derivative(F, *[(q, rng.choice([1, 2]) if not large else rng.randrange(1, 9)) for q in rng.sample(sc, rng.randrange(1, len(sc) + 1))]) if sc else F
        T = [TrainableScalar("w0"), TrainableScalar("w1", init_value=.3)] + ([TrainableScalar(f"z{i}") for i in range(9)] if large else [])
        def term():
            e = rng.choice([Integer(1), Rational(-1, 2), Integer(2)])
            for _ in range(rng.randrange(1, 4)):
                r = rng.random()
                if r < .3: e *= rng.choice(P)
                elif r < .5:
                    F = rng.choice(P + O)
                    sc = [q for q in F.args if q != t]
                    if sc:
                        e *= Derivative(F, *[(q, rng.choice([1, 2]) if not large else rng.randrange(1, 9)) for q in rng.sample(sc, rng.randrange(1, len(sc) + 1))])
                elif r < .65: e *= rng.choice(O)
                elif r < .8: e *= rng.choice(C)
                elif r < .88: e *= rng.choice(T)
                elif r < .92: e *= rng.choice([sin, exp])(rng.choice(P + O))
                elif r < .94: e *= rng.choice([lambda d: sin(d), lambda d: exp(rng.choice(C) * d), lambda d: sqrt(1 + d ** 2), lambda d: 2 ** d, lambda d: 1 / (1 + d ** 2), lambda d: sympy.Max(d, rng.choice(P)), lambda d: sympy.Piecewise((d, rng.choice(P) > 0), (rng.choice(C), True))])(deriv())
                elif r < .945:
                    F, G, v = rng.choice(P), rng.choice(P + O), rng.choice(cs)
                    e *= Derivative(rng.choice([F * (G + 1), F ** 2 * rng.choice(C), (F + G) * rng.choice(C), sin(F) * G, F * Derivative(F * G, cs[0])]), (v, rng.choice([1, 1, 2])))
                elif r < .96: (k1, k2), q = rng.sample(C, 2), rng.choice(P + O); e *= rng.choice([(k1 + k2) * q - k1 * q, (q + k1) ** 2 - q ** 2 - 2 * k1 * q, q * (k1 - k2)])
                else: e *= pi
            return e
        eqs, rhs = [], []
        for p in P:
            r = sum((term() for _ in range(rng.randrange(1, 4))), Integer(0))
            if rng.random() < .12: r = rng.choice([Integer(0), rng.choice(C) * p])
            e = (Eq if rng.random() < .5 else sympy.Eq)(Derivative(p, t), r)
            eqs.append(e); rhs.append(r)
        return cs, P, eqs, rhs

    def walk(e, test, out):
        if test(e): out.add(e)
        for a in e.args: walk(a, test, out)
        return out

    def check(chk, S, cs, P, eqs, rhs, desc):
        fields = set()
        for e in eqs: walk(e, lambda q: isinstance(q, AppliedUndef), fields)
        chk.equal(list(S.prognostic_functions), P, "prognostic functions", case=desc)
        others = fields - set(P)
        const = {f for f in others if t not in f.args}
        chk.equal(set(S.constant_functions), const, "constant functions", case=desc)
        chk.equal(set(S.exogenous_functions), others - const, "exogenous functions", case=desc)
        chk.equal(set(S.functions), fields, "functions", case=desc)
        parts = [set(S.prognostic_functions), set(S.constant_functions), set(S.exogenous_functions)]
        chk.equal(sum(len(q) for q in parts), len(fields), "the three sets do not partition the fields", case=desc)
        chk.equal(len(list(S.constant_functions)), len(set(S.constant_functions)), "duplicates")
        chk.equal(tuple(S.coordinates), (t,) + tuple(cs), "coordinates", case=desc)
        chk.equal(tuple(S.spatial_coordinates), tuple(cs), "spatial coordinates", case=desc)
        chk.equal(S.time_coordinate, t, "time coordinate", case=desc)
        syms, ders = set(), set()
        for r in rhs:
            walk(r, lambda q: isinstance(q, Symbol), syms)
            walk(r, lambda q: isinstance(q, Derivative), ders)
        tr = {q for q in syms if isinstance(q, TrainableScalar)}
        chk.equal(set(S.trainable_scalars), tr, "trainable scalars", case=desc)
        chk.equal(set(S.constants), syms - tr - {t} - set(cs), "constants", case=desc)
        chk.equal(set(S.spatial_derivatives), ders, "derivatives", case=desc)
        chk.equal(S.derivative_max_order, max([0] + [sum(int(n) for _, n in d.variable_count) for d in ders]), "maximal order", case=desc)
        chk.equal(list(S), list(eqs), "equations by iteration", case=desc)
        for k in range(len(eqs)): chk.equal(S[k], eqs[k], "equation by index", case=desc)
        chk.true(isinstance(repr(S), str), "repr")

    def system(rng, chk):
        cs, P, eqs, rhs = build(rng)
        if any(not isinstance(e, sympy.Eq) for e in eqs): raise Skip()
        desc = str(eqs)[:600]
        arg = list(eqs)
        with shuffled(rng):
            S = PDESystem(eqs[0] if len(eqs) == 1 and rng.random() < .5 else arg, name=rng.choice(["", "N"]))
        chk.equal(arg, eqs, "the list of equations was modified")
        check(chk, S, cs, P, eqs, rhs, desc)
        perm = list(range(len(eqs))); rng.shuffle(perm)
        with shuffled(rng): S2 = PDESystem([eqs[k] for k in perm])
        check(chk, S2, cs, [P[k] for k in perm], [eqs[k] for k in perm], [rhs[k] for k in perm], desc + " permuted")
        return desc

    def pkf(rng, chk):
        """the system of a filter is itself a PDE system: means, variances, tensors and unclosed expectations"""
        x = symbols("x"); u = Function("u")(t, x); kap = symbols("kappa")
        e = Eq(Derivative(u, t), rng.choice([-u * Derivative(u, x) + kap * Derivative(u, x, 2), kap * Derivative(u, x, 2)]))
        p = SymbolicPKF(e)
        sysm = rng.choice(["in_metric", "in_aspect"])
        with shuffled(rng): S = PDESystem(getattr(p, sysm))
        mf = p.fields[u]
        want = [u, mf.variance, mf.metric[0] if sysm == "in_metric" else mf.aspect[0]]
        chk.equal(list(S.prognostic_functions), want, "prognostic functions of a filter")
        unclosed = set()
        for q in getattr(p, sysm): unclosed |= walk(q.args[1], lambda z: isinstance(z, Expectation), set())
        chk.true(unclosed <= set(S.exogenous_functions), "unclosed terms are not exogenous", got=S.exogenous_functions, want=unclosed)
        chk.equal(set(S.constants) - {sympy.Symbol("omega")}, {kap}, "constants of a filter")
        return sysm

    for j in range(run.n(600, 4000)): run.case("system", j, system)
    for j in range(run.n(4, 12)): run.case("pkf", j, pkf)


if __name__ == "__main__":
    main("C09", run_all)
