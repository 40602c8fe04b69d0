"""C13: the statistics equations of SymbolicPKF are consequences of the dynamics of the mean and of the error.

Every public system of SymbolicPKF is computed by the real code, for a PDE system whose right-hand sides are opaque (any smooth
differential operator of the fields), and each equation must be an identity of the semantics of pkfsem, for every random field
that follows the dynamics.  The internal closures and the rewriting they rely on are identities as well."""
import itertools
import engine, cas
from cas import sym, num, X, Fr
from pkfsem import Sem, equal
from . import symb
from .symb import world, opaque_system, transparent_system, COORDS

SYSTEMS = ("expectation_system", "error_system", "variance_system", "epsilon_system", "std_system", "cross_covariance_system", "metric_system")
FUNCTIONS = ("SymbolicPKF._compute_reynolds_system", "SymbolicPKF.expectation_system", "SymbolicPKF.tl_expectation_system", "SymbolicPKF.error_system",
             "SymbolicPKF.variance_system", "SymbolicPKF.epsilon_system", "SymbolicPKF.std_system", "SymbolicPKF.cross_covariance_system", "SymbolicPKF.metric_system",
             "SymbolicPKF.internal_closure", "SymbolicPKF.get_covariance", "SymbolicPKF._apply_internal_closure", "Field.internal_closure")


def lhs_of(pkf, name):
    t = sym("t"); D = cas.Derivative; mf = pkf.fields; fields = list(mf)
    d = len(mf[fields[0]].spatial_coordinates)
    return {"expectation_system": [D(cas.Expectation(mf[f].random), t) for f in fields],
            "error_system": [D(mf[f].error, t) for f in fields],
            "variance_system": [D(mf[f].variance, t) for f in fields],
            "epsilon_system": [D(mf[f].epsilon, t) for f in fields],
            "std_system": [D(mf[f].std, t) for f in fields],
            "metric_system": [D(mf[f].metric[i, j], t) for f in fields for i in range(d) for j in range(i, d)],
            "cross_covariance_system": [D(pkf.get_covariance(f, h), t) for f, h in itertools.combinations(fields, 2)]}[name]


def time_jets(x):
    out = []
    for g in x.allgens():
        if g[0] == "j" and any(s == "t" and n for s, n in zip(g[1][1], g[2])): out.append(g)
        if g[0] == "D" and any(s == "t" for s, n in g[2]): out.append(g)
    return out


def check_equations(E, S, pkf, name, system):
    lhs = lhs_of(pkf, name)
    n = len(pkf.fields)
    if name == "cross_covariance_system" and n == 1:
        E.prove("no cross-covariance for a single field", not system); return
    E.prove(f"{name}: one equation per statistic, in order", [e.args[0] for e in system] == lhs, detail=str([str(e.args[0]) for e in system])[:400])
    for e in system:
        a, b = S.red(e.args[0]), S.red(e.args[1])
        ok = equal(a, b)
        E.prove(f"{name}: the equation is a consequence of the dynamics", ok, backend="differential-algebra normal form", detail="" if ok else f"{e} : {cas.show(a - b, 300)}"[:900])
        E.prove(f"{name}: no time derivative on the right-hand side", not time_jets(e.args[1]), weak=True)
        if name not in ("error_system", "epsilon_system"):
            left = [g for g in e.args[1].allgens() if g[0] == "E" and known(S.pkf, g)]
            E.prove(f"{name}: no statistic known from variances, covariances and metric is left", not left, weak=True, detail=f"{left}"[:300])


def systems(E, nf, coords, make, first):
    def run():
        symb.any_order(E)
        W = world()
        P, U = W.load("vsympkf.symbolic.pkfcas"), W.load("vsympkf.symbolic.util")
        symb.NAMED[0] = first
        fs, rhs, eqs = make(U)
        symb.NAMED[0] = False
        pkf = P.SymbolicPKF(eqs if nf > 1 else eqs[0])
        E.prove("the fields of the filter are the prognostic functions, in order", list(pkf.fields) == fs)
        names = list(SYSTEMS)
        if first:
            k = E.choose(list(range(len(names))))
            names = [names[k]] + names[:k] + names[k + 1:]
        S = Sem(pkf, rhs)
        out = {}
        for n in names: out[n] = getattr(pkf, n)
        for n in SYSTEMS: check_equations(E, S, pkf, n, out[n])
        for n in names:
            again = getattr(pkf, n)
            E.prove("a second read gives the same system", (again or []) == (out[n] or []))
        for k, v in dict.items(pkf.internal_closure):
            ok = equal(S.red(cas.asx(k)), S.red(cas.asx(v)))
            E.prove("each internal closure is an identity of random fields", ok, backend="differential-algebra normal form", detail="" if ok else f"{k} -> {v}")
    return run


def closures(E, nf, coords, degree):
    """_apply_internal_closure on an arbitrary combination of the statistics of the fields, of total degree up to `degree`"""
    def run():
        symb.any_order(E)
        W = world()
        P, U = W.load("vsympkf.symbolic.pkfcas"), W.load("vsympkf.symbolic.util")
        fs, rhs, eqs = opaque_system(U, nf, coords)
        pkf = P.SymbolicPKF(eqs)
        S = Sem(pkf, rhs)
        for f, h in itertools.product(fs, fs):
            E.prove("the covariance does not depend on the order of the fields", pkf.get_covariance(f, h) == pkf.get_covariance(h, f))
        crd = [sym("t")] + [sym(c) for c in coords]
        def ders(n): return [a for a in itertools.product(range(n + 1), repeat=len(coords)) if sum(a) == n]
        def D(f, a):
            for s, n in zip(crd[1:], a):
                if n: f = cas.Derivative(f, (s, n))
            return f
        terms = []
        for f in fs:
            m = pkf.fields[f]
            for n in range(degree + 1):
                for p in range(n // 2 + 1):
                    terms += [cas.Expectation(D(m.epsilon, a) * D(m.epsilon, b)) for a in ders(p) for b in ders(n - p)]
            terms += [cas.Expectation(m.error), cas.Expectation(m.error * m.error), cas.Expectation(m.epsilon)]
            terms += [cas.Expectation(m.epsilon * m.epsilon * m.epsilon), cas.Expectation(D(m.epsilon, ders(1)[0]) * m.epsilon * m.epsilon)]
        for f, h in itertools.combinations(fs, 2):
            a, b = pkf.fields[f], pkf.fields[h]
            terms += [cas.Expectation(a.error * b.error), cas.Expectation(a.epsilon * b.epsilon), cas.Expectation(a.epsilon * D(b.epsilon, ders(1)[0]))]
        terms = list(dict.fromkeys(x for x in terms if x.d))
        x = num(0)
        for k, q in enumerate(terms): x = x + cas.FnSym(f"c{k}")(*crd) * q
        r = cas.doit(pkf._apply_internal_closure(x))
        for k, q in enumerate(terms):
            c = cas.FnSym(f"c{k}")(*crd).single()
            part = X({tuple(p for p in m if p[0] != c): v for m, v in r.d.items() if dict(m).get(c)})
            ok = equal(S.red(part), S.red(q))
            E.prove("_apply_internal_closure replaces each statistic by an equal expression", ok, backend="differential-algebra normal form", detail="" if ok else f"{q} -> {part}"[:600])
            left = [g for g in part.allgens() if g[0] == "E"]
            E.prove("_apply_internal_closure leaves no statistic known from variances, covariances and metric", not any(known(pkf, g) for g in left), weak=True, detail=f"{q} -> {part}"[:300])
    return run


def known(pkf, g):
    gs = [(h, e) for h, e in g[1]]
    if sum(e for _, e in gs) > 2: return False
    eps = {m.epsilon.single()[1]: m for m in pkf.fields.values()}
    err = {m.error.single()[1] for m in pkf.fields.values()}
    if any(h[0] != "j" for h, e in gs): return False
    js = [h for h, e in gs for _ in range(int(e))]
    if any(h[1] not in eps and h[1] not in err for h in js): return False
    orders = sorted(sum(h[2]) for h in js)
    if len({h[1] for h in js}) == 1:
        if js[0][1] in eps: return orders[0] >= 1 or orders[-1] <= 3
        return orders[0] == 0 and orders[-1] <= 1
    return orders[-1] == 0 and all(h[1] in eps or h[1] in err for h in js)


def verify(E):
    E.functions += list(FUNCTIONS)
    E.trusted += ["sympy: contracts of Derivative, subs, doit, expand, series, coeff, solve (one linear unknown), Matrix, as the model of pyvc/cas.py",
                  "Expectation: its contract (C05), not its body"]
    E.assumptions += ["number of fields 1..6 and of coordinates 1..5 as listed in the obligations; right-hand sides arbitrary (opaque, smooth)"]
    import time
    for nf, d, first in ((1, 1, True), (2, 1, True), (3, 1, True), (1, 2, True), (2, 2, False), (3, 2, False), (1, 3, False), (2, 3, False), (4, 1, False), (5, 1, False), (1, 4, False), (4, 2, False), (6, 1, False), (1, 5, False), (3, 3, False)):
        c = COORDS[d]
        E.explore(f"systems of {nf} field(s) in {d}D, any right-hand side", systems(E, nf, c, lambda U: opaque_system(U, nf, c), first), "SymbolicPKF")
    E.explore("systems of 1 field in coordinates (y,x), any right-hand side", systems(E, 1, ("y", "x"), lambda U: opaque_system(U, 1, ("y", "x")), False), "SymbolicPKF")
    for nf, d, deg in ((1, 1, 7), (2, 1, 6), (3, 1, 4), (1, 2, 5), (2, 2, 4), (1, 3, 4)) if E.tier == "quick" else ((1, 1, 10), (2, 1, 8), (3, 1, 6), (1, 2, 7), (2, 2, 6), (1, 3, 5)):
        E.explore(f"closure of {nf} field(s) in {d}D, degree {deg}", closures(E, nf, COORDS[d], deg), "SymbolicPKF._apply_internal_closure")
    for nf, d, o, q in ((1, 1, 3, 1), (2, 1, 1, 0), (1, 2, 2, 0), (3, 1, 0, 0)) if E.tier == "quick" else ((1, 1, 4, 2), (2, 1, 2, 1), (1, 2, 2, 1), (3, 1, 1, 0)):
        c = COORDS[d]
        E.explore(f"systems of {nf} field(s) in {d}D, linear terms of order {o} and products of order {q} with arbitrary coefficients", systems(E, nf, c, lambda U: transparent_system(U, nf, c, o, q), False), "SymbolicPKF")
