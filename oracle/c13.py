from common import *
import numpy as np
import sympy
from sympy import Derivative, Function, Integer, symbols
from sympy.core.cache import clear_cache
from pdes import curated, random_1d, World, needed, t, omega


def multi_index(D):
    return sum(int(k) for v, k in D.variable_count)


def known_statistic(pkf, term):
    """True when the expectation term is a statistic known from variances, covariances and metric"""
    a = term.args[0]
    for f, mf in pkf.fields.items():
        eps, err = mf.epsilon, mf.error
        if a in (eps, err, eps ** 2, err ** 2): return True
        at = a.atoms(sympy.core.function.AppliedUndef)
        if at == {eps}:
            parts = list(a.args) if isinstance(a, sympy.Mul) else [a]
            if isinstance(a, sympy.Pow) and a.args[1] == 2 and isinstance(a.args[0], Derivative): return True   # E[(D eps)^2]
            if len(parts) == 2:
                ds = [p for p in parts if isinstance(p, Derivative)]
                if len(ds) == 2: return True                              # |a|,|b|>=1: rewritten by the tree
                if len(ds) == 1 and eps in parts: return multi_index(ds[0]) <= 3
    fs = list(pkf.fields)
    for f, mf in pkf.fields.items():
        if any(a == mf.error * Derivative(mf.error, x) for x in mf.spatial_coordinates): return True
        for g, mg in pkf.fields.items():
            if a == mf.error * mg.epsilon: return True
    for i, f in enumerate(fs):
        for h in fs[i + 1:]:
            if a in (pkf.fields[f].epsilon * pkf.fields[h].epsilon, pkf.fields[f].error * pkf.fields[h].error): return True
    return False


def closure_identities(chk, desc, pkf, w):
    """every substitution the derivation relies on is an identity of random fields"""
    for key, val in list(pkf.internal_closure.items()):
        r, sc = w.residual((key, val if hasattr(val, 'atoms') else sympy.Integer(val)))
        chk.true(r <= 1e-7 * sc + 1e-9, "internal closure: the substitution is no identity", case=desc, eq=(key, val), residual=r, scale=sc)


def check_systems(chk, desc, pkf, eqs, E, seed, with_metric=True, order=None, cold=False):
    fields = list(pkf.fields)
    n = len(fields); X = list(fields[0].args[1:]); d = len(X)
    chk.equal([e.args[0].args[0] for e in eqs], fields, "fields of the filter", case=desc)
    names = ["expectation_system", "error_system", "variance_system", "epsilon_system", "std_system", "cross_covariance_system"]
    if with_metric: names.append("metric_system")
    if order: names = [x for x in order if x in names] + [x for x in names if x not in order]
    S = {}
    for name in names:
        if cold: clear_cache()                      # nothing may depend on what sympy's cache still holds
        S[name] = getattr(pkf, name)
    mf = pkf.fields
    lhs = {
        "expectation_system": [Derivative(E(mf[f].random), t) for f in fields],
        "error_system": [Derivative(mf[f].error, t) for f in fields],
        "variance_system": [Derivative(mf[f].variance, t) for f in fields],
        "epsilon_system": [Derivative(mf[f].epsilon, t) for f in fields],
        "std_system": [Derivative(mf[f].std, t) for f in fields],
        "metric_system": [Derivative(mf[f].metric[i, j], t) for f in fields for i in range(d) for j in range(i, d)],
        "cross_covariance_system": [Derivative(pkf.get_covariance(f, h), t) for i, f in enumerate(fields) for h in fields[i + 1:]],
    }
    if n == 1:
        chk.true(not S["cross_covariance_system"], "cross covariances of a single field", case=desc)
        S["cross_covariance_system"] = []
    for name, sysm in S.items():
        chk.equal([e.args[0] for e in sysm], lhs[name], f"{name}: wrong left-hand sides", case=desc)
        for e in sysm:
            bad = [D for D in e.args[1].atoms(Derivative) if t in D.variables]
            chk.true(not bad, f"{name}: time derivative left on a right-hand side", case=desc, eq=e, bad=bad)
            if name in ("expectation_system", "variance_system", "cross_covariance_system", "metric_system", "std_system"):
                for term in e.args[1].atoms(E):
                    chk.true(not known_statistic(pkf, term), f"{name}: a known statistic is left as an expectation", case=desc, term=term, eq=e)
    N = needed(S.values(), E, X, eqs)
    for k in range(2):
        w = World(pkf, eqs, E, seed + k, N)
        for name, sysm in S.items():
            for e in sysm:
                r, sc = w.residual(e)
                chk.true(r <= 1e-7 * sc + 1e-9, f"{name}: the equation does not hold for a random field", case=desc, eq=e, residual=r, scale=sc)
        closure_identities(chk, desc, pkf, w)
    for i, f in enumerate(fields):
        for h in fields[i + 1:]:
            chk.equal(pkf.get_covariance(f, h), pkf.get_covariance(h, f), "covariance depends on the order of the fields", case=desc)
    # repeated reads
    for name in names:
        chk.equal(list(getattr(pkf, name) or []), list(S[name]), f"{name}: a second read differs", case=desc)
    return S


def run_all(run):
    from sympkf.symbolic import SymbolicPKF, PDESystem
    from sympkf.symbolic.random import Expectation as E
    C = curated()
    slow = {"lonlat", "yx", "ks", "mixed2d", "burgers2d", "three", "reaction2d"}

    def mk(eqs, rng):
        style = rng.choice(["list", "pde"]) if len(eqs) > 1 else rng.choice(["list", "pde", "eq"])
        if style == "pde": return SymbolicPKF(PDESystem(eqs))
        return SymbolicPKF(eqs if style == "list" else eqs[0])

    def one(name):
        def f(rng, chk):
            if name == "kpz": clear_cache()
            eqs = curated()[name]
            order = ["metric_system", "std_system", "cross_covariance_system", "expectation_system", "variance_system", "error_system", "epsilon_system"]
            rng.shuffle(order)
            check_systems(chk, name, mk(eqs, rng), eqs, E, rng.randrange(2 ** 30), order=order, cold=rng.random() < .3)
            return name + f": {eqs}"
        return f

    def rnd(rng, chk):
        eqs = random_1d(rng)
        check_systems(chk, f"random {eqs}", mk(eqs, rng), eqs, E, rng.randrange(2 ** 30), with_metric=True, cold=rng.random() < .2)
        return f"random {eqs}"

    def rnd_nd(rng, chk):
        """linear equations in two and three dimensions, with mixed derivatives; several fields"""
        d = rng.choice([2, 3, 3])
        X = {2: rng.choice([symbols("x y"), symbols("y x"), symbols("lon lat")]), 3: rng.choice([symbols("x y z"), symbols("z x y"), symbols("r theta z")])}[d]
        F = [Function(n)(t, *X) for n in rng.choice([("u", "v"), ("T", "q"), ("h1", "h")])[:rng.choice([1, 1, 2])]]
        c = symbols("c kappa"); A = Function("a")(*X)
        eqs = []
        for i, f in enumerate(F):
            a, b = rng.sample(list(X), 2)
            if rng.random() < .5: a, b = X[0], X[-1]
            pool = [Derivative(f, a), Derivative(f, b), Derivative(f, a, b), Derivative(f, b, 2), F[i - 1], f, Derivative(F[i - 1], b), f * Derivative(f, a)]
            eqs.append(sympy.Eq(Derivative(f, t), sum(rng.choice([Integer(1), Integer(-2), c[0], c[1]]) * q * rng.choice([1, 1, 1, A]) for q in rng.sample(pool, rng.choice([1, 2])))))
        metric = all(D.derivative_count < 2 for e in eqs for D in e.args[1].atoms(Derivative)) and d < 3
        check_systems(chk, f"{eqs}", mk(eqs, rng), eqs, E, rng.randrange(2 ** 30), with_metric=metric)
        return f"{d}D {eqs}"

    def rich(rng, chk):
        """many statistics of one field in one equation: products of derivatives of all orders"""
        x = sympy.Symbol("x"); f = Function(rng.choice(["u", "T"]))(t, x)
        D = [f] + [Derivative(f, (x, k)) for k in (1, 2, 3, 4, 5)]
        prods = [D[a] * D[b] for a in range(6) for b in range(a, 6) if a + b <= 7]
        rhs = sum(rng.choice([Integer(1), Integer(-2), sympy.Symbol("c")]) * p for p in rng.sample(prods, rng.choice([9, 12])))
        eqs = [sympy.Eq(Derivative(f, t), rhs)]
        p = mk(eqs, rng)
        S = p.expectation_system
        for term in S[0].args[1].atoms(E): chk.true(not known_statistic(p, term), "expectation_system: a known statistic is left as an expectation", case=str(eqs), term=term)
        w = World(p, eqs, E, rng.randrange(2 ** 30), needed([S], E, [x], eqs))
        r, sc = w.residual(S[0])
        chk.true(r <= 1e-7 * sc + 1e-9, "expectation_system: the equation does not hold for a random field", case=str(eqs), eq=S[0], residual=r, scale=sc)
        return f"{eqs}"

    def closure3(eqs_name):
        def f(rng, chk):
            x, y, z = sympy.symbols('x y z'); c = sympy.Symbol('c')
            names = rng.choice([('h1', 'h2', 'v'), ('a', 'ab', 'abc'), ('u', 'v', 'w')])
            crd = {1: (x,), 2: rng.choice([(x, y), (y, x)]), 3: rng.choice([(x, y, z), (z, x, y)])}[rng.choice([1, 2, 2, 3])]
            fs = [Function(n)(t, *crd) for n in names[:rng.choice([1, 2, 3])]]
            eqs = [sympy.Eq(Derivative(f_, t), c * g_) for f_, g_ in zip(fs, fs[1:] + fs[:1])]
            pkf = mk(eqs, rng)
            names_ = ["variance_system", "metric_system", "cross_covariance_system"]
            rng.shuffle(names_)
            if len(crd) < 3:
                for nm in names_[:rng.randrange(3)]: getattr(pkf, nm)
            w = World(pkf, eqs, E, rng.randrange(2 ** 30), 4)
            closure_identities(chk, str(eqs), pkf, w)
            return f"closure {eqs}"
        return f

    def wide(rng, chk):
        """more fields, more dimensions"""
        d = rng.choice([1, 1, 1, 4])
        X = {1: (symbols("x"),), 4: symbols("x y z p")}[d]
        n = rng.choice([4, 5]) if d == 1 else 1
        F = [Function(q)(t, *X) for q in rng.sample(["u", "v", "h", "T", "q", "s"], n)]
        c = symbols("c")
        if d == 1: eqs = [sympy.Eq(Derivative(f, t), rng.choice([c * F[i - 1], F[i - 2] * f, -Derivative(F[i - 3], X[0]), c * f, f * F[-1 - i]])) for i, f in enumerate(F)]
        else: eqs = [sympy.Eq(Derivative(f, t), sum(rng.choice([c, Integer(1), Integer(2)]) * Derivative(f, v) for v in rng.sample(X, rng.choice([1, 2, 4])))) for f in F]
        check_systems(chk, f"{eqs}", mk(eqs, rng), eqs, E, rng.randrange(2 ** 30), with_metric=True)
        return f"{eqs}"

    names = [n for n in C if n not in slow] + [n for n in C if n in slow]
    part = os.environ.get("ORACLE_PART")          # i/k: the check splits the cases over processes
    i, k = [int(v) for v in part.split("/")] if part else (0, 1)
    for j, name in enumerate(names):
        if j % k == i or run.only: run.case("curated", name, one(name))
    for j in range(run.n(40, 400)):
        if j % k == i or run.only: run.case("closure", j, closure3(j))
    for g, n, fn in (("nd", run.n(22, 200), rnd_nd), ("rich", run.n(7, 60), rich), ("wide", run.n(8, 60), wide)):
        for j in range(n):
            if j % k == i or run.only: run.case(g, j, fn)
    for j in range(run.n(24, 200)):
        if j % k == i or run.only: run.case("random", j, rnd)


if __name__ == "__main__":
    main("C13", run_all)
