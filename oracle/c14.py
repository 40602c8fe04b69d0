from common import *
import numpy as np
import sympy
from sympy import Derivative, Function, Rational, Integer
from pdes import curated, random_1d, World, needed, t
from jets import Interp


def expected_lhs(pkf, kind):
    fields = list(pkf.fields); mf = pkf.fields
    d = len(fields[0].args) - 1
    L = [Derivative(f, t) for f in fields] + [Derivative(mf[f].variance, t) for f in fields]
    L += [Derivative(pkf.get_covariance(f, h), t) for i, f in enumerate(fields) for h in fields[i + 1:]]
    for f in fields:
        T = {"metric": mf[f].metric, "aspect": mf[f].aspect, "diffusion": mf[f].diffusion}[kind]
        L += [Derivative(T[i, j], t) for i in range(d) for j in range(i, d)]
    return L


def random_closure(rng, pkf, terms, E):
    """an arbitrary closure: expressions of variances, tensors and their derivatives"""
    c = {}
    f0 = list(pkf.fields)[0]
    for term in terms:
        if rng.random() < .75:
            mf = pkf.fields[rng.choice(list(pkf.fields))]
            x = mf.spatial_coordinates[0]
            g, s, V = mf.metric[0, 0], mf.aspect[0, 0], mf.variance
            c[term] = rng.choice([Integer(0), Integer(2), g, 3 * g ** 2 - 2 * Derivative(g, x, 2), V * g, Derivative(g, x) * V, g ** 2 / 2 + mf.value])
    return c


def by_lhs(chk, system, what, desc):
    out = {}
    for e in system:
        chk.true(e.args[0] not in out, f"{what}: two equations for {e.args[0]}", case=desc)
        out[e.args[0]] = e
    return out


def check(chk, desc, mk, eqs, E, rng, kinds=("metric", "aspect", "diffusion"), closures=True, worlds=2):
    pkf = mk()
    fields = list(pkf.fields); mf = pkf.fields
    X = list(fields[0].args[1:]); d = len(X)
    kinds = list(kinds); rng.shuffle(kinds)
    S = {k: getattr(pkf, "in_" + k) for k in kinds}
    def structure(k, system):
        want = expected_lhs(pkf, k)
        chk.equal(sorted(map(str, (e.args[0] for e in system))), sorted(map(str, want)), f"in_{k}: wrong set of equations", case=desc)
        chk.equal(set(e.args[0] for e in system), set(want), f"in_{k}: wrong unknowns", case=desc)
        others = {"metric": [], "aspect": [mf[f].metric[i, j] for f in fields for i in range(d) for j in range(d)]}
        others["diffusion"] = others["aspect"]
        for e in system:
            for o in others[k]:
                chk.true(not e.has(o), f"in_{k}: a metric component is left", case=desc, eq=e, left=o)
            for f in fields:
                chk.true(not e.atoms(E) & {E(mf[f].random)}, f"in_{k}: expectation of a field left", case=desc, eq=e)
            for D in e.args[1].atoms(Derivative):
                chk.true(t not in D.variables, f"in_{k}: time derivative left", case=desc, eq=e)
    for k in kinds: structure(k, S[k])
    N = needed(S.values(), E, X, eqs)
    seed = rng.randrange(2 ** 30)
    for j in range(worlds):
        w = World(pkf, eqs, E, seed + j, N)
        for k in kinds:
            for e in S[k]:
                r, sc = w.residual(e)
                chk.true(r <= 1e-6 * sc + 1e-8, f"in_{k}: the equation is not equivalent to the dynamics", case=desc, eq=e, residual=r, scale=sc)
    if not closures: return
    # with a closure: the closed equations are the open ones with the terms replaced, in each formulation
    terms = sorted(pkf.unclosed_terms, key=str)
    if not terms: return
    c = random_closure(rng, pkf, terms, E)
    if not c: return
    how = rng.choice(["constructor", "set_closure"])
    p2 = mk(c) if how == "constructor" else mk()
    if how == "set_closure": p2.set_closure(c)
    S2 = {k: getattr(p2, "in_" + k) for k in kinds}
    for k in kinds: structure(k, S2[k])
    N = max(needed(S2.values(), E, X, eqs), needed([[sympy.Eq(0, v, evaluate=False)] for v in c.values()], E, X, eqs) + N)
    w = World(pkf, eqs, E, seed, N)
    I = w.interp
    O = Interp(w.space, {}, w.symbols, E, {**w.ov, **c})
    for k in kinds:
        open_, closed = by_lhs(chk, S[k], "open", desc), by_lhs(chk, S2[k], "closed", desc)
        for l in open_:
            a = w.space.val(O.den(open_[l].args[1])); b = w.space.val(O.den(closed[l].args[1]))
            sc = max(O.scale(open_[l].args[1]), O.scale(closed[l].args[1]), 1e-12)
            r = float(np.max(np.abs(a - b)))
            chk.true(r <= 1e-6 * sc + 1e-8, f"in_{k}: the closed equation is not the open one with the closure", case=desc, closure=c, eq=closed[l], open=open_[l], residual=r, scale=sc)
            chk.true(not (closed[l].args[1].atoms(E) & set(c)), f"in_{k}: a closed term remains", case=desc, closure=c, eq=closed[l])


def run_all(run):
    from sympkf.symbolic import SymbolicPKF, PDESystem
    from sympkf.symbolic.random import Expectation as E
    C = curated()
    def mk(eqs):
        return lambda c=None: SymbolicPKF(PDESystem(eqs)) if c is None else SymbolicPKF(eqs, closure=c)
    def one(name, kinds=("metric", "aspect", "diffusion"), **kw):
        def f(rng, chk):
            check(chk, name, mk(C[name]), C[name], E, rng, kinds, **kw)
            return f"{name} {kinds}: {C[name]}"
        return f
    def rnd(rng, chk):
        eqs = random_1d(rng)
        check(chk, f"random {eqs}", mk(eqs), eqs, E, rng)
        return f"random {eqs}"
    jobs = []
    for name in ("advection2d",):
        jobs.append(("2d-aspect", name, one(name, ("aspect",), closures=False, worlds=1)))
        jobs.append(("2d-diffusion", name, one(name, ("diffusion",), closures=False, worlds=1)))
        jobs.append(("2d-metric", name, one(name, ("metric",), closures=False)))
    if run.thorough:
        for name in ("burgers2d", "reaction2d", "mixed2d"):
            for k in ("metric", "aspect", "diffusion"):
                jobs.append((f"2d-{k}", name, one(name, (k,), closures=False, worlds=1)))
    oned = [n for n in C if "2d" not in n and n not in ("lonlat", "yx")]
    oned.sort(key=lambda n: n in ("three", "ks"))
    jobs += [("curated", n, one(n)) for n in oned]
    jobs += [("random", j, rnd) for j in range(run.n(12, 150))]
    part = os.environ.get("ORACLE_PART")
    i, k = [int(v) for v in part.split("/")] if part else (0, 1)
    for j, (g, key, f) in enumerate(jobs):
        if j % k == i or run.only: run.case(g, key, f, limit=600)


if __name__ == "__main__":
    main("C14", run_all)
