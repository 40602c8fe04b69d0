from common import *
import sympy
from sympy import Derivative, Integer
from pdes import curated, t
from c14 import random_closure


def run_all(run):
    from sympkf.symbolic import SymbolicPKF, PDESystem
    from sympkf.symbolic.random import Expectation as E
    C = curated()
    # a statistic that is only unknown in the mean of the second field
    x_, k_ = sympy.symbols("x kappa"); u_, v_ = sympy.Function("u")(t, x_), sympy.Function("v")(t, x_)
    C["source"] = [sympy.Eq(Derivative(u_, t), -k_ * Derivative(u_, x_)), sympy.Eq(Derivative(v_, t), k_ * Derivative(u_, x_, 2) ** 2)]
    names = ["kpz", "logistic", "nonlinear_diffusion", "burgers", "wave", "source"] + (["kdv", "shallow", "kpz"] if run.thorough else [])
    reads = ["in_metric", "in_aspect", "in_diffusion", "unclosed_terms", "closure", "variance_system", "expectation_system",
             "metric_system", "cross_covariance_system", "std_system", "epsilon_system"]
    open_terms = {}
    base = {}     # systems that do not depend on the closure

    def val(pkf, r):
        v = getattr(pkf, r)
        if r == "closure": return dict(v)
        if r == "unclosed_terms": return set(v)
        return None if v is None else list(v)

    fresh_cache = {}

    def fresh(name, c, r):
        """value read on a filter that got the accumulated closure from the start"""
        key = (name, frozenset(c.items()), r)
        if key not in fresh_cache:
            p = SymbolicPKF(C[name], closure=dict(c))
            fresh_cache[key] = val(p, r)
        return fresh_cache[key]

    def history(rng, chk):
        name = rng.choice(names)
        if name not in open_terms:
            p0 = SymbolicPKF(C[name])
            t0 = sorted(p0.unclosed_terms, key=str)
            r0 = random.Random(run.seed)
            cl = [{}]
            while len(cl) < 3:
                c = random_closure(r0, p0, t0, E)
                if c: cl.append(c)
            # everything closed; then a closure written with statistics that are not known
            full = {}
            while set(full) != set(t0): full.update(random_closure(r0, p0, t0, E))
            cl += [full, full]
            mf = list(p0.fields.values())[0]
            e, x = mf.epsilon, mf.spatial_coordinates[0]
            # values written with a statistic that has, or will have, its own value
            for _ in range(2 if len(t0) > 1 else 0):
                i = r0.randrange(len(t0) - 1)
                cl.append({t0[i]: r0.choice([1, 2, mf.variance]) * t0[r0.randrange(i + 1, len(t0))] + r0.choice([0, mf.metric[0, 0]])})
            for n in (6, 5):
                cl.append({r0.choice(t0): r0.choice([2, mf.variance]) * E(Derivative(e, x, n) * Derivative(e, x, 2)) + mf.metric[0, 0]})
            open_terms[name] = cl
        closures = open_terms[name]
        pick = lambda: dict(rng.choice(closures))
        shared = pick()
        ctor = rng.random() < .6
        sys_ = PDESystem(C[name]) if rng.random() < .5 else C[name]
        shared0 = dict(shared)
        A = SymbolicPKF(sys_, closure=shared) if ctor else SymbolicPKF(sys_)
        B = SymbolicPKF(sys_, closure=shared) if rng.random() < .7 else SymbolicPKF(sys_)
        acc = {"A": dict(shared) if ctor else {}, "B": dict(B.closure)}
        chk.equal(acc["B"], {} if not B.closure else shared0, "closure given to the constructor", case=name)
        P = {"A": A, "B": B}
        log = [f"ctor={sorted(map(str, shared)) if ctor else None}"]
        seen, mine = [], {}
        for _ in range(rng.randrange(2, 7)):
            who = rng.choice(["A", "A", "B"])
            act = rng.random()
            if act < .4:
                c = pick()
                c0 = dict(c)
                if rng.random() < .4: mine.clear(); mine.update(c0); c = mine; log.append("the same dictionary object as before, refilled")
                P[who].set_closure(c)
                chk.equal(c, c0, "set_closure modified the caller's dictionary", case=name, log=log)
                acc[who].update(c0)
                log.append(f"{who}.set_closure({c0})")
                if rng.random() < .5:
                    for k in list(c): c[k] = Integer(77)      # later changes of the caller's dictionary do not matter
                    log.append("caller changes its dictionary")
            elif act < .5 and ctor:
                for k in list(shared): shared[k] = Integer(55)
                shared0 = dict(shared)
                log.append("caller changes the dictionary given to the constructor")
            else:
                r = rng.choice(reads[:5] * 3 + ["unclosed_terms"] * 2 + reads)
                got = val(P[who], r)
                log.append(f"{who}.{r}")
                want = fresh(name, acc[who], r)
                chk.equal(got, want, f"{r} is not that of the accumulated closure", case=name, log=log)
                chk.equal(val(P[who], r), got, f"second read of {r} differs", case=name, log=log)
                if r == "unclosed_terms":
                    left = set().union(*[sympy.sympify(q.args[1]).atoms(E) for q in P[who].in_metric]) - {E(mf.random) for mf in P[who].fields.values()}
                    chk.equal(got, left, "the unclosed terms are not the statistics left in the system", case=name, log=log)
                    chk.true(not (got & set(acc[who]) - set().union(*[sympy.sympify(v).atoms(E) for v in acc[who].values()] or [set()])),
                             "a closed term is still unclosed", case=name, log=log)
                seen.append(r)
            chk.equal(shared, shared0, "the dictionary given to the constructor was modified", case=name, log=log)
        for who in P:
            for r in ["in_metric", "in_aspect", "in_diffusion", "unclosed_terms", "closure"]:
                chk.equal(val(P[who], r), fresh(name, acc[who], r), f"{r} is not that of the accumulated closure (end)", case=name, log=log + [f"{who}.{r}"])
        return f"{name}: {log}"

    part = os.environ.get("ORACLE_PART")
    i, k = [int(v) for v in part.split("/")] if part else (0, 1)
    for j in range(run.n(40, 600)):
        if j % k == i or run.only: run.case("history", j, history)


if __name__ == "__main__":
    main("C15", run_all)
