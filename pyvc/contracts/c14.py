"""C14: the metric, aspect and diffusion formulations are the same dynamics; C15: the closures take effect whatever was computed
before.  The systems are computed by the real code on the model of the algebra, for opaque right-hand sides, and for linear
and quadratic systems with arbitrary coefficient functions (whose statistics are not all known: external closures apply)."""
import itertools
import engine, cas
from cas import sym, num, X, Fr, Mat
from pkfsem import Sem, equal
from . import symb
from .symb import world, opaque_system, transparent_system, COORDS

FORMS = ("in_metric", "in_aspect", "in_diffusion")


def clean(pkf, x):
    return cas.subs(x, [(cas.Expectation(m.random), f) for f, m in pkf.fields.items()])


def reference(P, make_pkf, closure):
    """the three formulations derived by the contract from the statistics equations (C13) and the closure"""
    pkf = make_pkf()
    t = sym("t")
    cl = list(closure.items())
    def close(x):
        x = cas.asx(x)
        return cas.subs(x, cl) if cl else x
    closed = lambda s: [(e.args[0], close(e.args[1])) for e in (s or [])]
    base = closed(pkf.expectation_system) + closed(pkf.variance_system) + closed(pkf.cross_covariance_system)
    metric = closed(pkf.metric_system)
    out = {"in_metric": [(clean(pkf, a), clean(pkf, b)) for a, b in base + metric]}
    for name, attr, scale in (("in_aspect", "aspect", Fr(1)), ("in_diffusion", "diffusion", Fr(2))):
        table = []
        for m in pkf.fields.values():
            T = Mat([list(r) for r in getattr(m, attr).rows]); d = len(m.spatial_coordinates)
            inv = T.inv()
            for i in range(d):
                for j in range(i, d): table.append((m.metric[i, j], inv[i, j] * num(1 / scale)))
        mig = lambda x: cas.doit(cas.subs(clean(pkf, x), table))
        eqs = [(clean(pkf, a), mig(b)) for a, b in base]
        trend = {a: b for a, b in metric}
        for m in pkf.fields.values():
            T = Mat([list(r) for r in getattr(m, attr).rows]); d = len(m.spatial_coordinates)
            G = Mat([[mig(trend[cas.Derivative(m.metric[min(i, j), max(i, j)], t)]) for j in range(d)] for i in range(d)])
            R = T @ G @ T
            for i in range(d):
                for j in range(i, d): eqs.append((cas.Derivative(T[i, j], t), R[i, j] * num(-scale)))
        out[name] = eqs
    return out


def check_form(E, name, system, ref, detail=""):
    E.prove(f"{name}: the equations of the mean, variance, covariance and tensor, in order", [e.args[0] for e in system] == [a for a, _ in ref],
            detail=str([str(e.args[0]) for e in system])[:400])
    if len(system) != len(ref): return
    for e, (a, b) in zip(system, ref):
        try: ok = equal(cas.doit(cas.asx(e.args[1])), cas.doit(cas.asx(b)))
        except cas.Unsupported as x:
            E.record(f"{name}: each equation is that of the statistics, expressed with the tensor", False, "differential-algebra normal form", detail=str(x), unknown=True); continue
        E.prove(f"{name}: each equation is that of the statistics, expressed with the tensor", ok, detail="" if ok else f"{detail}{e}  expected {b}"[:900], backend="differential-algebra normal form")


def formulations(E, nf, coords, make, closure=None):
    def run():
        W = world()
        P, U = W.load("vsympkf.symbolic.pkfcas"), W.load("vsympkf.symbolic.util")
        fs, rhs, eqs = make(U)
        cl = closure(P, P.SymbolicPKF(list(eqs))) if closure else {}
        mk = lambda c=None: P.SymbolicPKF(list(eqs) if nf > 1 else eqs[0], closure=c)
        ref = reference(P, mk, cl)
        pkf = mk(dict(cl)) if cl else mk()
        order = list(E.choose(list(itertools.permutations(FORMS))))
        for n in order: check_form(E, n, getattr(pkf, n), ref[n])
        for n in order: check_form(E, n, getattr(pkf, n), ref[n], "second read: ")
    return run


def one_closure(P, pkf):
    """an arbitrary closure of every statistic that is not known: opaque functions of the metric and of its derivatives"""
    out = {}
    t = sym("t")
    for k, f in enumerate(pkf.fields):
        m = pkf.fields[f]
        for q, term in enumerate(sorted((x for x in pkf.unclosed_terms), key=str)):
            if m.epsilon in term.atoms(cas.AppliedUndef):
                c = [cas.FnSym(f"C{k}{q}{i}")(*m.coordinates) for i in range(3)]
                g = m.metric[0, 0]
                out[term] = c[0] * g * g + c[1] * cas.Derivative(g, m.spatial_coordinates[0]) + c[2]
    return out


def verify(E):
    E.trusted += ["sympy: contracts of Derivative, subs, doit, expand, simplify, inverse of a matrix, as the model of pyvc/cas.py", "Expectation: its contract (C05), not its body",
                  "the statistics equations: as computed (C13 decides them)"]
    E.assumptions += ["number of fields and of coordinates as listed in the obligations; right-hand sides opaque, or linear and quadratic with arbitrary coefficients, as listed"]
    E.functions += ["SymbolicPKF.in_metric", "SymbolicPKF.in_aspect", "SymbolicPKF.in_diffusion", "SymbolicPKF._apply_closure", "SymbolicPKF._clean_system_from_expectation"]
    for nf, d in ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3), (1, 4)):
        E.explore(f"formulations for {nf} field(s) in {d}D, any right-hand side", formulations(E, nf, COORDS[d], lambda U: opaque_system(U, nf, COORDS[d])), "SymbolicPKF.in_metric")
    E.explore("formulations for 1 field in coordinates (y,x), any right-hand side", formulations(E, 1, ("y", "x"), lambda U: opaque_system(U, 1, ("y", "x"))), "SymbolicPKF.in_metric")
    shapes = ((1, 1, 2, 1), (2, 1, 1, 0), (1, 2, 1, 0)) if E.tier == "quick" else ((1, 1, 3, 1), (2, 1, 2, 0), (1, 2, 2, 0), (3, 1, 1, 0))
    for nf, d, o, q in shapes:
        mk = lambda U: transparent_system(U, nf, COORDS[d], o, q)
        E.explore(f"formulations for {nf} field(s) in {d}D, linear terms of order {o}, products of order {q}, arbitrary coefficients", formulations(E, nf, COORDS[d], mk), "SymbolicPKF.in_metric")
        E.explore(f"the same with an arbitrary closure of every unknown statistic: {nf} field(s) in {d}D, linear terms of order {o}, products of order {q}",
                  formulations(E, nf, COORDS[d], mk, one_closure), "SymbolicPKF.in_metric")
