"""Runs under the interpreter of the repository (real sympy and jinja2): asks the real model builders for the code of programs.

  gen.py OUT.json SEED N1 N2 N3 [stubs|systems|burgers ...]

stubs    real templates rendered by the real builder, for arbitrary expressions: the code of each derivative and of each equation is a
         call of a method that receives the variables it may use;
systems  real systems of equations: code, with the right-hand sides and the finite differences of the derivatives as data."""
import io, itertools, json, os, random, sys, contextlib, warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "oracle"))
import sympy
from sympy import Symbol, Function, Derivative, symbols, Integer, Rational, srepr, sin, cos, exp, sqrt, pi, tanh, Abs, log
from sympy.core.function import AppliedUndef

t = symbols("t")


def clean(s): return "".join("_" if c in "^," else c for c in str(s) if c not in "\\{}")


class Obj:
    """stands for a field, constant...: the templates may only use what it is given (jinja2 would silently render anything else as nothing)"""
    def __init__(self, **k): self.__dict__.update(k)
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        raise RuntimeError(f"the templates use {name}, which is not known to the contract")


def stub(Builder, nP, nC, nE, nK, nD, dim):
    P, C, E, K = [[f"{k}{i}" for i in range(n)] for k, n in (("p", nP), ("c", nC), ("e", nE), ("k", nK))]
    crd = ["x", "y", "z", "s"][:dim]
    names = P + C + E + K
    D = [f"D{j}" for j in range(nD)]
    fn = lambda n, i: Obj(as_keyvar=n, index=i, trend="d" + n, as_str=n, as_symbolic=n)
    class Stub(Builder):
        prognostic_functions = property(lambda s: [fn(n, i) for i, n in enumerate(P)])
        constant_functions = property(lambda s: [fn(n, i) for i, n in enumerate(C)])
        exogenous_functions = property(lambda s: [fn(n, i) for i, n in enumerate(E)])
        functions = property(lambda s: [fn(n, i) for i, n in enumerate(P + C + E)])
        constants = property(lambda s: [Obj(as_keyvar=n, as_str=n, as_symbolic=n) for n in K])
        spatial_coordinates = property(lambda s: [Obj(as_keyvar=n, as_str=n, as_symbolic=n, index=i) for i, n in enumerate(crd)])
        spatial_derivatives = property(lambda s: [Obj(as_keyvar=d, as_str=d, as_symbolic=d, as_code=f"self.vc_derivative({j}, t, state, {', '.join(names)})", order=1) for j, d in enumerate(D)])
        trend_code = property(lambda s: [f"d{p}[:] = self.vc_rhs({i}, t, state, {', '.join(names + D)})" for i, p in enumerate(P)])
        templates = property(lambda s: [s.template_header, s.template_body, s.template_footer])
    u = Function("u")(t, symbols("x"))
    b = Stub(sympy.Eq(Derivative(u, t), u), class_name="Stub")
    b.pde_system = Obj()
    return dict(kind="stub", cls="Stub", code=b.code, P=P, C=C, E=E, K=K, D=D, coords=crd)


def curated():
    x, y, z, k, c, nu = symbols("x y z kappa c \\nu")
    D = Derivative
    u, v, w = [Function(n)(t, x) for n in ("u", "v", "w")]
    U, V, W = [Function(n)(t, x, y) for n in ("u", "v", "w")]
    h, H = Function("h")(x), Function("H")(x, y)
    a, b = Function("{V_{u}}")(t, x), Function("g_{u,xx}")(t, x)
    q = [Function(n)(t, y, x) for n in ("q1", "q2")]
    T = Function("T")(t, x, y, z)
    Eq = sympy.Eq
    return {
        "advection": ([x], [Eq(D(u, t), -c * D(u, x))]),
        "burgers": ([x], [Eq(D(u, t), -u * D(u, x) + k * D(u, x, 2))]),
        "zero": ([x], [Eq(D(u, t), Integer(0)), Eq(D(v, t), u)]),
        "order 4": ([x], [Eq(D(u, t), -D(u, x, 4) - D(u, (x, 3)) / 2 + u ** 3)]),
        "order 6": ([x], [Eq(D(u, t), D(u, (x, 5)) + k * D(u, (x, 6)) - D(v, (x, 5)) * D(u, (x, 3))), Eq(D(v, t), D(v, (x, 7)) * c + D(v, (x, 6)))]),
        "wave": ([x], [Eq(D(u, t), D(v, x)), Eq(D(v, t), c ** 2 * D(u, x))]),
        "latex": ([x], [Eq(D(a, t), -a * D(b, x) / b + b ** 2), Eq(D(b, t), D(a, x, 2) * sqrt(a))]),
        "constants": ([x], [Eq(D(u, t), h * D(u, x) + D(h, x, 2) * u + nu / 3 + pi * c)]),
        "exogenous": ([x], [Eq(D(u, t), w * D(u, x) + v), Eq(D(h.func(t, x), t), D(w, x) * u)]),
        "elementary": ([x], [Eq(D(u, t), sin(u) * exp(-D(u, x) ** 2) + tanh(c * u) / (1 + u ** 2))]),
        "composite": ([x], [Eq(D(u, t), D(u ** 2 * v, x) + D(u * D(v, x), x)), Eq(D(v, t), D(sqrt(1 + u ** 2), x))]),
        "2D": ([x, y], [Eq(D(U, t), -V * D(U, x) - W * D(U, y) + k * (D(U, x, 2) + D(U, y, 2)) + H), Eq(D(V, t), D(U, x, y) + D(V, (x, 2), y))]),
        "y,x": ([y, x], [Eq(D(q[0], t), D(q[1], y) - D(q[0], x, 2)), Eq(D(q[1], t), q[0] * D(q[1], y, x))]),
        "3D": ([x, y, z], [Eq(D(T, t), k * (D(T, x, 2) + D(T, y, 2) + D(T, z, 2)) - T * D(T, z))]),
        "3D mixed": ([x, y, z], [Eq(D(T, t), D(T, x, y, z) - k * D(T, x, y) + c * D(T, x, y, (z, 2)) + D(T, x, z) * D(T, y, z) + D(T, (x, 2), y, z))]),
    }


def names_case():
    """field, constant and coordinate names that contain each other"""
    d, dx, x = symbols("d dx x")
    cc, c, kc = symbols("cc c kc")
    u, uu, uc = Function("u")(t, d), Function("uu")(t, d), Function("ud")(t, d)
    D = Derivative
    return {"nested names": ([d], [sympy.Eq(D(u, t), uu * D(uc, d) + cc * c), sympy.Eq(D(uu, t), D(uu, d, 2) * kc + D(u, d) * c), sympy.Eq(D(uc, t), u + uu)])}


def system(Builder, cs, eqs, name, how=0):
    from sympkf.symbolic import PDESystem
    from sympkf.symbolic.finite_difference import finite_difference
    b = Builder(list(eqs) if how != 1 else PDESystem(list(eqs)), class_name="Sys")
    rhs = [e.args[1].doit() for e in eqs]
    P = [e.args[0].args[0] for e in eqs]
    F, S, ders = set(P), set(), set()
    for r in rhs:
        F |= r.atoms(AppliedUndef); S |= r.atoms(Symbol); ders |= r.atoms(Derivative)
    cf = sorted({f for f in F - set(P) if t not in f.args}, key=str); ex = sorted(F - set(P) - set(cf), key=str)
    K = sorted(S - {t} - set(cs), key=str)
    fd = {srepr(d): srepr(finite_difference(d)) for d in ders}
    f = lambda l: [(clean(k.func), str(k.func), [str(a) for a in k.args]) for k in l]
    return dict(kind="system", name=name, cls="Sys", code=b.code, coords=[clean(c) for c in cs], symcoords=[str(c) for c in cs], P=f(P), C=f(cf), E=f(ex), K=[(clean(k), str(k)) for k in K],
                rhs=[srepr(r) for r in rhs], ders=[srepr(d) for d in ders], fd=fd, text=str(eqs)[:600])


def burgers():
    with contextlib.redirect_stdout(io.StringIO()):
        from sympkf.dynamics.burgers import Burgers
        from sympkf.symbolic import SymbolicPKF, FDModelBuilder
        from sympkf.symbolic.random import Expectation
        m = Burgers(12).model
    u, x = Burgers.u, Burgers.x
    eqs = list(Burgers.closed_pkf.in_aspect)
    f = Burgers.closed_pkf.fields[u]
    s = f.aspect[0]
    e4 = Expectation(f.epsilon * Derivative(f.epsilon, x, 4))
    other = SymbolicPKF(Burgers.dynamics)
    closure = (3 / s ** 2 - 2 * Derivative(1 / s, x, 2)).doit()
    diff = [sympy.simplify((e.args[1] - w.args[1].subs(e4, closure)).doit()) for e, w in zip(eqs, other.in_aspect)]
    dyn = sympy.simplify(Burgers.dynamics.args[1] + u * Derivative(u, x) - Burgers.kappa * Derivative(u, x, 2))
    src = None
    import inspect
    r = system(FDModelBuilder, [x], eqs, "Burgers PKF")
    # the code the ready-made model really runs: its class was made by the generator from this source
    r["closed"] = all(d == 0 for d in diff) and dyn == 0 and not any(e.atoms(Expectation) for e in eqs) and len(eqs) == 3
    r["residue"] = str([diff, dyn])[:600]
    r["order"] = [str(e.args[0].args[0].func) for e in eqs] == [str(k.func) for k in (u, f.variance, s)]
    r["model"] = dict(mro=[c.__name__ for c in type(m).__mro__], shape=list(m.shape), prognostic=list(m.prognostic_functions), constants=list(m.constants))
    return r


def main():
    out, seed, n1, n2, n3, *what = sys.argv[1:]
    from sympkf.symbolic import FDModelBuilder
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    progs = []
    def add(label, make, *a, **k):
        try:
            with contextlib.redirect_stdout(io.StringIO()): p = make(*a, **k)
            p["label"] = label
            progs.append(p)
        except Exception as e:
            progs.append(dict(kind="error", label=label, error=f"{type(e).__name__}: {e}"[:500]))
    shapes = [s for s in itertools.product((1, 2, 3), (0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 2)) if sum(s) <= 7]
    for B, tag in ((FDModelBuilder, "FD"), (ManifoldModelBuilder, "M")):
        if "stubs" in what:
            for s in shapes:
                for d in ((1, 2, 3) if s == (1, 1, 1, 1, 2) or s == (2, 0, 0, 1, 2) else (2,)): add(f"stub {tag} {s} {d}D", lambda: dict(stub(B, *s, d), builder=tag))
        if "grids" in what:
            for d in (1, 2, 3, 4):
                for c, k in ((0, 0), (1, 2), (2, 1)): add(f"grid {tag} {d}D constants {c},{k}", lambda: dict(stub(B, 1, c, 0, k, 0, d), builder=tag))
        if "systems" in what:
            for n, (cs, eqs) in {**curated(), **names_case()}.items(): add(f"system {tag} {n}", lambda: dict(system(B, cs, eqs, n), builder=tag))
            import c11
            for dim, n in ((1, n1), (2, n2), (3, n3)):
                rng = random.Random(f"{seed}/{dim}/{tag}")
                made = 0
                while made < int(n):
                    cs, P, eqs = c11.build_system(rng, dim, sympy.Eq)
                    if any(not isinstance(e, sympy.Eq) for e in eqs) or max(len(str(e)) for e in eqs) > 300: continue
                    if any(len([a for a in f.args if a != t]) < dim for e in eqs for f in e.args[1].doit().atoms(AppliedUndef)): continue     # fields on all the coordinates
                    add(f"system {tag} {dim}D {made}", lambda: dict(system(B, cs, eqs, f"{dim}D {made}", made % 2), builder=tag))
                    made += 1
    if "burgers" in what: add("burgers", lambda: dict(burgers(), builder="FD"))
    json.dump(progs, open(out, "w"))


if __name__ == "__main__": main()
