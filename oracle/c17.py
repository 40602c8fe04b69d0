from common import *
import string
import numpy as np
import sympy
from sympy import symbols, Function, Symbol, Integer, Rational, Derivative, sin, exp
from shuffle import shuffled


def clean(s):
    return "".join("_" if c in "^," else c for c in s if c not in "\\{}")


COORDS = ["x", "y", "z", "d", "dd", "s", "\\theta", "\\lambda", "x_1", "lon", "X^{a}", "x_{i,j}", "w"]
NAMES = ["u", "v", "uu", "f^u_xy", "\\rho", "{V_{u}}", "{g_{u,xx}}", "{\\nu_{u,xy}}", "\\mu", "width", "h1", "T", "\\sigma^{2}", "dxu", "p1", "mm"]


class Rec:
    def __init__(self, name): self.name = name
    def __getitem__(self, k): return (self.name, k)


class FakeNp:
    @staticmethod
    def ix_(*a): return ("ix",) + a


def run_all(run):
    from sympkf.symbolic.tool import clean_latex_name
    from sympkf.symbolic import finite_difference as FD
    from sympkf.symbolic.finite_difference import code_regular_function, code_finite_difference, Code, get_displacement, finite_difference
    from sympkf.symbolic.util import get_function_coordinates
    t, dt = symbols("t dt")

    def names(rng, chk):
        kind = rng.random()
        alphabet = "\\{}^,_ abcXYZ019" if kind < .6 else string.printable
        s = "".join(rng.choice(alphabet) for _ in range(rng.randrange(0, 14)))
        if rng.random() < .3: s = rng.choice(["\\frac{a}{b}", "{\\varepsilon_{u}}", "x^{2,3}", "\\\\", "{}", "^^,,", "\\mathbb{E}"]) + s
        if rng.random() < .15: s = "".join(rng.choice("\\{}^,_aX") for _ in range(rng.randrange(20, 120)))
        if rng.random() < .1: s = s + rng.choice("^,\\{}") * rng.randrange(5, 40) + "z"
        r = clean_latex_name(s)
        chk.equal(r, clean(s), "clean_latex_name", label=repr(s))
        chk.equal(clean_latex_name(r), r, "clean_latex_name is not idempotent", label=repr(s))
        q = Symbol(s) if s.strip() else None
        if q is not None: chk.equal(clean_latex_name(q), clean(str(q)), "clean_latex_name of a symbol", label=repr(s))
        return repr(s)

    def distinct(rng, pool, n, avoid=()):
        out = []
        for c in rng.sample(pool, len(pool)):
            if clean(c) in [clean(o) for o in out] or c in avoid: continue
            if any("d" + c == o or "d" + o == c for o in out): continue
            out.append(c)
            if len(out) == n: break
        return out

    def a_function(rng):
        nc = rng.randrange(1, 4) if rng.random() < .95 else rng.randrange(4, 8)
        cs = distinct(rng, COORDS, nc)
        time = rng.random() < .7
        name = rng.choice(NAMES)
        x = [Symbol(c) for c in cs]
        X = ([t] if time else []) + x
        return name, cs, time, X

    def fargs(X, k):
        return [xi + ki * Symbol("d" + str(xi)) for xi, ki in zip(X, k)]

    S = lambda k, step: (k, int(step))

    def render(rng, chk):
        name, cs, time, X = a_function(rng)
        far = rng.choice([20, 300, 70000]) if rng.random() < .2 else 0
        k = [rng.choice([0, 0, 0, 1, -1, 2, -2, 3, -7, 12] + ([rng.randrange(-far, far)] * 4 if far else [])) for _ in X]
        F = Function(name)(*fargs(X, [Integer(a) for a in k]))
        chk.equal([list(v) for v in get_function_coordinates(F)], [X, [Symbol("d" + str(c)) for c in X]], "get_function_coordinates", function=F)
        chk.equal([int(a) for a in get_displacement(F)], k, "get_displacement", function=F)
        kt, ks = (k[0], k[1:]) if time else (0, k)
        tag = f"m{abs(kt)}" if kt < 0 else f"p{kt}" if kt > 0 else ""
        var = clean(name) + tag
        want = (var, ("ix",) + tuple((clean(c), s) for c, s in zip(cs, ks))) if any(ks) else var
        for what, code, ns in (
            ("code_regular_function", code_regular_function(F, lambda a, b: f"S({a},{b})"), {"S": S}),
            ("Code._render_function", Code(F)._render_function(F), {"self": type("M", (), {"index": staticmethod(S)})}),
            ("Code.code", str(Code(F)), {"self": type("M", (), {"index": staticmethod(S)})}),
            ("code_finite_difference", code_finite_difference(F, lambda a, b: f"S({a},{b})", lambda c: f"DX({c})"), {"S": S})):
            try:
                r = eval(code, {"np": FakeNp, **ns, var: Rec(var)})
            except Exception as e:
                raise Violation(f"{what}: the code does not evaluate ({type(e).__name__}: {e})", code=code, function=F)
            r = r.name if isinstance(r, Rec) else r
            chk.equal(r, want, f"{what}: wrong code", code=code, function=F)
        return f"{F}"

    def offgrid(rng, chk):
        name, cs, time, X = a_function(rng)
        k = [Integer(rng.choice([0, 1, -2])) for _ in X]
        j = rng.randrange(len(X))
        k[j] = Rational(rng.choice([1, -1, 3, 5]), rng.choice([2, 4]))
        F = Function(name)(*fargs(X, k))
        chk.equal(list(get_displacement(F)), k, "get_displacement", function=F)
        chk.raises(Exception, lambda: code_regular_function(F, lambda a, b: f"S({a},{b})"), "an off-grid displacement is not rejected", function=F)
        chk.raises(Exception, lambda: Code(F).code, "an off-grid displacement is not rejected by Code", function=F)
        chk.raises(Exception, lambda: Code(F)._render_function(F), "an off-grid displacement is not rejected by Code._render_function", function=F)
        chk.raises(Exception, lambda: code_finite_difference(2 * F + 1, lambda a, b: f"S({a},{b})", lambda c: f"DX({c})"), "an off-grid displacement is not rejected by code_finite_difference", function=F)
        return f"{F}"

    class Grid:
        def __init__(self, cs, rng):
            self.n = {c: rng.randrange(4, 7) for c in cs}
            self.cs = cs
            self.steps = {c: rng.uniform(.1, .9) for c in cs}

    def expression(rng, chk):
        nc = rng.choice([1, 1, 2])
        cs = distinct(rng, COORDS, nc)
        X = [Symbol(c) for c in cs]
        nf = rng.choice([1, 2, 2, 3])
        fn = distinct(rng, NAMES, nf)
        time = rng.random() < .6
        fs = [Function(n)(*(([t] if time else []) + X)) for n in fn]
        # displaced fields, products, powers, increments, constants
        c = Symbol(rng.choice(["c", "k2"]))
        if cs[0].isidentifier() and rng.random() < .4:
            # a constant whose name contains the name of an increment
            n = rng.choice(["d{}2", "d{}_0", "ad{}", "d{}x", "_d{}", "d{}d{}", "d{}9z", "k2d{}"]).replace("{}", cs[0])
            if n[1:] not in COORDS and n not in [clean(q) for q in fn + cs]: c = Symbol(n)
        def term():
            e = rng.choice([Integer(1), Rational(1, 2), c, Integer(-3)])
            for _ in range(rng.randrange(1, 3)):
                F = rng.choice(fs)
                if rng.random() < .75:
                    F = F.func(*(([t] if time else []) + fargs(X, [Integer(rng.choice([0, 1, -1, 2])) for _ in X])))
                e *= F ** rng.choice([1, 1, 2])
            if rng.random() < .6: e /= Symbol("d" + cs[rng.randrange(nc)]) ** rng.choice([1, 2])
            if rng.random() < .2: e *= rng.choice([sin, exp])(rng.choice(fs))
            return e
        e = sum((term() for _ in range(rng.randrange(1, 4))), rng.choice(fs))
        if e.is_number: raise Skip()
        used = set(e.atoms(sympy.core.function.AppliedUndef))
        G = Grid(cs, rng)
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        arr = {n: nr.uniform(.5, 1.5, size=tuple(G.n[q] for q in cs)) for n in fn}
        cval = 1.37
        def ev(q):
            if isinstance(q, sympy.core.function.AppliedUndef):
                a = arr[str(q.func)]
                args = q.args[1:] if time else q.args
                for axis, (ai, xi) in enumerate(zip(args, X)):
                    k = int(sympy.simplify((ai - xi) / Symbol("d" + str(xi))))
                    a = np.roll(a, -k, axis=axis)
                return a
            if isinstance(q, Symbol):
                return cval if q == c else G.steps[str(q)[1:]]
            if q.is_number: return float(q)
            if isinstance(q, sympy.Add): return sum(ev(a) for a in q.args)
            if isinstance(q, sympy.Mul):
                r = 1.
                for a in q.args: r = r * ev(a)
                return r
            if isinstance(q, sympy.Pow): return ev(q.base) ** float(q.exp)
            return {sin: np.sin, exp: np.exp}[q.func](ev(q.args[0]))
        want = ev(e)
        class M:
            dx = {}
            def index(self, k, step): return (np.arange(G.n[orig[k]]) + step) % G.n[orig[k]]
        orig = {clean(q): q for q in cs}
        M.dx = {**{q: G.steps[q] for q in cs}, **{clean(q): G.steps[q] for q in cs}}
        seen = [str(a) for f in used for a in f.args]
        with shuffled(rng):
            codes = [("Code", Code(e).code), ("code_finite_difference", code_finite_difference(e, lambda a, b: f"self.index({a},{b})", lambda q: f"self.dx['{clean(str(q))}']"))]
        for what, code in codes:
            ns = {"np": np, "self": M(), "sin": np.sin, "exp": np.exp, str(c): cval}
            ns.update({clean(n): a for n, a in arr.items()})
            code2 = code
            try:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = eval(code2.replace("self.dx['\\", "self.dx[r'\\") if what == "Code" else code2, ns)
            except Exception as ex:
                raise Violation(f"{what}: the code of the expression does not evaluate ({type(ex).__name__}: {ex})", code=code, expr=e)
            chk.close(np.broadcast_to(r, want.shape) if hasattr(want, 'shape') else r, want, f"{what}: wrong code of an expression", rtol=1e-9, code=code, expr=e)
        return f"{e}"

    def bad(rng, chk):
        x = symbols("x")
        chk.raises(ValueError, lambda: get_function_coordinates(x), "coordinates of something that is not a function")
        a, b, c = symbols("a b c")
        F = Function("u")(t, a + b + c)
        chk.raises(ValueError, lambda: get_function_coordinates(F), "too many symbols in an argument")
        return "errors"

    for k in range(run.n(3200, 5000)): run.case("names", k, names)
    for k in range(run.n(1600, 3000)): run.case("render", k, render)
    for k in range(run.n(480, 800)): run.case("offgrid", k, offgrid)
    for k in range(run.n(1200, 2500)): run.case("expression", k, expression)
    run.case("bad", 0, bad)


if __name__ == "__main__":
    main("C17", run_all)
