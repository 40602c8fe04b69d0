"""Model builders, function by function (used by C11 and C12).

Names: derivatives with arbitrary (symbolic) orders; the variable of a derivative identifies it.
Equations: arbitrary (opaque) right-hand sides of fields, derivatives and constants on the algebra; the pseudo algebraic system is the
system in which each of them is replaced by its variable, and each line of code stores the printed right-hand side of its equation."""
import ast, itertools, re
import engine, cas
from cas import sym, num, X, FnSym, T, asx
from engine import SInt, VList, VSet, Unsupported, zterm
from rope import Rope
from . import symb
from .c09 import Pair
import z3


def clean(s): return "".join("_" if c in "^," else c for c in str(s) if c not in "\\{}")


class Printer:
    """an arbitrary printer: what it prints is evaluated as the expression"""
    def __init__(self, *a, **k): pass
    printed = []
    def doprint(self, e):
        Printer.printed.append(asx(e))
        return f"vc_printed({len(Printer.printed) - 1})"


def load(builder="vsympkf.symbolic.model_builder"):
    from models_np import Missing
    W = symb.world()
    jinja = Missing("jinja2")
    class Template:
        def __init__(self, text): raise Unsupported("rendering")
    jinja.Template = Template
    W.models["jinja2"] = jinja
    S = W.models["sympy"]
    printing = Missing("sympy.printing"); pnum = Missing("sympy.printing.numpy")
    pnum.NumPyPrinter = Printer
    printing.numpy = pnum; S.printing = printing
    Printer.printed = []
    U = W.load("vsympkf.symbolic.util")
    def named(tag):
        class Named:
            vc_kinds = ("Symbol",)
            def __new__(cls, name, *a, **k): return sym(str(name))
        Named.__name__ = tag
        return Named
    for n in ("FunctionSymbol", "ScalarSymbol"):
        if hasattr(U, n): setattr(U, n, named(n))
    return W, U, W.load(builder)


# ---------------------------------------------------------------------- names of derivatives
class Der:
    """Derivative of a field, arbitrary orders"""
    vc_frozen = True
    kinds = ("Derivative", "Expr", "Basic")
    def __init__(self, f, vc): self.expr, self.variable_count = f, tuple(Pair(p) for p in vc); self.args = (f,) + self.variable_count
    @property
    def derivative_count(self): return sum(n for _, n in self.variable_count)
    @property
    def variables(self): raise Unsupported("list of the variables")
    def vc_isinstance(self, classes): return any(k in self.kinds for c in classes for k in cas.kinds_of(c)) or object in classes
    def vc_str(self): return "Derivative(..)"
    def __repr__(self): return "Derivative(..)"


def tokens(s):
    """maximal runs of digits (literal or symbolic) and what is between them"""
    parts = s.parts if isinstance(s, Rope) else (s,)
    out = []
    for p in parts:
        if isinstance(p, str):
            for q in re.findall(r"\d+|\D+", p):
                if q[0].isdigit():
                    if out and not isinstance(out[-1], str): raise Unsupported("digits next to a symbolic integer")
                    out.append(int(q) if q == "0" or q[0] != "0" else q)
                elif out and isinstance(out[-1], str) and not out[-1].isdigit(): out[-1] += q
                else: out.append(q)
        elif isinstance(p, SInt):
            if out and (not isinstance(out[-1], str) or out[-1][-1].isdigit()): raise Unsupported("digits next to a symbolic integer")
            out.append(p)
        else: raise Unsupported("name")
    for a, b in zip(out, out[1:]):
        if not isinstance(a, str) and not isinstance(b, str): raise Unsupported("digits next to a symbolic integer")
    return out


def same(a, b):
    """formula: the two names are equal (positive integers)"""
    a, b = tokens(a), tokens(b)
    if len(a) != len(b): return z3.BoolVal(False)
    c = []
    for x, y in zip(a, b):
        if isinstance(x, str) != isinstance(y, str): return z3.BoolVal(False)
        if isinstance(x, str):
            if x != y: return z3.BoolVal(False)
        else: c.append(zterm(x) == zterm(y))
    return z3.And(c) if c else z3.BoolVal(True)


NAMES = {1: [("x",), ("\\theta",)], 2: [("x", "y"), ("o", "x_{1}"), ("lon", "lat")], 3: [("x", "y", "z"), ("r", "\\theta", "z")], 4: [("x", "y", "z", "p")]}
FIELDS = [("u", "v"), ("\\mu", "g_{u,xx}"), ("u", "uu")]


def some_derivative(E, f, crd, tag, at_least=1):
    """a derivative of f with arbitrary orders in some of its coordinates"""
    sup = E.choose([s for n in range(at_least, len(crd) + 1) for s in itertools.combinations(range(len(crd)), n)])
    vc = []
    for i in sup:
        o = E.int(f"order_{tag}{i}"); E.assume(o.z >= 1)
        vc.append((crd[i], o))
    return sup, Der(f, vc)


def names(E, d, modname):
    def run():
        W, U, MB = load()
        B = W.load(modname)
        # the code of a derivative is not needed here
        class Meta(B.MetaDerivative):
            def _set_as_code(self): return ""
        crd = [sym(c) for c in E.choose(NAMES[d])]
        a, b = [FnSym(n)(sym("t"), *crd) for n in E.choose(FIELDS)]
        f, g = E.choose([(a, a), (a, b)])
        s1, D1 = some_derivative(E, f, crd, "p")
        s2, D2 = some_derivative(E, g, crd, "q")
        if f is g and s1 == s2: E.assume(z3.Or([zterm(o) != zterm(q) for (_, o), (_, q) in zip(D1.variable_count, D2.variable_count)]))
        M1, M2 = Meta(D1), Meta(D2)
        E.prove("the derivative is known by its order", zterm(M1.order) == zterm(D1.derivative_count))
        E.prove("the derivative is the one given, of its function", M1.as_symbolic is D1 and M1.function.as_symbolic is f)
        k1, k2 = M1.as_keyvar, M2.as_keyvar
        lit = "".join(p if isinstance(p, str) else "1" for p in (k1.parts if isinstance(k1, Rope) else (k1,)))
        E.prove("the variable of a derivative is a name", lit.isidentifier(), detail=str(k1))
        E.prove("two derivatives have two variables", z3.Not(same(k1, k2)), detail=f"{str(k1)} and {str(k2)}")
        for n in (a, b): E.prove("the variable of a derivative is not that of a field", z3.Not(same(k1, clean(n.func.name))), detail=str(k1))
    return run


def delegated(E, d):
    """code of a derivative on a manifold: base_space.diff(function, coordinate, order, ...)"""
    def run():
        W, U, MB = load()
        B = W.load("vsympkf.symbolic.model_builder_manifold")
        crd = [sym(c) for c in E.choose(NAMES[d])]
        f = FnSym(E.choose([n for p in FIELDS for n in p]))(sym("t"), *crd)
        s, D = some_derivative(E, f, crd, "p")
        M = B.MetaDerivative(D)
        ints = []
        text = ""
        for p in (M.as_code.parts if isinstance(M.as_code, Rope) else (M.as_code,)):
            if isinstance(p, str): text += p
            else:
                ints.append(p); text += f" vc_int({len(ints) - 1}) "
        calls = []
        class Space:
            def diff(self, *a): calls.append(a); return "value"
        class Me: base_space = Space()
        env = {"self": Me(), "vc_int": lambda i: ints[i], clean(f.func.name): "field"}
        try: r = eval(text.strip(), {"__builtins__": {}}, env)
        except (SyntaxError, NameError, TypeError) as e: raise Unsupported(f"{str(M.as_code)}: {e}")
        ok = r == "value" and len(calls) == 1 and calls[0][:1] == ("field",) and len(calls[0]) % 2 == 1
        E.prove("the derivative is the diff of its function by the manifold", ok, detail=text)
        if not ok: return
        got = list(zip(calls[0][1::2], calls[0][2::2]))
        want = [(clean(x), o) for x, o in D.variable_count]
        fine = len(got) == len(want) and all(any(a == x and isinstance(n, (int, SInt)) and E.holds(zterm(n) == zterm(o)) for a, n in got) for x, o in want)
        E.prove("with the name and the order of each coordinate", fine, detail=text)
    return run


# ---------------------------------------------------------------------- equations
def D(f, crd, a):
    for s, n in zip(crd, a):
        if n: f = cas.Derivative(f, (s, n))
    return f


def replaced(x, var):
    """x in which each derivative, function and constant is replaced by its variable"""
    def gen(g):
        if g in var: return var[g]
        if g[0] == "T": return cas.rebuild(g, [replaced(n, var) if isinstance(n, X) else n for n in g[2:]])
        return cas.atom(g)
    out = num(0)
    for m, c in asx(x).d.items():
        t = num(c)
        for g, e in m: t = t * cas.power(gen(g), num(e))
        out = out + t
    return out


def equations(E, d, N, top):
    def run():
        from . import c10
        X.atoms = lambda self, *c: c10.Atoms(c10.plain_atoms(self, *c))
        c10.Atoms.flip = E.choose([False, True])
        W, U, MB = load()
        t = sym("t")
        crd = [sym(c) for c in NAMES[d][0]]
        names = E.choose([("u", "v", "w", "f", "h", "k", "\\kappa"), ("\\mu", "g_{u,xx}", "u", "q", "{V_{u}}", "d", "dx")])
        P = [FnSym(n)(t, *crd) for n in names[:N]]
        ex, cf = FnSym(names[3])(t, *crd), FnSym(names[4])(*crd)
        k, k2 = sym(names[5]), sym(names[6])
        idx = [a for a in itertools.product(range(top + 1), repeat=d) if 1 <= sum(a) <= top]
        a, b = E.choose([(p, q) for i, p in enumerate(idx) for q in idx[:i + 1]])
        f, g, h = E.choose([(P[0], P[-1], ex), (P[0], P[0], cf), (cf, ex, P[-1])])
        p, q = D(f, crd, a), D(g, crd, b)
        form = E.choose(["opaque", "polynomial", "plain"])
        if form == "opaque": e = T("any", p, q, h, k, P[0]) + D(h, crd, a)
        elif form == "polynomial": e = 3 * p * q ** 2 - h * q / k + k2 * P[-1] * p + P[0] ** 2 * num(1) / k2 + D(p, crd, b)
        else: e = q
        others = [T("other", P[0], k2), num(0), P[-1] * D(P[0], crd, a)]
        eqs = [U.Eq(cas.Derivative(f_, t), r) for f_, r in zip(P, ([e] + others)[:N])]
        if N > 1 and E.choose([0, 1]): eqs = [U.Eq(cas.Derivative(f_, t), r) for f_, r in zip(P, [others[0], e, others[2]])]
        keep = [(q.args[0], q.args[1]) for q in eqs]
        how = E.choose([0, 1])
        B = W.load("vsympkf.symbolic.model_builder_manifold").ManifoldModelBuilder(VList(list(eqs)) if not how else U.PDESystem(VList(list(eqs))), class_name="M")
        sysm = B.pseudo_algebraic_system
        gens = {x for _, r in keep for x in cas.doit(r).allgens()}
        syms = {x for x in gens if x[0] == "s"}
        var, seen = {}, {}
        def put(x, name, what):
            g_ = asx(x).single()
            if g_ is None: raise Unsupported("what a variable stands for")
            E.prove("a variable for each thing, a thing for each variable", seen.get(str(name), g_) == g_ and g_ not in var, detail=f"{name}: {what}")
            seen[str(name)] = g_; var[g_] = sym(str(name))
        for m in B.spatial_derivatives: put(m.as_symbolic, m.as_keyvar, "derivative")
        for m in B.functions: put(m.as_symbolic, m.as_keyvar, "function")
        for m in B.constants: put(m.as_symbolic, m.as_keyvar, "constant")
        E.prove("one equation per equation, for the same functions", [s.args[0] for s in sysm] == [l for l, _ in keep], detail=str(sysm)[:300])
        for s, (l, r) in zip(sysm, keep):
            want = replaced(cas.doit(r), var)
            E.prove("each derivative, function and constant is replaced by its variable, and nothing else changes", asx(s.args[1]) == want,
                    detail="" if asx(s.args[1]) == want else f"{s.args[1]} for {r}, expected {want}"[:600], backend="differential-algebra normal form")
            left = [x for x in asx(s.args[1]).allgens() if x[0] in "jD"]
            E.prove("no field and no derivative is left", not left, detail=str(s))
        E.prove("the system given is left alone", all(q.args == z for q, z in zip(eqs, keep)))
        # the lines of code
        lines = list(B.trend_code)
        E.prove("one line per equation", len(lines) == N)
        trends = {m.trend: i for i, m in enumerate(B.prognostic_functions)}
        E.prove("the trends have distinct names, in the order of the equations", [m.as_symbolic for m in B.prognostic_functions] == P and len(trends) == N and [m.index for m in B.prognostic_functions] == list(range(N)))
        E.prove("no variable has the name of a trend", not set(trends) & set(seen), detail=str(trends))
        written = {}
        class Out:
            def __init__(self, i): self.i = i
            def __setitem__(self, key, v):
                if key != slice(None) and key is not Ellipsis: raise Unsupported("place of the trend")
                written[self.i] = v
        for line, s in zip(lines, sysm):
            env = {n: Out(i) for n, i in trends.items()}
            env["vc_printed"] = lambda i: ("printed", i)
            try: exec(str(line), {"__builtins__": {}}, env)
            except (SyntaxError, NameError, TypeError, AttributeError) as x: raise Unsupported(f"line of code {line}: {x}")      # another form: the whole programs decide
        ok = all(i in written and isinstance(written[i], tuple) and Printer.printed[written[i][1]] == asx(s.args[1]) for i, s in enumerate(sysm))
        E.prove("each line stores the right-hand side of its equation in the trend of its function", ok, detail=str(lines)[:400])
    return run


def not_prognostic(E):
    def run():
        W, U, MB = load()
        x, t = sym("x"), sym("t")
        u, v = FnSym("u")(t, x), FnSym("v")(t, x)
        bad = E.choose([lambda: U.Eq(u, v), lambda: U.Eq(cas.Derivative(u, t) + v, v), lambda: U.Eq(cas.Derivative(u, t) * 2, v)])()
        good = U.Eq(cas.Derivative(v, t), u)
        eqs = E.choose([[good, bad], [bad, good]])
        try: B = MB.ModelBuilder(VList(eqs)); r = B.pseudo_algebraic_system; out = "accepted"
        except ValueError: out = "ValueError"
        except (IndexError, AttributeError): out = "other"
        E.prove("an equation that is not prognostic is not turned into code", out != "accepted")
    return run


def verify(E, manifold):
    q = E.tier == "quick"
    m = "sympkf.symbolic.model_builder."
    mod = "vsympkf.symbolic.model_builder_" + ("manifold" if manifold else "FD")
    for d in (1, 2, 3) if q else (1, 2, 3, 4):
        E.explore(f"{'manifold' if manifold else 'finite-difference'} names of derivatives [any orders in {d} variables]", names(E, d, mod), m + "MetaDerivative")
        if manifold: E.explore(f"delegated derivatives [any orders in {d} variables]", delegated(E, d), "sympkf.symbolic.model_builder_manifold.MetaDerivative._set_as_code")
    if not manifold:
        for d, N, top in ([(1, 1, 4), (1, 2, 3), (2, 1, 2), (2, 2, 1)] if q else [(1, 1, 6), (1, 2, 4), (2, 1, 3), (2, 2, 2), (3, 1, 2), (1, 3, 3)]):
            E.explore(f"equations [{N} fields, dimension {d}, orders to {top}]", equations(E, d, N, top), m + "ModelBuilder._make_pseudo_algebaraic_system")
        E.functions += [m + n for n in ("ModelBuilder._make_trend_code", "ModelBuilder.__init__", "MetaFunction", "MetaPrognosticFunction", "MetaConstant", "MetaCoordinate")]
