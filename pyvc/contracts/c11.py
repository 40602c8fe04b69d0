"""C11: the trend of a generated model is the right-hand side with periodic differences.

Modular part (arbitrary right-hand sides): the templates are rendered by the real builder with, for each derivative and each
equation, a call that receives the variables of the program; when it is evaluated these variables must hold the fields at the grid
points, the constants, the exogenous fields computed for this time and state, and the derivatives; what the calls return (arbitrary arrays)
must be what the trend returns, in the order of the equations; state and supplied fields must be left alone.
Function by function (contracts/builder.py): names of derivatives of arbitrary orders, the pseudo algebraic system and the lines of code of
arbitrary right-hand sides.
Whole programs: for given systems of equations (curated and random) the generated program is executed for all states, grids, constants
and supplied fields, and compared with the right-hand sides in which each derivative is replaced by its finite-difference version (C10)."""
import sympy
import engine
from engine import Unsupported, SInt
from .gencode import *
from . import builder
from models_np import mp_model


def S(n): return sympy.Symbol(n)


def field(name, axes, real=True):
    f = sympy.Function(name)
    full = range(10)
    return GA(Cell(lambda s: f(*[sympy.Integer(s[a]) for a in axes]), real), axes)


def instance(cls, crd, axes, extra):
    """model whose constructor satisfies its contract (C12)"""
    class M(cls): pass
    M.__name__ = cls.__name__
    for k in extra: 
        if callable(extra[k]) and not isinstance(extra[k], (GA, Scalar)): setattr(M, k, extra[k])
    m = object.__new__(M)
    for k, v in extra.items():
        if not (callable(v) and not isinstance(v, (GA, Scalar))): setattr(m, k, v)
    return m


def common(dim, crd):
    E = engine.CUR
    asked = []
    def index(self, coord, step):
        if coord not in crd: raise Unsupported("index of an unknown coordinate")
        if not isinstance(step, int): raise Unsupported("symbolic shift")
        return Shift(list(crd).index(coord), step)
    shape = tuple(E.int(f"n{i}") for i in range(dim))
    for n in shape: E.assume(n >= 1)
    return dict(index=index, dx=tuple(Scalar(S(f"dx@{i}")) for i in range(dim)), shape=shape, lengths=tuple(Scalar(S(f"L@{i}")) for i in range(dim)))


def at0(dim): return (0,) * dim


class Space:
    """an arbitrary manifold: diff(f, c1, n1, ...) is some function of f and of the orders"""
    vc_frozen = True
    def __init__(self, dim): self.dimension, self.calls = dim, []
    def diff(self, f, *orders):
        if len(orders) % 2 or not isinstance(f, GA): raise Unsupported("diff")
        o = {}
        for c, n in zip(orders[::2], orders[1::2]): o[c] = o.get(c, 0) + n
        name = "diff(" + ", ".join(f"{c}:{n}" for c, n in sorted(o.items())) + ")"
        return GA.combine(sympy.Function(name), f, real=True)


def again(E, m, r, p, axes):
    """the trend that was returned does not change when the trend is computed for another state"""
    if not isinstance(r, State): return
    first = [c.at(at0(len(axes))) for c in r.cells]
    other = State([Cell(lambda s, f=sympy.Function("later" + str(i)): f(*s), True) for i in range(len(p["P"]))], axes, True)
    names = [n if isinstance(n, str) else n[0] for n in p["E"]]
    class Later(type(m)):
        def compute_exogenous(self, time, state): return [field("later" + n, axes) for n in names]
        def vc_derivative(self, j, *a): return field("laterD" + str(j), axes)
        def vc_rhs(self, i, *a): return field("laterrhs" + str(i), axes)
    m.__class__ = Later
    r2 = m.trend(Scalar(S("later")), other)
    m.__class__ = Later.__bases__[0]
    ok = isinstance(r2, State) and not ({id(c) for c in r2.cells} & {id(c) for c in r.cells}) and [c.at(at0(len(axes))) for c in r.cells] == first
    E.prove("a trend is not changed by the computation of another one", ok, detail=p["label"])


def same_values(E, name, got, want, detail):
    r = decide_equal(got, want)
    E.prove(name, r is True, detail="" if r else f"{detail}: {got} instead of {want}"[:1400], weak=r is None, backend="exact normal form (sympy)")
    return r


def stub(E, p):
    def run():
        dim = len(p["coords"]); axes = tuple(range(dim))
        prog = load_program(p["code"], {"numpy": trend_numpy(), "multiprocessing": mp_model()})
        cls = getattr(prog, p["cls"])
        real = E.choose([True, False])
        state = State([Cell(lambda s, f=sympy.Function("state" + str(i)): f(*s), real) for i in range(len(p["P"]))], axes, real)
        before = [c.at for c in state.cells]
        sup = {n: field(n, axes) for n in p["C"] + p["E"]}
        keep = {n: g.cell.at for n, g in sup.items()}
        time = Scalar(S("time"))
        log = []
        def check(args, names, what):
            for n, v in zip(names, args):
                if n in p["P"]: ok = isinstance(v, GA) and v.cell.at(at0(dim)) == sympy.Function("state" + str(p["P"].index(n)))(*at0(dim))
                elif n in sup: ok = isinstance(v, GA) and v.cell.at(at0(dim)) == sympy.Function(n)(*at0(dim))
                elif n in p["K"]: ok = isinstance(v, Scalar) and v.e == S(n)
                else: ok = isinstance(v, GA) and v.cell.at(at0(dim)) == sympy.Function("val" + n)(*at0(dim))
                E.prove(f"the variables hold what they are named after when {what}", ok, detail="" if ok else f"{n} in {p['label']}")
        def derivative(self, j, t, st, *a):
            log.append(("d", j))
            E.prove("time and state are those of the trend", t is time and st is state)
            check(a, p["P"] + p["C"] + p["E"] + p["K"], "the derivatives are computed")
            return field("valD" + str(j), axes)
        def rhs(self, i, t, st, *a):
            log.append(("r", i))
            E.prove("time and state are those of the trend", t is time and st is state)
            check(a, p["P"] + p["C"] + p["E"] + p["K"] + p["D"], "the equations are computed")
            return field("rhs" + str(i), axes)
        def exo(self, t, st):
            log.append(("e", None))
            E.prove("exogenous fields are computed for the time and state of the trend", t is time and st is state)
            return [sup[n] for n in p["E"]]
        extra = common(dim, p["coords"])
        if p["builder"] == "M": extra = {"base_space": Space(dim)}
        extra.update({n: sup[n] for n in p["C"]}); extra.update({n: Scalar(S(n)) for n in p["K"]})
        extra.update(vc_derivative=derivative, vc_rhs=rhs)
        if p["E"]: extra["compute_exogenous"] = exo
        m = instance(cls, p["coords"], axes, extra)
        E.prove("the components are those of the prognostic functions, in order", tuple(cls.prognostic_functions) == tuple(p["P"]), detail=str(p["label"]))
        if p["E"]: E.prove("the exogenous fields are declared in order", tuple(cls.exogenous_functions) == tuple(p["E"]))
        try: r = m.trend(time, state)
        except (NameError, IndexError, KeyError) as e:
            E.prove("the program runs", False, detail=f"{type(e).__name__}: {e}: {p['label']}")
            return
        again(E, m, r, p, axes)
        if not {("r", i) for i in range(len(p["P"]))} <= set(log): raise Unsupported("the code of the equations is not used as it is")
        ok = isinstance(r, State) and len(r) == len(p["P"]) and r.axes == axes
        E.prove("the trend has the shape of the state", ok, detail=p["label"])
        if ok:
            for i, c in enumerate(r.cells):
                v = c.at(at0(dim))
                E.prove("each component of the trend is the value of its equation", v == sympy.Function("rhs" + str(i))(*at0(dim)), detail=f"{v} in component {i} of {p['label']}")
            E.prove("the trend is not an alias of the state", not ({id(c) for c in r.cells} & {id(c) for c in state.cells}))
        E.prove("the state is not modified", all(c.at is b and not c.writes for c, b in zip(state.cells, before)), detail=p["label"])
        E.prove("the supplied fields are not modified", all(g.cell.at is keep[n] and not g.cell.writes for n, g in sup.items()), detail=p["label"])
    return run


def sym_world(p):
    """names for sympify"""
    return {"TrainableScalar": lambda n, **k: sympy.Symbol(n), "ScalarSymbol": sympy.Symbol, "FunctionSymbol": sympy.Symbol}


def expected(p, dim, manifold):
    """right-hand sides at the grid point, each derivative replaced by its finite-difference version"""
    ns = sym_world(p)
    parse = lambda s: sympy.sympify(s, locals=ns)
    crd = [sympy.Symbol(c) for c in p["symcoords"]]
    inc = {sympy.Symbol("d" + c): i for i, c in enumerate(p["symcoords"])}
    fields = {}
    for tag, l in (("state", p["P"]), ("", p["C"]), ("", p["E"])):
        for i, (n, sname, args) in enumerate(l): fields[sname] = (("state" + str(i)) if tag else n, [p["symcoords"].index(a) for a in args if a != "t"], args)
    K = {sympy.Symbol(sname): S("const@" + n) for n, sname in p["K"]}
    from sympy.core.function import AppliedUndef
    def grid(e):
        """fields at shifted points -> values at shifted grid points"""
        rep = {}
        for f in e.atoms(AppliedUndef):
            nm, axes, args = fields[str(f.func)]
            ks = []
            for a, q in zip(f.args, args):
                if q == "t": continue
                k = sympy.expand((a - sympy.Symbol(q)) / sympy.Symbol("d" + q))
                if not k.is_Integer: raise Unsupported("off the grid")
                ks.append(k)
            rep[f] = sympy.Function("@" + nm)(*ks)
        e = e.xreplace(rep)
        e = e.xreplace({s: S(f"dx@{i}") for s, i in inc.items()})
        return e.replace(lambda q: isinstance(q, AppliedUndef) and str(q.func).startswith("@"), lambda q: sympy.Function(str(q.func)[1:])(*q.args))
    out = []
    fd = {parse(k): parse(v) for k, v in p["fd"].items()}
    for r in p["rhs"]:
        r = parse(r)
        D, vals = {}, {}
        for j, d in enumerate(sorted(r.atoms(sympy.Derivative), key=str)):
            s = sympy.Symbol(f"derivative@{j}"); D[d] = s
            if manifold:
                f = grid(d.expr)
                o = {}
                for v, n in d.variable_count: o[str(v)] = o.get(str(v), 0) + int(n)
                names = dict(zip(p["symcoords"], p["coords"]))
                vals[s] = sympy.Function("diff(" + ", ".join(f"{c}:{n}" for c, n in sorted((names[c], n) for c, n in o.items())) + ")")(f)
            else: vals[s] = grid(fd[d])
        e = r.xreplace(D)
        # constants and fields of the rest, then the derivatives (so that nothing is captured)
        e = grid(e.xreplace(K)) if K else grid(e)
        out.append(e.xreplace(vals))
    return out


def program(E, p):
    def run():
        dim = len(p["coords"]); axes = tuple(range(dim))
        manifold = p["builder"] == "M"
        prog = load_program(p["code"], {"numpy": trend_numpy(), "multiprocessing": mp_model()})
        cls = getattr(prog, p["cls"])
        real = E.choose([True, False])
        n = len(p["P"])
        ax = lambda args: tuple(p["symcoords"].index(a) for a in args if a != "t")
        state = State([Cell(lambda s, f=sympy.Function("state" + str(i)), a=ax(q[2]): f(*[sympy.Integer(s[k]) for k in a]), real) for i, q in enumerate(p["P"])], axes, real)
        before = [c.at for c in state.cells]
        sup = {q[0]: GA(Cell(lambda s, f=sympy.Function(q[0]), a=ax(q[2]): f(*[sympy.Integer(s[k]) for k in a]), True), ax(q[2])) for q in p["C"] + p["E"]}
        # the functions of the coordinates in another order than those of the system are arrays on the axes of the system
        keep = {k: g.cell.at for k, g in sup.items()}
        for g in sup.values(): g.axes = axes if set(g.axes) == set(axes) else g.axes
        time = Scalar(S("time"))
        extra = common(dim, p["coords"])
        if manifold: extra = {"base_space": Space(dim)}
        extra.update({q[0]: sup[q[0]] for q in p["C"]}); extra.update({k[0]: Scalar(S("const@" + k[0])) for k in p["K"]})
        if p["E"]:
            def exo(self, t, st):
                E.prove("exogenous fields are computed for the time and state of the trend", t is time and st is state)
                return [sup[k] for k in cls.exogenous_functions]
            extra["compute_exogenous"] = exo
            E.prove("the exogenous fields are declared", sorted(cls.exogenous_functions) == sorted(q[0] for q in p["E"]), detail=p["text"])
        m = instance(cls, p["coords"], axes, extra)
        E.prove("the components are those of the equations, in order", tuple(cls.prognostic_functions) == tuple(q[0] for q in p["P"]), detail=p["text"])
        E.prove("the coordinates are those of the fields", tuple(cls.coordinates) == tuple(p["coords"]), detail=p["text"])
        try: r = m.trend(time, state)
        except (NameError, IndexError, KeyError) as e:
            E.prove("the program runs", False, detail=f"{type(e).__name__}: {e}: {p['text']}")
            return
        except WrongAxis as e:
            E.prove("fields are shifted along the axis of each coordinate", False, detail=f"{e}: {p['text']}")
            return
        ok = isinstance(r, State) and len(r) == n
        E.prove("the trend has the shape of the state", ok, detail=p["text"])
        if ok:
            for i, (c, w) in enumerate(zip(r.cells, expected(p, dim, manifold))):
                same_values(E, "the trend is the right-hand side with its derivatives discretized", c.at(at0(dim)), w, f"component {i} of {p['text']}")
        E.prove("the state is not modified", all(c.at is b and not c.writes for c, b in zip(state.cells, before)), detail=p["text"])
        E.prove("the supplied fields are not modified", all(g.cell.at is keep[k] and not g.cell.writes for k, g in sup.items()), detail=p["text"])
    return run


def verify(E):
    import os
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = getattr(E, "tier", "quick") == "thorough"
    E.trusted += ["numpy: element-wise arithmetic over the reals, indexing by np.ix_ of index arrays; jinja2 and the interpreter of the repository render the programs",
                  "finite_difference (C10)",
                  "sympy (normal forms) decides the equality of values"]
    E.assumptions += ["modular part: arbitrary right-hand sides, shapes bounded (1-3 equations, 0-2 constant functions, exogenous fields, constants, derivatives); whole programs: a finite set of systems, each for all states, grids and constants",
                      "the floats of the programs stand for the simple rationals they print"]
    builder.verify(E, False)
    progs = generate(E, seed, (60, 30, 8) if thorough else (14, 8, 2), "grids", "stubs", "systems", "burgers")
    for p in progs:
        if p["kind"] == "error": E.undecided.append(f"{p['label']}: {p['error']}")
    tags = {"FD": "FDModelBuilder", "M": "ManifoldModelBuilder"}
    for B in ("FD",):
        for nP in (1, 2, 3):
            l = [p for p in progs if p["kind"] == "stub" and p["builder"] == B and len(p["P"]) == nP]
            def one(l=l):
                stub(E, E.choose(l))()
            if l: E.explore(f"{tags[B]}: trend of {nP} equation{'s' if nP > 1 else ''}, arbitrary right-hand sides", one, f"templates of {tags[B]} (trend)")
        for p in progs:
            if p["kind"] == "system" and p["builder"] == B: E.explore(f"{tags[B]}: {p['label']}", program(E, p), f"sympkf.symbolic.{tags[B]}.code")
    # the callees in the template: the constructor and `index` satisfy the contract used by `instance` and `common`
    from . import c12
    for p in progs:
        if p["label"].startswith("grid") and p["builder"] == "FD" and p["kind"] != "error":
            dim = len(p["coords"])
            E.explore(f"{p['label']}: constructor", c12.grid(E, p), "templates of FDModelBuilder (constructor, index)")
            if not p["K"]: E.explore_n(f"{p['label']}: index", c12.indices(E, p, dim), "templates of FDModelBuilder (constructor, index)", sizes=(0, 1, 2) if dim < 3 else (0, 1))
    for p in progs:
        if p["label"] == "burgers" and p["kind"] == "system":
            def bur(p=p):
                E.prove("the ready-made Burgers equations are those of the filter with its closure", p["closed"] and p["order"], detail=p["residue"])
                E.prove("the ready-made model is generated from them", p["model"]["prognostic"] == [q[0] for q in p["P"]] and p["model"]["shape"] == [12], detail=str(p["model"]))
            E.explore("Burgers: closed equations", bur, "sympkf.dynamics.burgers.Burgers")
