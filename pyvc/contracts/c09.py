"""C09: a PDE system sorts every function and symbol into its right role.

The real PDESystem runs on equations known through their atoms only: the right-hand side of each equation is an arbitrary expression
containing the prognostic functions or not, one arbitrary field (of any arguments) and another one, coordinates, constants, trainable
scalars and derivatives with arbitrary (symbolic) orders; every pattern of occurrence is followed, and `atoms` enumerates in any order."""
import itertools
import engine, cas
from cas import sym, FnSym, Tup, asx
from engine import VSet, VList, SInt, zterm, Unsupported
from . import symb
import z3


class El:
    vc_frozen = True
    kinds = ()
    args = ()
    def vc_isinstance(self, classes): return any(is_kind(self, c) for c in classes)


def is_kind(x, c):
    if isinstance(x, Scalar): return getattr(c, "__name__", "") == x.cls or c is cas.Symbol or c is cas.Expr
    if isinstance(x, Trainable): return getattr(c, "__name__", "") == "TrainableScalar" or c is cas.Symbol or c is cas.Expr
    if getattr(c, "__name__", "") == "TrainableScalar": return False
    ks = cas.kinds_of(c)
    if isinstance(x, El): return any(k in ks for k in x.kinds)
    return x.vc_isinstance((c,)) if hasattr(x, "vc_isinstance") else False


class Trainable(El):
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def vc_str(self): return self.name


class Scalar(El):
    """symbol of another class (ScalarSymbol, FunctionSymbol, a class of the user)"""
    def __init__(self, name, cls): self.name, self.cls = name, cls
    def __repr__(self): return self.name
    def vc_str(self): return self.name


class Exp(El):
    """expectation of an arbitrary random expression"""
    kinds = ("Expectation", "Function", "Expr")
    def __init__(self, name, symbols): self.name, self.symbols = name, symbols
    def atoms(self, *classes): return pick(self.symbols + [sym("omega")], classes)
    @property
    def free_symbols(self): return set(self.symbols)
    def vc_str(self): return self.name
    def __repr__(self): return self.name


class Pair(tuple):
    vc_frozen = True
    def atoms(self, *classes): return pick([self[0]], classes)
    @property
    def free_symbols(self): return {self[0]}
    def has(self, *v): return any(self[0] == q for q in v)


class Der(El):
    """derivative of an arbitrary expression"""
    kinds = ("Derivative", "Expr")
    def __init__(self, name, expr, vc): self.name, self.expr, self.variable_count = name, expr, tuple(Pair(p) for p in vc); self.args = (expr,) + self.variable_count
    @property
    def derivative_count(self): return sum(n for _, n in self.variable_count)
    @property
    def variables(self): return tuple(v for v, _ in self.variable_count)
    def atoms(self, *classes): return pick([v for v, _ in self.variable_count], classes)
    def vc_str(self): return self.name
    def __repr__(self): return self.name


def pick(elements, classes):
    if not classes: raise Unsupported("atoms")
    return Atoms([e for e in elements if any(is_kind(e, c) for c in classes)])


class Atoms(VSet):
    """a set enumerated in one order or the other"""
    flip = False
    def __iter__(self): return iter(sorted(set.__iter__(self), key=str, reverse=Atoms.flip))
    def pop(self):
        e = next(iter(self)); self.discard(e)
        return e


class Side(El):
    """arbitrary expression with the given atoms"""
    kinds = ("Expr",)
    def __init__(self, elements): self.elements = list(dict.fromkeys(elements))
    def atoms(self, *classes): return pick(self.elements, classes)
    @property
    def free_symbols(self): return self.atoms(cas.Symbol)


class Eqn(El):
    kinds = ("Eq", "Equality", "Relational")
    def __init__(self, lhs, rhs): self.lhs, self.rhs = lhs, rhs; self.args = (lhs, rhs)
    def atoms(self, *classes):
        l = cas_atoms(self.lhs) + self.rhs.elements
        return pick(list(dict.fromkeys(l)), classes)
    @property
    def free_symbols(self): return self.atoms(cas.Symbol)


def cas_atoms(x):
    return [x, x.args[0]] + list(x.args[0].args)


def util():
    W = symb.world()
    return W, W.load("vsympkf.symbolic.util"), W.load("vsympkf.symbolic.random")


COORDS = {0: [()], 1: [("x",)], 2: [("x", "y"), ("y", "x")], 3: [("z", "x", "\\theta")]}


def prognostic(E, N, d, vary=False):
    """the prognostic functions: of time and some of the coordinates in their order, one at least of all of them"""
    cs = E.choose(COORDS[d]) if vary or N == 1 else COORDS[d][0]
    full = E.choose(list(range(N))) if vary or N < 3 else 1
    P = []
    for i, n in enumerate("uvw"[:N]):
        sub = cs if i == full else (E.choose([cs, cs[1:], cs[:-1], ()] if d > 1 else [cs, ()] if d else [()]) if vary else cs[1:])
        P.append(FnSym(n)(sym("t"), *[sym(c) for c in sub]))
    return [sym(c) for c in cs], P


def check(E, S, crd, P, eqs):
    t = sym("t")
    fields, syms, ders, trainable = set(), set(), set(), set()
    for e in eqs:
        l = cas_atoms(e.lhs) + e.rhs.elements
        fields |= {v for v in l if is_kind(v, cas.AppliedUndef) or isinstance(v, Exp)}
        syms |= {v for v in e.rhs.elements if is_kind(v, cas.Symbol)}
        trainable |= {v for v in e.rhs.elements if isinstance(v, Trainable)}
        ders |= {v for v in e.rhs.elements if isinstance(v, Der)}
    has_t = lambda f: t in (f.symbols if isinstance(f, Exp) else f.args)
    others = fields - set(P)
    eq = lambda a, b: set(a) == b
    d = lambda: str([(e.lhs, e.rhs.elements) for e in eqs])[:500]
    E.prove("the prognostic functions are the functions differentiated in time, in equation order", list(S.prognostic_functions) == P, detail=d() + f" -> {list(S.prognostic_functions)}")
    E.prove("the functions are all the fields", eq(S.functions, fields), detail=d())
    E.prove("the constant functions are the other fields whose arguments do not include time", eq(S.constant_functions, {f for f in others if not has_t(f)}), detail=d() + f" -> {set(S.constant_functions)}")
    E.prove("the exogenous functions are the other fields whose arguments include time", eq(S.exogenous_functions, {f for f in others if has_t(f)}), detail=d() + f" -> {set(S.exogenous_functions)}")
    E.prove("the three sets partition the fields", len(list(S.prognostic_functions)) + len(list(S.constant_functions)) + len(list(S.exogenous_functions)) == len(fields), detail=d())
    E.prove("the coordinates are time first, then the spatial coordinates", tuple(S.coordinates) == (t,) + tuple(crd) and tuple(S.spatial_coordinates) == tuple(crd) and S.time_coordinate == t, detail=d() + f" -> {S.coordinates}")
    E.prove("the constants are the symbols of the right-hand sides that are neither coordinates nor trainable", eq(S.constants, syms - trainable - {t} - set(crd)), detail=d() + f" -> {set(S.constants)}")
    E.prove("the trainable scalars of the right-hand sides are all listed", eq(S.trainable_scalars, trainable), detail=d() + f" -> {set(S.trainable_scalars)}")
    E.prove("the derivatives of the right-hand sides are all listed", eq(S.spatial_derivatives, ders), detail=d() + f" -> {set(S.spatial_derivatives)}")
    m = zterm(S.derivative_max_order)
    counts = [z3.IntVal(0)] + [zterm(v.derivative_count) for v in ders]
    E.prove("the maximal order is that of a derivative, or zero, and no order is larger", z3.And(z3.Or([m == c for c in counts]), *[m >= c for c in counts]), detail=d())
    E.prove("the equations are those given, in order", list(S.equations) == list(eqs) and [e for e in S] == list(eqs) and all(S[k] is e for k, e in enumerate(eqs)))


def build(E, U, P, sides):
    Atoms.flip = E.choose([False, True])
    eqs = [Eqn(cas.Derivative(p, sym("t")), Side(s)) for p, s in zip(P, sides)]
    arg = VList(list(eqs)) if len(eqs) > 1 or E.choose([0, 1]) else eqs[0]
    S = U.PDESystem(arg)
    if len(eqs) > 1: E.prove("the list given is left alone", len(arg) == len(eqs) and all(a is b for a, b in zip(arg, eqs)))
    return eqs, S


def fields(E, N, d):
    def run():
        W, U, R = util()
        crd, P = prognostic(E, N, d)
        t, w = sym("t"), [FnSym("any")]
        c = crd[-1:] if crd else []
        kind = E.choose(["field", "expectation"])
        args = E.choose([tuple(crd), (t, *crd), (*crd, t), (t,), tuple(c), (*c, t)] if d else [(t,), ()] if kind == "expectation" else [(t,)])
        if kind == "field":
            if not args: raise engine.PathDone()
            f = FnSym("any")(*args)
        else: f = Exp("E[any]", list(args))
        g = FnSym("other")(*E.choose([(t, *crd), tuple(crd)] if d else [(t,)]))
        sides = []
        where = E.choose([p for p in itertools.product([0, 1], repeat=N)])
        rest = E.choose(["none", "all", "first", "last"] if N > 1 else ["none", "all"])
        for i in range(N):
            s = [f] if where[i] else []
            if rest == "all" or rest == "first" and i == 0 or rest == "last" and i == N - 1: s += [g] + P[::-1]
            sides.append(s + (list(args) if where[i] else []))
        eqs, S = build(E, U, P, sides)
        check(E, S, crd, P, eqs)
    return run


def arguments(E, N, d):
    def run():
        W, U, R = util()
        crd, P = prognostic(E, N, d, True)
        f = FnSym("any")(*crd) if crd else sym("k")
        sides = E.choose([[[] for p in P], [[p, f, *crd] for p in P], [P + [f, sym("k")] + crd for p in P]])
        eqs, S = build(E, U, P, sides)
        check(E, S, crd, P, eqs)
    return run


def symbols_(E, N, d):
    def run():
        W, U, R = util()
        crd, P = prognostic(E, N, d)
        k, k2, a, b = sym("k"), sym("\\kappa"), Trainable("a"), Trainable("b")
        el = E.choose([k, a, sym("t"), Scalar("s", "ScalarSymbol"), Scalar("f", "FunctionSymbol"), Scalar("o", "UserSymbol")] + crd)
        sides = []
        where = E.choose([p for p in itertools.product([0, 1], repeat=N)])
        rest = E.choose(list(range(3)))
        for i in range(N):
            s = [el] if where[i] else []
            s += [[], [k2, a], [P[0], sym("t"), *crd, b, k]][(rest + i) % 3]
            sides.append(s)
        eqs, S = build(E, U, P, sides)
        check(E, S, crd, P, eqs)
    return run


def derivatives(E, N, d):
    def run():
        W, U, R = util()
        crd, P = prognostic(E, N, d)
        n = [E.int(f"order{j}") for j in range(3)]
        for v in n: E.assume(v.z >= 1)
        D1 = Der("D1", Side([P[0]]), [(crd[0], n[0])])
        D2 = Der("D2", E.choose([P[-1], Side([P[-1]])]), [(crd[-1], n[1])] + ([(crd[0], n[2])] if d > 1 else []))
        sides = []
        for i in range(N):
            s = ([D1] if E.choose([0, 1]) else []) + ([D2] if E.choose([0, 1]) else [])
            sides.append(s + ([P[0], P[-1]] + crd if s else []))
        eqs, S = build(E, U, P, sides)
        check(E, S, crd, P, eqs)
    return run


def verify(E):
    E.trusted += ["sympy.Basic.atoms (the set of the atoms of a kind, in any order)", "python sets"]
    E.assumptions += ["each equation is solved for the time derivative of one function; one prognostic function depends on all the coordinates (precondition)",
                      "any number of equations (N symbolic, loops cut by invariants): the element of interest is arbitrary; each time derivative is of order one, its function has time first",
                      "with the elements and their positions spelled out (exact sets, any left-hand side of the shapes listed): 1 to 3 equations, 0 to 3 coordinates (shape bounds)"]
    m = "sympkf.symbolic.util.PDESystem."
    from . import c09n
    c09n.verify(E)
    for N, d in [(1, 0), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2)] + ([(3, 1)] if E.tier == "quick" else [(2, 3), (3, 1), (3, 2)]):
        tag = f"[{N} equations, {d} coordinates]"
        E.explore(f"fields {tag}", fields(E, N, d), m + "_get_functions")
        if N > 1: E.explore(f"coordinates {tag}", arguments(E, N, d), m + "_get_coordinates")
        E.explore(f"symbols {tag}", symbols_(E, N, d), m + "_get_constants")
        if d: E.explore(f"derivatives {tag}", derivatives(E, N, d), m + "_get_spatial_derivatives")
    E.functions += [m + n for n in ("__init__", "_get_prognostic_functions", "_get_constant_functions", "_get_exogenous_functions", "_get_coordinates", "_get_spatial_coordinates", "_get_trainable_scalars", "__iter__", "__getitem__")]
