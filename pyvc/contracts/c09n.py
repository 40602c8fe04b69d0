"""C09 for any number of equations.

N equations (N symbolic), each the time derivative of its own prognostic function against an arbitrary right-hand side, given as a
list.  The sets computed by PDESystem are known for one arbitrary element (the witness) of each kind: a prognostic function, another
field with or without time, an expectation, a symbol, a trainable scalar, a derivative of any order; whether it occurs in the right-hand
side of an equation is an arbitrary predicate of the number of the equation.  The loops over the equations are cut by invariants
(membership accumulated so far, list of the first k prognostic functions, longest arguments so far); see points.py for the sets."""
import z3
import engine, cas, points
from cas import sym
from engine import SInt, SBool, VList, SymSeq, Unsupported, Candidate, Poison, zterm
from points import PSet, World_, Image, NOW, Never, Accumulated
from . import symb
from .c09 import El, Pair, Trainable, Scalar, is_kind, Side as Opaque

Len = z3.Function("number of arguments", z3.IntSort(), z3.IntSort())
Max = z3.Function("longest so far", z3.IntSort(), z3.IntSort())


class Has:
    """symbols of an element, known for time only"""
    vc_frozen = True
    def __init__(self, time): self.time = time
    def vc_contains(self, x):
        if x == sym("t"): return SBool(self.time)
        raise Unsupported("symbols of a field")
    def __iter__(self): raise Unsupported("symbols of a field")
    def __len__(self): raise Unsupported("symbols of a field")


class Args:
    """arguments of the j-th prognostic function: time first"""
    vc_frozen = True
    def __init__(self, j): self.j = j
    def vc_len(self): engine.CUR.assume(Len(self.j) >= 1); return SInt(Len(self.j))
    def __getitem__(self, i):
        if isinstance(i, int) and i == 0: return sym("t")
        if isinstance(i, slice) and i == slice(1, None): return Tail(self.j)
        raise Unsupported("argument of a prognostic function")
    def vc_contains(self, x):
        if x == sym("t"): return True
        raise Unsupported("argument of a prognostic function")
    def __len__(self): raise Unsupported("number of arguments")
    def __iter__(self): raise Unsupported("arguments of a prognostic function")
    def __bool__(self): return True
    def __eq__(self, o): raise Unsupported("comparison of arguments")
    __hash__ = None


class Tail:
    vc_frozen = True
    def __init__(self, j): self.j = j
    def vc_len(self): return SInt(Len(self.j) - 1)
    def __iter__(self): raise Unsupported("arguments of a prognostic function")


class Prog(El):
    """the j-th prognostic function"""
    kinds = ("AppliedUndef", "Function", "Expr")
    def __init__(self, j): self.j = j
    @property
    def args(self): return Args(self.j)
    def atoms(self, *c):
        if any(q is cas.Symbol for q in c) and len(c) == 1: return Has(z3.BoolVal(True))
        raise Unsupported("atoms of a function")
    @property
    def free_symbols(self): return Has(z3.BoolVal(True))
    def has(self, x):
        if x == sym("t"): return True
        raise Unsupported("has")
    def __eq__(self, o): return SBool(self.j == o.j) if isinstance(o, Prog) else False
    __hash__ = El.__hash__
    def __repr__(self): return f"P[{self.j}]"


class Field(El):
    kinds = ("AppliedUndef", "Function", "Expr")
    def __init__(self, time): self.time = time
    @property
    def args(self): return Has(self.time)
    def atoms(self, *c):
        if any(q is cas.Symbol for q in c) and len(c) == 1: return Has(self.time)
        raise Unsupported("atoms of a function")
    @property
    def free_symbols(self): return Has(self.time)
    def has(self, x):
        if x == sym("t"): return SBool(self.time)
        raise Unsupported("has")


class Expec(Field):
    kinds = ("Expectation", "Function", "Expr")


class Coordinate(El):
    """an arbitrary spatial coordinate of the system"""
    kinds = ("Symbol", "Expr")


class Constant(El):
    kinds = ("Symbol", "Expr")


class Deriv(El):
    """derivative of an arbitrary expression, first variable not time, any order"""
    kinds = ("Derivative", "Expr")
    def __init__(self, n): self.n = n; self.expr = Opaque([]); self.args = (self.expr, Pair((sym("some coordinate"), SInt(n))))
    @property
    def derivative_count(self): return SInt(self.n)
    @property
    def variable_count(self): raise Unsupported("variables of a derivative")
    def has(self, x): raise Unsupported("has")


class Lhs(El):
    """time derivative of the j-th prognostic function"""
    kinds = ("Derivative", "Expr")
    def __init__(self, j): self.j = j; self.expr = Prog(j); self.args = (self.expr, Pair((sym("t"), 1))); self.derivative_count = 1
    def __repr__(self): return f"D(P[{self.j}],t)"


def tag_of(classes):
    names = {n for c in classes for n in cas.kinds_of(c)} | {getattr(c, "__name__", "") for c in classes}
    if "Derivative" in names: return "derivative" if len(classes) == 1 else "mixed"
    if names & {"AppliedUndef", "Expectation"} and not any(c is cas.Symbol for c in classes): return "field"
    return "symbol" if all(c is cas.Symbol or getattr(c, "__name__", "") in ("TrainableScalar", "Symbol") for c in classes) else "mixed"


def system(E, kind):
    """(witness, equations, predicates of the occurrence of the witness in the k-th equation and in its right-hand side)"""
    N = E.int("N"); E.assume(N.z >= 1)
    full, d = E.int("full"), E.int("d")
    E.assume(z3.And(full.z >= 0, full.z < N.z, d.z >= 0))
    R = z3.Function("in the right-hand side of", z3.IntSort(), z3.BoolSort())
    Left = z3.Function("in the left-hand side of", z3.IntSort(), z3.BoolSort())
    time = z3.Bool("has time")
    n = E.int("order"); E.assume(n.z >= 1)
    p = E.int("p"); E.assume(z3.And(p.z >= 0, p.z < N.z))
    e = {"prognostic": lambda: Prog(p.z), "field": lambda: Field(time), "expectation": lambda: Expec(time), "time": lambda: sym("t"), "coordinate": Coordinate, "constant": Constant,
         "other class": lambda: Scalar("s", "UserSymbol"), "trainable": lambda: Trainable("a"), "derivative": lambda: Deriv(n.z), "left-hand side": lambda: Lhs(p.z)}[kind]()
    rhs = lambda k: z3.BoolVal(False) if kind == "left-hand side" else R(k)
    left = {"prognostic": lambda k: k == p.z, "left-hand side": lambda k: k == p.z, "time": lambda k: z3.BoolVal(True), "coordinate": lambda k: Left(k)}.get(kind, lambda k: z3.BoolVal(False))
    both = lambda k: z3.Or(rhs(k), left(k))
    def holds_kind(classes):
        if kind in ("prognostic", "field", "expectation", "derivative", "left-hand side", "coordinate", "constant"):
            if any(getattr(c, "__name__", "") == "TrainableScalar" for c in classes) and len(classes) == 1: return False
        return any(is_kind(e, c) for c in classes)
    def atoms(where, k, classes, left_too):
        if not classes: raise Unsupported("atoms")
        t = tag_of(classes)
        m = where(k) if holds_kind(classes) else z3.BoolVal(False)
        marked = [Lhs(k)] if left_too and t in ("derivative",) and kind != "left-hand side" else []
        if left_too and kind == "left-hand side" and t == "derivative":
            # the witness is the left-hand side of this equation, or not
            if bool(SBool(k == p.z)): m = z3.BoolVal(True)
            else: m, marked = z3.BoolVal(False), [Lhs(k)]
        return PSet(member=m, marked=marked, tag=t if t != "mixed" else ("mixed",))
    class Rhs(El):
        kinds = ("Expr",)
        def __init__(self, k): self.k = k
        def atoms(self, *classes): return atoms(rhs, self.k, classes, False)
        @property
        def free_symbols(self): return self.atoms(cas.Symbol)
    class Eqn(El):
        kinds = ("Eq", "Equality", "Relational")
        def __init__(self, k): self.k = k; self.lhs, self.rhs = Lhs(k), Rhs(k); self.args = (self.lhs, self.rhs)
        def atoms(self, *classes): return atoms(both, self.k, classes, True)
        @property
        def free_symbols(self): return self.atoms(cas.Symbol)
    seq = SymSeq(N, lambda k: Eqn(zterm(k)))
    # exactly one distinct prognostic function per equation; the full arguments have d+1 entries, no function has more
    # (Max(N), the longest of all by recursion, is no less than the length of any: induction of `lemmas`)
    E.assume(z3.And(Len(full.z) == d.z + 1, Max(N.z) >= Len(full.z)))
    def other(tag):
        if tag == "derivative":
            m = E.int("order"); E.assume(m.z >= 1)
            return Deriv(m.z)
        if tag == "field":
            w = E.choose(["field", "expectation", "prognostic"])
            if w != "prognostic": return (Field if w == "field" else Expec)(z3.Bool(E.name("other has time")))
            j = E.int("j"); E.assume(z3.And(j.z >= 0, j.z < N.z, j.z != p.z) if kind == "prognostic" else z3.And(j.z >= 0, j.z < N.z))
            return Prog(j.z)
        if tag == "symbol": return E.choose([Constant(), Coordinate(), Trainable("b"), Scalar("s2", "UserSymbol")])
        raise Unsupported("arbitrary element of a set")
    def equal(x):
        if x is e: return True
        if kind == "time": return x == sym("t")
        if kind == "prognostic" and isinstance(x, Prog): return x.j == p.z
        if kind == "left-hand side" and isinstance(x, Lhs): return x.j == p.z
        return False
    def sequence(s):
        if isinstance(s, VList) and getattr(s.base, "tag", "") == "prognostic":
            q = [tobool_(equal(v)) for v in list.__iter__(s)]
            return z3.Or(z3.And(p.z < zterm(s.base.length), z3.BoolVal(kind == "prognostic")), *q)
        if isinstance(s, Args):
            if kind == "time": return z3.BoolVal(True)
            if kind == "coordinate":
                # the arguments of one function: all of the coordinates when it is one with the full arguments
                E.assume(z3.And(Len(s.j) <= d.z + 1))
                return z3.Implies(z3.BoolVal(True), z3.Or(Len(s.j) == d.z + 1, z3.Bool(f"in the arguments of {s.j}")))
            return z3.BoolVal(False)
        if isinstance(s, Tail) and kind not in ("time",): return sequence(Args(s.j))
        raise Unsupported("collection")
    return dict(e=e, N=N, d=d, full=full, p=p, n=n, R=R, time=time, both=both, rhs=rhs, seq=seq, Eqn=Eqn, world=World_(e, equal, other, sequence))


def tobool_(v): return points.tobool(v)


class Progs(SymSeq):
    """the first `length` prognostic functions, in order"""
    def __init__(self, n): super().__init__(n, lambda i: Prog(zterm(i)), tag="prognostic")
    def has(self, x):
        if isinstance(x, Prog): return z3.And(x.j >= 0, x.j < zterm(self.length))
        if isinstance(x, (Field, Deriv, Constant, Coordinate, Lhs)): return z3.BoolVal(False)
        raise Unsupported("membership in the prognostic functions")


class FirstProgs(Candidate):
    name = "the prognostic functions of the first equations, in order"
    def applies(self, init, L): return isinstance(init, tuple) and len(init) == 2 and init[0] is None and not init[1]
    def make(self, init, k, obj):
        obj.base = Progs(k); list.clear(obj)
        return obj
    def check(self, init, v, k):
        base, own = (v.base, list(list.__iter__(v))) if isinstance(v, VList) else v
        if base is not None and base.tag != "prognostic": return False
        if not all(isinstance(x, Prog) for x in own): return False
        n = zterm(base.length) if base is not None else z3.IntVal(0)
        return z3.And(n + len(own) == zterm(k), *[x.j == n + i for i, x in enumerate(own)])


class Longest(Candidate):
    name = "the longest arguments of the first functions"
    def applies(self, init, L): return isinstance(init, tuple) and init == () and getattr(L.seq, "tag", "") == "prognostic"
    def make(self, init, k):
        E = engine.CUR
        E.assume(Max(z3.IntVal(0)) == 0)
        if bool(SBool(zterm(k) == 0)): return ()
        m = E.int("m"); E.assume(z3.And(m.z >= 0, m.z < zterm(k), Len(m.z) == Max(zterm(k)), Len(m.z) >= 1))
        return Args(m.z)
    def check(self, init, v, k):
        k = zterm(k)
        if isinstance(v, tuple) and v == (): return k == 0
        if not isinstance(v, Args): return False
        ax = z3.And(Max(z3.IntVal(0)) == 0, z3.Implies(k >= 1, Max(k) == z3.If(Len(k - 1) > Max(k - 1), Len(k - 1), Max(k - 1))), Len(k - 1) >= 1, Len(v.j) >= 1)
        return z3.Implies(ax, z3.And(v.j >= 0, v.j < k, Len(v.j) == Max(k)))


KINDS = ("prognostic", "field", "expectation", "time", "coordinate", "constant", "other class", "trainable", "derivative", "left-hand side")


def many(E, kind):
    def run():
        W = symb.world()
        U = W.load("vsympkf.symbolic.util")
        S_ = system(E, kind)
        N, d, p, full = S_["N"], S_["d"], S_["p"], S_["full"]
        NOW[0] = S_["world"]
        U.set = PSet
        A = {n: z3.Function(f"in {n} up to", z3.IntSort(), z3.BoolSort()) for n in ("both", "rhs")}
        if kind not in ("prognostic", "time", "coordinate", "left-hand side"): A["both"] = A["rhs"]     # it occurs in right-hand sides only
        W.vc.vocab = [FirstProgs(), Longest()] + [c for t, mk in (("field", True), ("derivative", False), ("symbol", True)) for c in
                      [Never(t, mk)] + [Accumulated("the right-hand side" if n == "rhs" else "a side", A[n], S_[n], t, mk) for n in ("rhs", "both")]]
        arg = VList(S_["seq"])
        S = U.PDESystem(arg)
        if NOW[0].unfinished: raise Unsupported("a loop over a set is left before its end")
        E.prove("the list given is left alone", isinstance(arg, VList) and arg.base is S_["seq"] and not list.__len__(arg))
        k = E.int("k"); E.assume(z3.And(k.z >= 0, k.z < N.z))
        q = S[k]
        E.prove("the k-th equation is the k-th one given", type(q).__name__ == "Eqn" and SBool(zterm(q.k) == k.z))
        P = S.prognostic_functions
        ok = isinstance(P, VList) and P.base is not None and P.base.tag == "prognostic"
        E.prove("the prognostic functions are the functions differentiated in time, in equation order", ok and SBool(z3.And(zterm(P.base.length) + list.__len__(P) == N.z, list.__len__(P) == 0)), weak=True)
        def member(s):
            if not isinstance(s, PSet): raise Unsupported("set of the system")
            return s.member
        F, C, X = member(S.functions), member(S.constant_functions), member(S.exogenous_functions)
        K, T, D = member(S.constants), member(S.trainable_scalars), member(S.spatial_derivatives)
        both, rhs, no = A["both"](N.z), A["rhs"](N.z), z3.BoolVal(False)
        f = kind in ("field", "expectation")
        time = S_["time"]
        same = lambda n, a, b: E.prove(n, SBool(a == b), weak=True)
        same("the functions are all the fields of the equations", F, both if f or kind == "prognostic" else no)
        same("the constant functions are the other fields whose arguments do not include time", C, z3.And(both, z3.Not(time)) if f else no)
        same("the exogenous functions are the other fields whose arguments include time", X, z3.And(both, time) if f else no)
        same("the constants are the symbols of the right-hand sides that are neither coordinates nor trainable", K, rhs if kind in ("constant", "other class") else no)
        same("the trainable scalars of the right-hand sides are all listed", T, rhs if kind == "trainable" else no)
        same("the derivatives of the right-hand sides are all listed", D, rhs if kind == "derivative" else no)
        # the coordinates: those of a function with the full arguments
        c = S.coordinates
        ok = isinstance(c, Args) and isinstance(S.spatial_coordinates, Tail)
        if ok: E.assume(Len(c.j) <= d.z + 1)
        E.prove("the coordinates are those of a function with the full arguments: time first, then the spatial coordinates",
                ok and S.time_coordinate == sym("t") and SBool(z3.And(Len(c.j) == d.z + 1, S.spatial_coordinates.j == c.j)), weak=True)
        M = S.derivative_max_order
        if kind == "derivative":
            att = getattr(M, "attained", z3.BoolVal(False))
            E.prove("no derivative has a larger order than the maximal one", SBool(z3.Implies(rhs, zterm(M) >= S_["n"].z)), weak=True)
            E.prove("the maximal order is that of a derivative of a right-hand side, when it is attained by one", SBool(z3.Implies(att, z3.And(rhs, zterm(M) == S_["n"].z))), weak=True)
        E.prove("the maximal order is not negative", SBool(zterm(M) >= 0), weak=True)
    return run


def lemmas(E):
    def run():
        k, f = z3.Int("k"), z3.Int("f")
        rec = lambda k: Max(k + 1) == z3.If(Len(k) > Max(k), Len(k), Max(k))
        E.prove("base", SBool(z3.Implies(z3.And(f >= 0, rec(f)), Max(f + 1) >= Len(f))))
        E.prove("step", SBool(z3.Implies(z3.And(f >= 0, k > f, Max(k) >= Len(f), rec(k)), Max(k + 1) >= Len(f))))
    return run


def verify(E):
    m = "sympkf.symbolic.util.PDESystem."
    E.explore("any number of equations: the longest of the first arguments is no shorter than any (induction)", lemmas(E), m + "_get_coordinates")
    for kind in KINDS: E.explore(f"any number of equations, {kind}", many(E, kind), m + "__init__")
