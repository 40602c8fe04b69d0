"""C05: the expectation, by structural induction.

The real `Expectation.eval`, `Expectation.has` and `israndom` run on one node of every kind (sum, product, power, function, derivative,
integral, equation, matrix, symbol, expectation, evaluation at a point, ..) whose children are arbitrary expressions, known through
two facts only: whether omega occurs in them, and whether it occurs outside any expectation.  The recursive calls on the children are
replaced by the contract (induction hypothesis):  israndom(child) = that fact,  Expectation(child) = child if it is not random, and
otherwise some expression denoting its mean.  The node that comes out must denote the mean of the node given.
Expressions denote elements of a differential algebra with mean: deterministic factors go out of the mean, sums are distributed,
derivatives and integrals commute (with every variable, order and bound)."""
import itertools, sys
import engine, cas
from engine import Unsupported
from . import symb

CUR = None


class Basic:
    vc_frozen = True
    rnd = occ = False
    def __init__(self, *args): self.args = tuple(args)
    def __getattr__(self, k):
        if k.startswith(("__", "vc_")): raise AttributeError(k)
        raise Unsupported(f"{type(self).__name__}.{k} has no contract")
    def __hash__(self): return 7
    def __eq__(self, o): return same(self, o)
    def __ne__(self, o): return not same(self, o)
    def __add__(self, o): return Add(self, o)
    def __mul__(self, o): return Mul(self, o)
    def __radd__(self, o): return Add(o, self)
    def __rmul__(self, o): return Mul(o, self)
    @property
    def func(self): return type(self)
    def expand(self, *a, **k): return self.__dict__.get("expanded", self)
    def has(self, *patterns):
        """contract of sympy: any of the patterns occurs (Expectation overrides it for itself, not for the expressions that contain it)"""
        if all(type(p) is Symbol and p.name == "omega" for p in patterns): return bool(patterns) and occurs(self)
        raise Unsupported("has")
    def match(self, p): raise Unsupported("match")
    def __repr__(self): return f"{type(self).__name__}{self.args!r}"


class Child(Basic):
    """arbitrary expression: `rnd`: omega occurs outside any expectation; `occ`: omega occurs"""
    n = 0
    def __init__(self, name, rnd=None):
        E = engine.CUR
        kind = E.choose([(False, False), (True, True), (False, True)]) if rnd is None else (rnd, rnd)
        self.args_, self.name, self.rnd, self.occ = None, name, *kind
    @property
    def args(self): raise Unsupported("the contract of a child is not enough: its arguments are needed")
    def has(self, *p): raise Unsupported("the contract of a child is not enough: has")
    def expand(self, *a, **k): return self
    @property
    def __class__(self):
        if sys._getframe(1).f_globals.get("__name__", "").startswith("vsympkf"): raise Unsupported("the contract of a child is not enough: its kind is needed")
        return Child
    def __repr__(self): return f"<{self.name}{' random' if self.rnd else ''}>"


class Mean(Basic):
    """Expectation(e), for a random e: some deterministic expression that denotes the mean of e"""
    def __init__(self, e): self.args, self.e = (), e
    def __repr__(self): return f"mean({self.e!r})"


def same(a, b):
    if a is b: return True
    if isinstance(a, (int, float)) or isinstance(b, (int, float)): return False
    if not isinstance(a, Basic) or not isinstance(b, Basic): return False
    if type(a) is Symbol and type(b) is Symbol: return a.name == b.name
    ta, tb = type(a), type(b)
    if ta is One and tb is One: return True
    for p, q in ((ta, tb), (tb, ta)):
        if p is Child and q is Symbol: raise Unsupported("the contract of a child is not enough: comparison with a symbol")
    if Mean in (ta, tb):
        # the mean of an expression may be any deterministic expression (a number excepted: see assumptions)
        if ta is Mean and tb is Mean and (a.e is b.e or value(a) == value(b)): return True
        if {ta, tb} <= {Mean, Child} and not (ta is Child and a.rnd or tb is Child and b.rnd):
            k = frozenset((id(a.e if ta is Mean else a), id(b.e if tb is Mean else b)))
            memo = engine.CUR.same_memo
            if k not in memo:
                memo[k] = engine.CUR.choose([False, True])
                if memo[k]: engine.CUR.same_facts.append((a, b))
            return memo[k]
        return False
    if Child in (ta, tb): return False
    if ta is not tb or len(a.args) != len(b.args): return False
    return all(same(p, q) for p, q in zip(a.args, b.args))


class One(Basic):
    """the number 1"""
    def __init__(self): self.args = ()
    def __repr__(self): return "1"


class Number(Basic):
    def __init__(self, v): self.args, self.v = (), v


class Symbol(Basic):
    def __init__(self, name, **k): self.args, self.name = (), name
    def __repr__(self): return self.name


class Tuple(Basic):
    def __iter__(self): return iter(self.args)
    def __len__(self): return len(self.args)
    def __getitem__(self, i): return self.args[i]


class Pow(Basic):
    base = property(lambda s: s.args[0]); exp = property(lambda s: s.args[1])


class Wild(Basic):
    def __init__(self, name, properties=(), exclude=()):
        if exclude: raise Unsupported("Wild(exclude)")
        self.args, self.name, self.properties = (), name, properties
    def __eq__(self, o): return self is o
    def __hash__(self): return 5
    def holds(self, e): return all(p(e) for p in self.properties)


def flat(cls, args):
    out = []
    for a in args:
        if isinstance(a, Symbol) or type(a) in (Child, Mean, One) or isinstance(a, Basic): pass
        elif isinstance(a, int) and not isinstance(a, bool): a = One() if a == 1 else Number(a)
        else: raise Unsupported(f"{cls.__name__} of {a!r}")
        if type(a) is cls: out += a.args
        elif cls is Mul and type(a) is One: pass
        else: out.append(a)
    return out


class Add(Basic):
    def __new__(cls, *args, **k):
        args = flat(Add, args)
        if len(args) == 1: return args[0]
        self = object.__new__(cls); self.args = tuple(args); return self
    def __init__(self, *a, **k): pass


class Mul(Basic):
    def __new__(cls, *args, **k):
        args = flat(Mul, args)
        if not args: return One()
        if len(args) == 1: return args[0]
        self = object.__new__(cls); self.args = tuple(args); return self
    def __init__(self, *a, **k): pass
    def match(self, p):
        """contract: the factors are shared out between two wild factors according to their properties"""
        if type(p) is not Mul or len(p.args) != 2 or not all(type(w) is Wild for w in p.args): raise Unsupported("match")
        out = {w: [] for w in p.args}
        for f in self.args:
            who = [w for w in p.args if w.holds(f)]
            if len(who) != 1: raise Unsupported("match: the properties do not share out the factors")
            out[who[0]].append(f)
        r = {w: Mul(*fs) for w, fs in out.items()}
        for w, e in r.items():
            if not w.holds(e): return None
        return r
    def as_independent(self, *d, **k): raise Unsupported("as_independent")


class Eq(Basic):
    def __new__(cls, *args, **k): return object.__new__(cls)
    def __init__(self, a, b, **k): self.args = (a, b)
    lhs = property(lambda s: s.args[0]); rhs = property(lambda s: s.args[1])


class Matrix(Basic):
    def __init__(self, *a):
        if len(a) == 3 and not callable(a[2]): r, c, l = a
        elif len(a) == 1 and isinstance(a[0], (list, tuple)) and all(isinstance(k, (list, tuple)) for k in a[0]):
            r, c, l = len(a[0]), len(a[0][0]) if a[0] else 0, [e for k in a[0] for e in k]
        elif len(a) == 1 and isinstance(a[0], Basic) and isinstance(a[0], Matrix): r, c, l = *a[0].shape, list(a[0])
        else: raise Unsupported("Matrix of these arguments")
        l = list(l)
        if len(l) != r * c: raise ValueError("List length should be equal to rows*columns")
        self.shape, self.l, self.rows, self.cols = (r, c), l, r, c
    @property
    def args(self): raise Unsupported("Matrix.args")
    def __iter__(self): return iter(self.l)
    def __len__(self): return len(self.l)
    def __getitem__(self, i): return self.l[i] if not isinstance(i, tuple) else self.l[i[0] * self.shape[1] + i[1]]
    def tolist(self): return [self.l[i * self.cols:(i + 1) * self.cols] for i in range(self.rows)]
    def applyfunc(self, f): return type(self)(*self.shape, [f(e) for e in self.l])
    def __repr__(self): return f"Matrix{self.shape}{self.l}"


class ImmutableMatrix(Matrix): pass


class Derivative(Basic):
    def __new__(cls, *a, **k): return object.__new__(cls)
    def __init__(self, e, *spec, evaluate=False):
        if not isinstance(e, Basic): raise Unsupported("Derivative of this")
        vc = []
        for s in spec:
            if isinstance(s, Basic) and type(s) is Tuple: s = s.args
            if isinstance(s, (tuple, list)):
                if len(s) == 1: vc.append((s[0], 1))
                else: v, n = s; vc.append((v, n))
            elif isinstance(s, Basic) and type(s) is Symbol: vc.append((s, 1))
            elif vc: vc[-1] = (vc[-1][0], s)
            else: raise Unsupported("Derivative with this specification")
        self.args = (e, *[Tuple(v, n) for v, n in vc])
    expr = property(lambda s: s.args[0])
    variable_count = property(lambda s: s.args[1:])


class Integral(Basic):
    def __init__(self, e, *limits):
        if not isinstance(e, Basic): raise Unsupported("Integral of this")
        self.args = (e, *[l if isinstance(l, Basic) and type(l) is Tuple else Tuple(*l) if isinstance(l, (tuple, list)) else Tuple(l) for l in limits])
    function = property(lambda s: s.args[0])
    limits = property(lambda s: s.args[1:])
    variables = property(lambda s: [l.args[0] for l in s.limits])


class Subs(Basic):
    def __init__(self, e, variables, point):
        self.args = (e, Tuple(*variables), Tuple(*point))
    expr = property(lambda s: s.args[0]); variables = property(lambda s: s.args[1]); point = property(lambda s: s.args[2])


class Function(Basic):
    """applied function; a subclass with `eval` evaluates on construction (contract of sympy)"""
    def __new__(cls, *args, evaluate=True, **k):
        if cls is Function: raise Unsupported("new undefined function")
        self = object.__new__(cls)
        if "eval" in dir(cls) and evaluate: return recursive(cls, *args, **k)
        self.args = tuple(args)
        return self
    def __init__(self, *a, **k): pass


class F(Function):
    """an undefined or elementary function"""


def recursive(cls, arg, **k):
    """induction hypothesis: Expectation(arg) for a smaller expression"""
    if k: raise Unsupported("hints")
    if arg is engine.CUR.top: raise Unsupported("recursive call on the same expression: no induction")
    if not isinstance(arg, Basic): raise Unsupported(f"Expectation of {type(arg).__name__}")
    if isinstance(arg, Matrix) or isinstance(arg, Eq): raise Unsupported("recursion on an equation or a matrix")
    return Mean(arg) if israndom(arg) else arg


# ---------------------------------------------------------------- meaning

def parts(e):
    """the subexpressions whose randomness is that of e"""
    if type(e) is Child: raise AssertionError
    if isinstance(e, Matrix): return list(e.l)
    if type(e) is Derivative: return [e.args[0]]
    if type(e) is Integral: return [e.args[0]] + [b for l in e.limits for b in l.args[1:]]
    if type(e) is Subs: return [e.expr, *e.point.args]
    return [a for a in e.args if isinstance(a, Basic)]


def israndom(e):
    if type(e) is Child: return e.rnd
    if type(e) is Symbol: return e.name == "omega"
    if type(e) in (Mean, One, Number) or is_expectation(e): return False
    return any([israndom(k) for k in parts(e)])


def occurs(e):
    if type(e) is Child: return e.occ
    if type(e) is Symbol: return e.name == "omega"
    if type(e) is Mean: return occurs(e.e)
    return any([occurs(k) for k in parts(e)])


def is_expectation(e): return any(c.__name__ == "Expectation" for c in type(e).__mro__)


def find(e):
    """representative of an expression among those taken for equal on this path"""
    for a, b in engine.CUR.same_facts:
        p, q = (key(b), key(a)) if key(a) > key(b) else (key(a), key(b))
        if key(e) == q: return p
    return key(e)


def key(e):
    if type(e) is Child: return e.name
    if type(e) is Mean: return f"E[{key(e.e)}]"
    if isinstance(e, Matrix): return f"Matrix{e.shape}{[key(k) for k in e.l]}"
    if type(e) in (Symbol,): return e.name
    if type(e) is One: return "1"
    if type(e) is Number: return f"{e.v}"
    if isinstance(e, (int, str)): return str(e)
    if not isinstance(e, Basic): raise Unsupported(f"{type(e).__name__} in an expression")
    ks = [key(k) for k in e.args]
    if type(e) in (Add, Mul): ks.sort()
    return f"{type(e).__name__}({', '.join(ks)})"


def atom(s): return cas.sym(s)


def value(e):
    """what a deterministic expression denotes"""
    if type(e) is Mean: return mean(e.e)
    if is_expectation(e): return mean(e.args[0])
    if type(e) is One: return cas.num(1)
    if type(e) is Number: return cas.num(e.v)
    if type(e) is Add:
        r = cas.num(0)
        for k in e.args: r = r + value(k)
        return r
    if type(e) is Mul:
        r = cas.num(1)
        for k in e.args: r = r * value(k)
        return r
    if type(e) is Derivative: return derivative(value(e.args[0]), e.args[1:])
    if type(e) is Integral: return integral(value(e.args[0]), e.limits)
    if type(e) is Child and e.rnd: raise Unsupported("value of a random expression")
    return atom(find(e))


def vcs(a): return [f"{key(t.args[0])}^{key(t.args[1])}" for t in a]
def derivative(v, a): return atom(f"D({v!r}; {', '.join(sorted(vcs(a)))})")
def integral(v, limits): return atom(f"I({v!r}; {', '.join('(' + ','.join(key(k) for k in l.args) + ')' for l in limits)})")


def mean(e):
    if not israndom(e): return value(e)
    if type(e) is Add:
        r = cas.num(0)
        for k in e.args: r = r + mean(k)
        return r
    if type(e) is Mul:
        r = cas.num(1)
        for k in e.args:
            if not israndom(k): r = r * value(k)
        R = [k for k in e.args if israndom(k)]
        return r * (mean(R[0]) if len(R) == 1 else atom(f"E[Mul({', '.join(sorted(key(k) for k in R))})]"))
    if type(e) is Derivative: return derivative(mean(e.args[0]), e.args[1:])
    if type(e) is Integral and not any(israndom(b) for l in e.limits for b in l.args[1:]): return integral(mean(e.args[0]), e.limits)
    return atom(find(Mean(e)))


# ---------------------------------------------------------------- nodes

def children(E, n, tag="c"): return [Child(f"{tag}{i}") for i in range(n)]


def nodes(R):
    """every kind of node, with arbitrary children"""
    Exp = R.Expectation
    def arity(E, lo=1, hi=4): return E.choose(list(range(lo, hi + 1)))
    def limits(E):
        out = []
        for i in range(arity(E, 1, 2)):
            v = Symbol(E.choose(["x", "t"]) if i else "x")
            k = E.choose([1, 3, 2])
            out.append(Tuple(v, *[Child(f"b{i}{j}", E.choose([False, True])) for j in range(k - 1)]))
        return out
    def der(E):
        vs = E.choose([[("x", "n0")], [("x", "n0"), ("t", "n1")], [("t", "n0"), ("x", "n1"), ("y", "n2")], [("x", "n0"), ("t", "n1"), ("x", "n2")]])
        return Derivative(Child("c0"), *[Tuple(Symbol(v), Symbol(n)) for v, n in vs])
    class SubEq(R.Eq): pass
    class SubMatrix(R.Matrix): pass
    return {
        "Add": lambda E: Add(*children(E, arity(E, 2))), "Mul": lambda E: Mul(*children(E, arity(E, 2))),
        "Pow": lambda E: Pow(*children(E, 2)), "Function": lambda E: F(*children(E, arity(E, 1))),
        "Derivative": der, "Integral": lambda E: Integral(Child("c0"), *limits(E)),
        "Eq": lambda E: E.choose([Eq, R.Eq, SubEq])(*children(E, 2)),
        "Matrix": lambda E: E.choose([Matrix, ImmutableMatrix, R.Matrix, SubMatrix])(*E.choose([(1, 1), (2, 1), (1, 3)]), [None]),
        "Symbol": lambda E: Symbol(E.choose(["omega", "x", "t", "a"])), "Number": lambda E: E.choose([One(), Number(3)]),
        "Subs": lambda E: Subs(Child("c0"), [Symbol("x")], [Child("c1")]),
        "Expectation": lambda E: Exp(Child("c0", True), evaluate=False),
    }


def build(E, R, kind):
    if kind == "Matrix":
        cls = E.choose([Matrix, ImmutableMatrix, R.Matrix])
        r, c = E.choose([(1, 1), (2, 1), (1, 3), (2, 2), (0, 0)] + ([(3, 2)] if cls is Matrix else []))
        return cls(r, c, children(E, r * c))
    return nodes(R)[kind](E)


KINDS = ("Add", "Mul", "Pow", "Function", "Derivative", "Integral", "Eq", "Matrix", "Symbol", "Number", "Subs", "Expectation")


def load():
    def prepare(m):
        class S_: pass
        S_.One = One(); S_.Zero = Number(0)
        def symbols(s, **k):
            n = [Symbol(a) for a in s.replace(",", " ").split()]
            return n[0] if len(n) == 1 else tuple(n)
        for k, v in dict(Symbol=Symbol, Function=Function, Derivative=Derivative, Integral=Integral, Add=Add, Mul=Mul, Pow=Pow, Subs=Subs, Eq=Eq, Equality=Eq, Matrix=Matrix,
                         ImmutableMatrix=ImmutableMatrix, Wild=Wild, S=S_, Tuple=Tuple, Basic=Basic, Expr=Basic, symbols=symbols).items(): setattr(m, k, v)
    W = symb.world(expectation=False, prepare=prepare)
    R = W.load("vsympkf.symbolic.random")
    real = R.israndom
    def call(arg, *a, **k):
        """recursive calls on a child: the contract; the node under verification: the code; the rest (expressions built by the code): the contract"""
        if arg is engine.CUR.node: return real(arg, *a, **k)
        if not isinstance(arg, Basic): raise Unsupported(f"israndom of {type(arg).__name__}")
        return israndom(arg)
    R.israndom = call
    E = engine.CUR
    E.top = E.node = None
    E.same_memo, E.same_facts = {}, []
    return W, R, real


def random_test(E, kind):
    def run():
        W, R, real = load()
        e = build(E, R, kind)
        E.node = e
        r = real(e) if E.choose(["default", "verbose"]) == "default" else real(e, verbose=False)
        E.prove("israndom is true exactly if omega occurs outside any expectation", (r is True or r is False) and r == israndom(e), detail=f"{r!r} for {e!r}"[:500])
    return run


def result(E, e, r, what="Expectation"):
    if isinstance(e, Eq):
        ok = isinstance(r, Eq)
        E.prove("the expectation of an equation is an equation", ok, detail=f"{r!r} for {e!r}"[:500])
        E.prove("the equation is of the same class", type(r) is type(e), detail=f"{r!r} for {e!r}"[:500], weak=True)
        if ok: E.prove("it has the expectations of both sides", all(not israndom(k) and value(k) == mean(q) for k, q in zip(r.args, e.args)), detail=f"{r!r} for {e!r}"[:500], backend="normal form")
        return
    if isinstance(e, Matrix):
        ok = isinstance(r, Matrix) and r.shape == e.shape
        E.prove("the expectation of a matrix is a matrix of the same shape", ok, detail=f"{r!r} for {e!r}"[:500])
        if ok: E.prove("its entries are the expectations of the entries, in place", all(not israndom(k) and value(k) == mean(q) for k, q in zip(r.l, e.l)), detail=f"{r!r} for {e!r}"[:500], backend="normal form")
        return
    ok = isinstance(r, Basic) and not isinstance(r, (Eq, Matrix))
    E.prove("the expectation is an expression", ok, detail=f"{r!r} for {e!r}"[:500])
    if not ok: return
    ok = not israndom(r)
    E.prove("the expectation is deterministic", ok, detail=f"{r!r} for {e!r}"[:500])
    if not ok: return
    E.prove("the expectation denotes the mean", value(r) == mean(e), detail=f"{r!r} for {e!r}: {value(r)} instead of {mean(e)}"[:500], backend="normal form")


def inert(r):
    """the expectations left in the result"""
    if type(r) in (Child, Mean) or not isinstance(r, Basic): return []
    if is_expectation(r): return [r]
    return [k for p in parts(r) for k in inert(p)]


def evaluation(E, kind):
    def run():
        W, R, real = load()
        e = build(E, R, kind)
        E.node = E.top = e
        arg = e
        if E.choose(["is its own expansion", "has another expansion"]) != "is its own expansion":
            # an expression equal to its expansion e: any expression that is neither
            arg = Child("arg", israndom(e)); arg.expand = lambda *a, **k: e
            E.top = arg
        r = R.Expectation.eval(arg)
        E.top = E.node = None
        if r is None: r = R.Expectation(arg, evaluate=False)                    # contract of sympy: eval() gives None when it does not apply
        if not israndom(e):
            E.prove("a deterministic expression is its own expectation", r is e or r is arg or same(r, e), detail=f"{r!r} for {e!r}"[:500])
            return
        result(E, e, r)
        for k in inert(r):
            q = k.args[0]
            if type(q) is Child: continue
            E.prove("no expectation of a deterministic expression is left", israndom(q), detail=repr(r)[:500])
            E.prove("sums, derivatives and integrals do not stay inside the expectation",
                    type(q) not in (Add, Derivative) and not (type(q) is Integral and not any(israndom(b) for l in q.limits for b in l.args[1:])), detail=repr(r)[:500])
            if type(q) is Mul: E.prove("no deterministic factor stays inside the expectation", all(israndom(f) for f in q.args), detail=repr(r)[:500])
    return run


def has_method(E):
    def run():
        W, R, real = load()
        asked = []
        c = Child("c0", True)
        answer = E.choose([True, False])
        def has(*p):
            asked.append(p)
            return bool(p) and answer
        c.has = has
        e = R.Expectation(c, evaluate=False)
        om = R.omega
        pats = E.choose([[om], [Symbol("t")], [om, Symbol("t")], [Symbol("t"), om, Symbol("x")], [], [om, om], [Symbol("x"), Symbol("t")]])
        rest = [p for p in pats if p is not om]
        r = e.has(*pats)
        E.prove("omega does not occur in an expectation; the rest occurs if it occurs in the argument", r is (bool(rest) and answer), detail=f"{r} for {pats}")
        E.prove("the other patterns are all looked for", not rest or not asked or {k.name for p in asked for k in p} == {k.name for k in rest} , detail=str(asked))
    return run


def diff_method(E):
    def run():
        W, R, real = load()
        e = R.Expectation(Child("c0", True), evaluate=False)
        v = Symbol(E.choose(["x", "t"]))
        r = e._eval_derivative(v)
        ok = isinstance(r, Derivative)
        E.prove("the derivative of an expectation is the derivative of the mean", ok and value(r) == derivative(mean(e.args[0]), [Tuple(v, 1)]), detail=repr(r))
    return run


def verify(E):
    E.trusted += ["sympy: Function.__new__ calls eval and keeps the function when it gives None; expand returns an equal expression; Mul.match(wild*wild) shares out the factors by the properties",
                  "sympy: has() sees every subexpression (the override of Expectation is only used on an expectation itself)"]
    E.assumptions += ["structural induction over finite expressions: the recursive calls on the children satisfy the contract",
                      "nodes of at most 4 children (matrices 2x2 and 3x2), which are arbitrary expressions"]
    for k in KINDS: E.explore(f"israndom({k})", random_test(E, k), "sympkf.symbolic.random.israndom")
    for k in KINDS: E.explore(f"Expectation({k})", evaluation(E, k), "sympkf.symbolic.random.Expectation.eval")
    E.explore("Expectation.has", has_method(E), "sympkf.symbolic.random.Expectation.has")
    E.explore("Expectation._eval_derivative", diff_method(E), "sympkf.symbolic.random.Expectation._eval_derivative")
