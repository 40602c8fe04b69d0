"""C07 for every degree: UnivariateTree by induction on the levels.

Functions under contract: UnivariateTree._add_tree_level (precondition: the levels 1..n-1 are complete and exact; postcondition: so is the
level n, and nothing else changed) and UnivariateTree.__call__ (against the contract of _add_tree_level), for a number of coordinates
1..4 and every degree n.  Callees are replaced by their contracts: PartialOrderDerivative.all_of_degree, new and the views of a
multi-index (C06), Expectation (C05), Eq.isolate (C08), Derivative/doit/subs of sympy.  Loop invariants:
  - loop over the degree A of the smaller multi-index: the tree holds every statistic of degree < n, those of degree n whose smaller
    multi-index has a degree already met, and possibly (arbitrarily) those of the current A;
  - each entry denotes its statistic and only involves E[eps D^c eps] and derivatives of them.
Statistics are M(p, q) = E[D^p eps D^q eps], unordered pairs of vectors of integers (z3 terms)."""
import sys
import z3
import engine
from engine import SInt, SBool, Proxy, Unsupported, PathDone, VDict, zterm, Tok
from fractions import Fraction as Fr
from . import symb


def total(p): return z3.Sum(list(p) + [z3.IntVal(0)])
def same(p, q): return z3.And([a == b for a, b in zip(p, q)])
def pair(u, v): return z3.Or(z3.And(same(u[0], v[0]), same(u[1], v[1])), z3.And(same(u[0], v[1]), same(u[1], v[0])))
def low(u): return z3.If(total(u[0]) <= total(u[1]), total(u[0]), total(u[1]))
def size(u): return total(u[0]) + total(u[1])
def bump(p, j): return tuple(v + 1 if i == j else v for i, v in enumerate(p))


class Coord(Proxy):
    def __init__(self, i): self.i = i
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return hash(("coord", self.i))
    def __repr__(self): return f"x{self.i}"


class Stop:
    """an operation without a contract leaves the function undecided"""
    def __getattr__(self, k):
        if k.startswith("vc_") or k.startswith("__"): raise AttributeError(k)
        raise Unsupported(f"{type(self).__name__}.{k} has no contract")


class Eps(Stop):
    pass


class DE(Stop):
    """D^p eps"""
    def __init__(self, p): self.p = p
    def doit(self, **k): return self
    def __mul__(self, o):
        o = asde(o)
        return Rnd({(0, (self.p, o.p)): Fr(1)})
    def __pow__(self, n):
        if n != 2: raise Unsupported("power")
        return self * self


def asde(o):
    if isinstance(o, DE): return o
    raise Unsupported("product of another factor")


Eps.__mul__ = lambda self, o: DE(zero(self.d)) * o
Eps.__pow__ = lambda self, n: DE(zero(self.d)) ** n
DE.__rmul__ = lambda self, o: NotImplemented


def zero(d): return tuple(z3.IntVal(0) for _ in range(d))


class Lin(Stop):
    """linear combination; atoms are (tag, pair): derivatives are kept unevaluated as (coordinates.., 0|'V')"""
    def __init__(self, d): self.terms = [(c, k) for k, c in d.items()] if isinstance(d, dict) else list(d)
    def _new(self, l): return type(self)(l)
    def __add__(self, o):
        if isinstance(o, (int, Fr)) and o == 0: return self
        if type(o) is not type(self): raise Unsupported("sum of expressions of two natures")
        return self._new(self.terms + o.terms)
    def __radd__(self, o):
        if isinstance(o, (int, Fr)) and o == 0: return self
        return NotImplemented
    def __neg__(self): return self._new([(-c, k) for c, k in self.terms])
    def __sub__(self, o): return self + (-o)
    def __mul__(self, n):
        if isinstance(n, (int, Fr)) and not isinstance(n, bool): return self._new([(c * n, k) for c, k in self.terms])
        raise Unsupported("product of statistics")
    __rmul__ = __mul__
    def __truediv__(self, n):
        if isinstance(n, (int, Fr)) and n: return self * (Fr(1) / n)
        raise Unsupported("quotient")
    def expand(self, **k): return self
    simplify = expand
    def __repr__(self): return f"{type(self).__name__}({self.terms})"


class Rnd(Lin):
    """combination of derivatives (js) of the products D^p eps D^q eps"""
    def doit(self, **k): return self._new([t for c, k in self.terms for t in unfold(c, k)])
    expand_products = doit
    def diff(self, *x): return Derivative(self, *x).doit()


def unfold(c, k):
    """product rule"""
    js, u = k
    if js == 0: return [(c, k)]
    out = [(c, u)]
    for j in js: out = [(c, v) for c, (p, q) in out for v in ((bump(p, j), q), (p, bump(q, j)))]
    return [(c, (0, v)) for c, v in out]


class Stat(Lin, Proxy):
    """combination of derivatives (js) of the statistics M(u); kind of an atom: (js, u) or (js, u, 'V') for the value of M(u) in the tree"""
    vc_frozen = True
    def __hash__(self): return 11
    def single(self):
        if len(self.terms) != 1 or self.terms[0][0] != 1 or self.terms[0][1][0] != 0 or len(self.terms[0][1]) != 2: raise Unsupported("a combination as a key")
        return self.terms[0][1][1]
    def __eq__(self, o):
        if not isinstance(o, Stat): return False
        return SBool(pair(self.single(), o.single()))
    def __ne__(self, o): return SBool(z3.Not(pair(self.single(), o.single())))
    def __bool__(self): raise Unsupported("truth value of an expression")
    def doit(self, **k): return self
    def diff(self, *x): return Derivative(self, *x)
    def subs(self, d, *more):
        if more or not hasattr(d, "vc_find"):
            if isinstance(d, VDict) and not more and d.symbolic(): find = lambda u: d.lookup(Stat([(Fr(1), (0, u))]))
            else: raise Unsupported("substitution of something else than the tree")
        else: find = d.vc_find
        out = []
        for c, k in self.terms:
            if len(k) == 3: out.append((c, k)); continue
            p, v = find(k[1])
            if not p: out.append((c, k))
            else: out += [(c * c2, (join(k[0], k2[0]), *k2[1:])) for c2, k2 in v.terms]
        return self._new(out)
    xreplace = subs
    def meaning(self):
        return [t for c, k in self.terms for t in unfold(c, k[:2])]
    def has(self, o):
        u = o.single()
        return any(bool(SBool(pair(k[1], u))) for c, k in self.terms if len(k) == 2)


def join(a, b):
    if a == 0: return b
    return a if b == 0 else tuple(sorted(a + b))


def Derivative(f, *v, **k):
    js = []
    for x in v:
        if isinstance(x, tuple):
            x, n = x
            js.append((x, n))
        elif isinstance(x, int) and js: js[-1] = (js[-1][0], x)
        else: js.append((x, 1))
    if any(not isinstance(x, Coord) for x, n in js): raise Unsupported("derivative in something else than a coordinate")
    if isinstance(f, Eps): f = DE(zero(f.d))
    if isinstance(f, DE):
        p = list(f.p)
        for x, n in js: p[x.i] = p[x.i] + zterm(n)
        return DE(tuple(z3.simplify(a) for a in p))
    if isinstance(f, Lin):
        l = []
        for x, n in js:
            if not isinstance(n, int): raise Unsupported("derivative of arbitrary order of a product")
            l += [x.i] * n
        if not l: return f
        return f._new([(c, (join(tuple(l), k[0]), *k[1:])) for c, k in f.terms])
    raise Unsupported(f"derivative of {type(f).__name__}")


def Expectation(f, **k):
    if k: raise Unsupported("option of Expectation")
    if isinstance(f, Rnd): return Stat(list(f.terms))
    if isinstance(f, Stat): return f
    raise Unsupported(f"expectation of {type(f).__name__}")


class Equation(Stop):
    def __init__(self, lhs, rhs, **k): self.args = (lhs, rhs); self.lhs, self.rhs = lhs, rhs
    def doit(self, **k): return Equation(self.lhs.doit(), self.rhs.doit())
    def isolate(self, x):
        """contract of Eq.isolate on a linear equation with numbers as coefficients"""
        if not isinstance(x, Stat): raise Unsupported("isolation of something else than a statistic")
        u = x.single()
        all_ = (self.lhs - self.rhs).terms
        c0, rest = Fr(0), []
        for c, k in all_:
            if len(k) == 2 and bool(SBool(pair(k[1], u))):
                if k[0] != 0: raise Unsupported("isolation of a statistic from its derivatives")
                c0 += c
            else: rest.append((c, k))
        if not c0: raise IndexError("list index out of range")
        return Equation(x, Stat([(-c / c0, k) for c, k in rest]))


class Index(Stop):
    """a multi-index: the contract of its views (C06)"""
    def __init__(self, X, p): self.X, self.p = X, tuple(p)
    @property
    def coordinates(self): return self.X
    @property
    def as_tuple(self): return tuple(SInt(v) for v in self.p)
    @property
    def as_couples(self): return [(x, SInt(v)) for x, v in zip(self.X, self.p)]
    @property
    def degree(self): return SInt(total(self.p))
    @property
    def as_sequence(self):
        if "seq" not in vars(self): self.seq = Seq(self.X, self.p)
        return self.seq
    def copy(self): return Index(self.X, self.p)
    def new(self, o):
        if isinstance(o, Seq): return Index(self.X, o.p)
        if isinstance(o, Index): return Index(self.X, o.p)
        if isinstance(o, tuple) and len(o) == len(self.X) and all(isinstance(v, (int, SInt)) for v in o): return Index(self.X, [zterm(v) for v in o])
        if isinstance(o, list) and o and all(isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], Coord) and isinstance(c[1], (int, SInt)) for c in o):
            p = [z3.IntVal(0)] * len(self.X)
            for x, n in o: p[x.i] = p[x.i] + zterm(n)
            return Index(self.X, p)
        raise Unsupported("multi-index of this notation")


class Seq(Stop, Proxy):
    """sequence of coordinates, in some order that is not specified, each as many times as its order"""
    def __init__(self, X, p): self.X, self.p, self.ends = X, p, {}
    def vc_seq(self): raise Unsupported("iteration on the sequence of a multi-index")
    def __len__(self): raise Unsupported("length of the sequence of a multi-index")
    def __bool__(self): return bool(SBool(total(self.p) > 0))
    def one(self, end):
        """the coordinate at this end"""
        E = engine.CUR
        if not bool(SBool(total(self.p) > 0)): raise IndexError("list index out of range")
        if end not in self.ends:
            j = E.choose(list(range(len(self.X))))
            E.assume(self.p[j] >= 1)
            self.ends[end] = j
        return self.ends[end]
    def __getitem__(self, i):
        if i == 0 or i == -1:
            if self.ends and i not in self.ends: raise Unsupported("both ends of the sequence of a multi-index")
            return self.X[self.one(i)]
        if isinstance(i, slice) and (i.start, i.stop, i.step) in ((1, None, None), (None, -1, None)):
            e = 0 if i.start == 1 else -1
            if self.ends and e not in self.ends: raise Unsupported("both ends of the sequence of a multi-index")
            if not bool(SBool(total(self.p) > 0)): return Seq(self.X, self.p)
            j = self.one(e)
            return Seq(self.X, tuple(v - 1 if k == j else v for k, v in enumerate(self.p)))
        raise Unsupported("item of the sequence of a multi-index")


# ---------------------------------------------------------------------- ghost state
class Ghost:
    """the proof state of one call of _add_tree_level for the degree n"""
    def __init__(self, E, X, n, obj):
        self.E, self.X, self.n, self.obj, self.d = E, X, n, obj, len(X)
        self.range = self.A = None
        self.stack, self.elems, self.known, self.written, self.saved, self.base = [], [], [], [], [], None

    def done_before(self, m):
        lo, hi, st = self.range
        return z3.And(lo <= m, m < self.A) if st == 1 else z3.And(self.A < m, m <= lo)

    def find(self, u, level=False):
        """(present, value) of M(u) in the tree (in the level)"""
        E, n = self.E, self.n
        for v, p in self.known:
            if bool(SBool(pair(v, u))): return p, self.value(u)
        if bool(SBool(low(u) <= 0)): return False, None
        if bool(SBool(size(u) < n)): return (False, None) if level else (True, self.value(u))
        if bool(SBool(size(u) > n)): return False, None
        if self.A is None: return False, None
        m = low(u)
        if bool(SBool(self.done_before(m))): return True, self.value(u)
        if not bool(SBool(m == self.A)): return False, None
        p = E.choose([False, True])
        self.known.append((u, p))
        return p, self.value(u)

    def value(self, u): return Stat([(Fr(1), (0, u, "V"))])


class Tree(Stop):
    """self._tree"""
    def __init__(self, g): self.g, self.log = g, []
    def vc_find(self, u):
        for k, v in reversed(self.log):
            if bool(SBool(pair(k.single(), u))): return True, v
        return self.g.find(u)
    def __contains__(self, k): return self.vc_find(k.single())[0]
    def __getitem__(self, k):
        p, v = self.vc_find(k.single())
        if not p: raise KeyError(k)
        return v
    def get(self, k, default=None):
        p, v = self.vc_find(k.single())
        return v if p else default
    def __setitem__(self, k, v): self.log.append((k, v))


class LevelBase:
    """what a level holds at an arbitrary iteration"""
    def __init__(self, g): self.g = g
    def lookup(self, k): return self.g.find(k.single(), level=True)
    def nonempty(self): raise Unsupported("truth value of a level")


class Levels(Stop):
    """self._levels"""
    def __init__(self, g): self.g = g
    def __setitem__(self, k, v): self.g.saved.append((k, v, len(self.g.stack)))


class Range:
    vc_frozen = True
    def __init__(self, g, a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if st not in (1, -1): raise Unsupported("range with a step")
        self.g, self.r = g, (zterm(lo), zterm(hi), st)
    def vc_seq(self): return self
    def __iter__(self): raise Unsupported("iteration on an arbitrary range")
    def vc_loop(self, loops, ident):
        g, E = self.g, self.g.E
        lo, hi, st = self.r
        if g.range is not None: raise Unsupported("several loops over degrees")
        g.range = self.r
        if not bool(SBool(lo < hi if st == 1 else lo > hi)): return
        g.A = z3.Int(E.name("A"))
        E.assume(z3.And(lo <= g.A, g.A < hi) if st == 1 else z3.And(hi < g.A, g.A <= lo))
        yield from iteration(g, SInt(g.A), sys._getframe(2), "A")


class All:
    """PartialOrderDerivative.all_of_degree(X, m): contract of C06"""
    vc_frozen = True
    def __init__(self, g, X, m): self.g, self.X, self.m = g, X, m
    def vc_seq(self): return self
    def __iter__(self): raise Unsupported("iteration on the multi-indices of a degree")
    def vc_loop(self, loops, ident):
        g, E = self.g, self.g.E
        E.prove("all_of_degree is called with the coordinates and a degree >= 0", z3.And(zterm(self.m) >= 0) if list(self.X) == list(g.X) else False)
        p = tuple(z3.Int(E.name("p")) for _ in g.X)
        E.assume(z3.And([v >= 0 for v in p] + [total(p) == zterm(self.m)]))
        g.elems.append((p, zterm(self.m)))
        yield from iteration(g, Index(g.X, p), sys._getframe(2), "p")


def iteration(g, elem, frame, what):
    """an arbitrary iteration: locals, attributes and containers other than the tree and the level are unchanged by it"""
    E = g.E
    locs = {k: id(v) for k, v in frame.f_locals.items() if not k.startswith("_vc") and k != "."}
    attrs = dict(vars(g.obj))
    if g.base is None:
        dicts = {id(v): v for v in frame.f_locals.values() if isinstance(v, VDict)}
        if len(dicts) > 1 or any(dict.__len__(v) or v.symbolic() for v in dicts.values()): raise Unsupported("other dictionaries")
        g.base = LevelBase(g)
        for v in dicts.values(): v.base = g.base; g.level = v
    depth = len(g.stack)
    g.stack.append(what)
    yield Tok(False, elem)
    if len(g.stack) == depth + 1 and not getattr(g, "checked", False) and len(g.elems) == 2 and g.A is not None:
        g.checked = True
        check_entry(g)
    g.stack.pop()
    now = frame.f_locals
    for k, i in locs.items():
        if k in now and id(now[k]) != i: raise Unsupported(f"the local variable {k} changes along the iterations")
    if any(vars(g.obj).get(k) is not v for k, v in attrs.items()) or len(vars(g.obj)) != len(attrs): raise Unsupported("a loop changes attributes")


def check_entry(g):
    """end of the body of the innermost loop"""
    E, n = g.E, g.n
    (p, dp), (q, dq) = g.elems
    u = (p, q)
    E.prove("an iteration handles a statistic of the level", z3.And(total(p) >= 1, total(q) >= 1, size(u) == n))
    if not E.holds(low(u) == g.A): raise Unsupported("loops over something else than the degree of the smaller multi-index")
    t = g.obj._tree
    if not isinstance(t, Tree): raise Unsupported("another tree")
    E.prove("at most one entry is written", len(t.log) <= 1, weak=True)
    for k, v in t.log:
        E.prove("the entry is that of the statistic", pair(k.single(), u))
        check_value(g, u, v)
    E.prove("the tree holds the statistic", t.vc_find(u)[0] is True or bool(t.log))
    l = vars(g).get("level")
    if l is None: raise Unsupported("no level")
    E.prove("at most one entry is written in the level", len(l.log) <= 1, weak=True)
    for k, v in l.log:
        E.prove("the entry of the level is that of the statistic", pair(k.single(), u))
        check_value(g, u, v)
    key = Stat([(Fr(1), (0, u))])
    E.prove("the level holds the statistic", bool(l.log) or l.lookup(key)[0] is True)


def check_value(g, u, v):
    E = g.E
    ok = isinstance(v, Stat)
    E.prove("the value is an expression of statistics", ok)
    if not ok: return
    rest = []
    for c, (js, w) in [(Fr(1), (0, u))] + [(-c, k) for c, k in v.meaning()]:
        for r in rest:
            if bool(SBool(pair(r[1], w))): r[0] += c; break
        else: rest.append([c, w])
    E.prove("each entry is an identity of random fields", all(c == 0 for c, w in rest), detail=str(v)[:400], backend="product rule and z3")
    for c, k in v.terms:
        if len(k) == 2: E.prove("the right-hand sides only involve E[eps D^c eps] and their derivatives", low(k[1]) <= 0, detail=f"{k} in {v}"[:400])


def load(E, d):
    W = symb.world()
    P = W.load("vsympkf.symbolic.pkfcas")
    X = [Coord(i) for i in range(d)]
    eps = Eps(); eps.d = d
    return P, X, eps


def make(E, P, X, eps):
    obj = P.UnivariateTree(eps, tuple(X))
    a = vars(obj)
    if not all(k in a for k in ("_degree", "_levels", "_tree")) or set(a) - {"epsilon", "spatial_coordinates", "_self_substitute", "_degree", "_levels", "_tree"}: raise Unsupported("attributes of the tree")
    if not (obj._degree == 0 and isinstance(obj._levels, dict) and not obj._levels and isinstance(obj._tree, dict) and not obj._tree): raise Unsupported("a new tree with levels")
    return obj


def add_level(E, d):
    def run():
        P, X, eps = load(E, d)
        obj = make(E, P, X, eps)
        n = E.int("n"); E.assume(n.z >= 1)
        g = Ghost(E, X, n.z, obj)
        P.Derivative, P.Expectation, P.Eq = Derivative, Expectation, Equation
        class POD:
            all_of_degree = staticmethod(lambda X, m: All(g, X, m))
        P.PartialOrderDerivative = POD
        P.range = lambda *a: Range(g, a)
        obj._degree, obj._tree, obj._levels = n - 1, Tree(g), Levels(g)
        r = obj._add_tree_level()
        E.prove("the degree is that of the new level", zterm(obj._degree) == n.z if isinstance(obj._degree, (int, SInt)) else False, weak=True)
        if not isinstance(obj._levels, Levels) or not isinstance(obj._tree, Tree): raise Unsupported("the containers are replaced")
        ok = len(g.saved) == 1 and isinstance(g.saved[0][1], VDict) and g.saved[0][2] == 0
        E.prove("one level is kept", ok, weak=True)
        if not ok: return
        k, lev, _ = g.saved[0]
        E.prove("it is kept with its degree", zterm(k) == n.z if isinstance(k, (int, SInt)) else False, weak=True)
        p, q = (tuple(z3.Int(f"{c}{i}") for i in range(d)) for c in "uv")
        some = z3.And([v >= 0 for v in p + q] + [total(p) >= 1, total(q) >= 1, total(p) <= total(q), total(p) + total(q) == n.z])
        if g.A is None:
            E.prove("a level without iteration has no statistic", z3.And(z3.Not(some)) if not dict.__len__(lev) and not lev.log and not g.obj._tree.log else False)
            return
        E.prove("the level kept is the one that was filled", lev.base is g.base and len(g.elems) == 2, weak=True)
        lo, hi, st = g.range
        m = total(p)
        E.prove("every statistic of the degree has its iteration", z3.Implies(some, z3.And(lo <= m, m < hi) if st == 1 else z3.And(hi < m, m <= lo)))
        if len(g.elems) != 2: return
        d1, d2 = (z3.substitute(e[1], (g.A, m)) for e in g.elems)
        E.prove("the iteration of a degree meets the multi-indices of this degree and those of the rest", z3.Implies(some, z3.Or(z3.And(d1 == m, d2 == n.z - m), z3.And(d2 == m, d1 == n.z - m))))
    return run


# ---------------------------------------------------------------------- __call__
class Steps:
    """range(lo, hi) whose iterations add levels"""
    vc_frozen = True
    def __init__(self, s, a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) == 3 and a[2] != 1: raise Unsupported("range with a step")
        self.s, self.lo, self.hi = s, zterm(lo), zterm(hi)
    def vc_seq(self): return self
    def __iter__(self): raise Unsupported("iteration on an arbitrary range")
    def vc_loop(self, loops, ident):
        s, E = self.s, self.s.E
        m0 = zterm(s.obj._degree)
        if E.choose(["body", "exit"]) == "body":
            k = z3.Int(E.name("k")); E.assume(z3.And(self.lo <= k, k < self.hi))
            s.obj._degree = SInt(m0 + (k - self.lo))
            yield Tok(False, SInt(k))
            E.prove("an iteration adds one level", zterm(s.obj._degree) == m0 + (k - self.lo) + 1, weak=True)
            raise PathDone()
        s.obj._degree = SInt(z3.If(self.hi > self.lo, m0 + self.hi - self.lo, m0))


class Kept(Stop):
    """self._levels: the levels 1..m"""
    def __init__(self, s): self.s = s
    def items(self): return KeptItems(self.s)
    def __contains__(self, k): return bool(SBool(z3.And(zterm(k) >= 1, zterm(k) <= zterm(self.s.obj._degree))))
    def get(self, k, default=None): return self[k] if k in self else default
    def __getitem__(self, k):
        if not bool(SBool(z3.And(zterm(k) >= 1, zterm(k) <= zterm(self.s.obj._degree)))): raise KeyError(k)
        return Level(self.s, zterm(k))


class Level(Stop):
    def __init__(self, s, l): self.s, self.l = s, l
    def vc_update(self, target):
        if not isinstance(target.base, Union): target.base = Union(self.s) if not dict.__len__(target) and not target.log else None
        if target.base is None: raise Unsupported("update of another dictionary")
        target.base.added.append(self.l)
    def items(self): raise Unsupported("items of a level")


class Union:
    def __init__(self, s): self.s, self.added, self.upto = s, [], None
    def lookup(self, k): raise Unsupported("entry of a tree")
    def nonempty(self): raise Unsupported("truth value of a tree")


class KeptItems:
    vc_frozen = True
    def __init__(self, s): self.s = s
    def vc_seq(self): return self
    def __iter__(self): raise Unsupported("iteration on the levels")
    def vc_loop(self, loops, ident):
        s, E = self.s, self.s.E
        frame = sys._getframe(2)
        locs = {k: v for k, v in frame.f_locals.items() if not k.startswith("_vc")}
        dicts = {id(v): v for v in locs.values() if isinstance(v, VDict)}
        if len(dicts) != 1: raise Unsupported("other dictionaries")
        t = list(dicts.values())[0]
        if dict.__len__(t) or t.symbolic(): raise Unsupported("a tree that is not empty")
        m = zterm(s.obj._degree)
        if E.choose(["body", "exit"]) == "body":
            l = z3.Int(E.name("l")); E.assume(z3.And(l >= 1, l <= m))
            t.base = Union(s)
            yield Tok(False, (SInt(l), Level(s, l)))
            added = t.base.added
            E.prove("a level is in the tree exactly if its degree is at most the one asked for", z3.And([a == l for a in added] + [(l <= s.want) == bool(added)]))
            E.prove("nothing else is in the tree", not t.log and not dict.__len__(t))
            now = frame.f_locals
            if any(k in now and now[k] is not v for k, v in locs.items()): raise Unsupported("a local variable changes along the iterations")
            raise PathDone()
        t.base = Union(s); t.base.upto = s.want; s.result = t


class Session:
    def __init__(self, E, obj): self.E, self.obj = E, obj


def call(E, d):
    def run():
        P, X, eps = load(E, d)
        obj = make(E, P, X, eps)
        s = Session(E, obj)
        m = E.int("m"); E.assume(m.z >= 0)
        calls = []
        def add():
            calls.append(1)
            if len(calls) > 30: raise Unsupported("unbounded loop")
            obj._degree = obj._degree + 1
        obj._degree, obj._tree, obj._levels, obj._add_tree_level = m, Tree(Ghost(E, X, m.z, obj)), Kept(s), add
        P.range = lambda *a: Steps(s, a)
        how = E.choose(["degree", "keyword", "default", "None"])
        if how in ("default", "None"):
            s.want = m.z
            r = obj() if how == "default" else obj(None)
        else:
            D = E.int("D"); E.assume(D.z >= 0)
            s.want = D.z
            r = obj(D) if how == "degree" else obj(degree=D)
        E.prove("the levels are those of the largest degree asked for", zterm(obj.degree) == z3.If(s.want > m.z, s.want, m.z) if isinstance(obj.degree, (int, SInt)) else False)
        E.prove("the tree returned is not one the object keeps (which changes with the next requests)", not isinstance(r, (Tree, Level, Kept)) and all(v is not r for v in vars(obj).values()))
        ok = isinstance(r, VDict) and isinstance(r.base, Union) and r.base.upto is not None and not r.log and not r.base.added
        E.prove("the tree returned is made of the levels of degree at most the one asked for", ok, weak=True)
        E.prove("the levels and the tree kept are not replaced", isinstance(obj._levels, Kept) and isinstance(obj._tree, Tree) and not obj._tree.log, weak=True)
    return run


def verify(E):
    m = "UnivariateTree."
    for d in (1, 2, 3, 4, 5, 6):
        E.explore(f"a level of any degree, {d} coordinate(s)", add_level(E, d), m + "_add_tree_level")
    E.explore("tree of any degree after any requests", call(E, 2), m + "__call__")
    E.trusted += ["in the proof for any degree: contracts of PartialOrderDerivative (C06), Expectation (C05), Eq.isolate on linear equations (C08)",
                  "mixed derivatives are identified up to the order of their variables"]
