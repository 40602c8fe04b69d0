"""C06: multi-indices.

Notations: coordinate systems of 1 to 4 coordinates, every order of derivation (symbolic integers), couples and sequences of every
length (the loops are cut by their invariants), against the number of derivations in each coordinate.
all_of_degree: every degree; the loop of the generations is cut by the invariant
    `fathers` of generation g  =  Q(g) = {a : a_0 = n-g, a_i >= 0 for i>0, sum a = n},
and the sets produced by a loop over a set are followed symbolically, so that the generator yields each element of Q(g) once, for g=0..n."""
import itertools, types
import z3
import engine
from engine import SInt, SReal, SBool, SVal, SymSeq, VList, VSet, Proxy, Candidate, Unsupported, zterm, PathDone
from loader import World
from . import symb
import cas

I = z3.IntSort()
C = z3.Function("coordinate_at", I, I)       # the coordinates of a sequence / of a list of couples
N = z3.Function("order_at", I, I)            # the orders of a list of couples
P = z3.Function("partial_sum", I, I, I)      # P(i, k): order in the coordinate i of the first k couples
Cnt = z3.Function("count", I, I)             # number of occurrences of the coordinate i in a sequence


class Co(Proxy):
    """a coordinate: an abstract object; z: its index (0..d-1 for those of the system)"""
    vc_frozen = True
    __slots__ = ("z",)
    def __init__(self, z): self.z = z if not isinstance(z, int) else z3.IntVal(z)
    def __eq__(self, o): return SBool(self.z == o.z) if isinstance(o, Co) else False
    def __ne__(self, o): return SBool(self.z != o.z) if isinstance(o, Co) else True
    def __hash__(self): return 7              # (equality decides)
    def __repr__(self): return f"<coordinate {self.z}>"
    def vc_isinstance(self, classes): return object in classes or any("Symbol" in cas.kinds_of(c) for c in classes)
    def vc_str(self): raise Unsupported("name of an abstract coordinate")
    def __iter__(self): raise TypeError("a coordinate is not iterable")
    def __len__(self): raise TypeError("a coordinate has no len")


class Items(SymSeq):
    """sequence of arbitrary length; the elements are alike, but for the one at `odd`"""
    def __init__(self, n, get, kind, odd=None):
        super().__init__(n, get, kind)
        self.odd = odd
    def probes(self): return [0] + ([self.odd, self.length - 1] if self.odd is not None else [])
    def vc_comp(self, loops, kind, gens, elt):
        if len(gens) != 1 or gens[0][1] or kind not in ("list", "gen", "tuple"): raise Unsupported("comprehension over a sequence")
        if not bool(self): return VList([]) if kind == "list" else iter(())
        for p in self.probes(): elt(self.get(p))                 # (may raise)
        r = Items(self.length, lambda i: elt(self.get(i)), "list", self.odd)
        return VList(r) if kind == "list" else r
    def vc_test(self, x):
        return Items(self.length, lambda i: self.get(i) == x, "list", self.odd)
    def vc_quantified(self, exists):
        E = engine.CUR
        if not bool(self): return not exists
        for p in self.probes():
            if bool(self.get(p)) == exists: return exists
        if E.choose([True, False]):
            k = E.int("w"); E.assume(z3.And(k.z >= 0, k.z < zterm(self.length)))
            E.assume(bool(self.get(k)) == exists)
            return exists
        return not exists
    def __iter__(self):
        i = 0
        while bool(self.length > i):
            if i > 4: raise Unsupported("iteration over a sequence of symbolic length")
            yield self.get(i); i += 1
    def vc_contains(self, x):
        if isinstance(x, bool): return self.vc_test(x).vc_quantified(True)
        raise Unsupported("membership in a sequence of symbolic length")
    def count(self, x):
        if not isinstance(x, Co): raise Unsupported("count of something that is not a coordinate")
        if getattr(self, "counts", None) is None: raise Unsupported("count")
        return SInt(self.counts(x.z))


def load(E):
    W = symb.world()
    M = W.load("vsympkf.symbolic.pkfcas")
    return W, M.PartialOrderDerivative


def coords(E, d): return E.choose([list, tuple])([Co(i) for i in range(d)])


def same_orders(p, orders):
    t = p.as_tuple
    if len(t) != len(orders): return False
    return z3.And([zterm(a) == zterm(b) for a, b in zip(t, orders)])


def views(E, p, X, orders, what):
    E.prove(f"{what}: the tuple view", same_orders(p, orders) if isinstance(p.as_tuple, tuple) or hasattr(p.as_tuple, "__len__") else False)
    c = list(p.as_couples)
    ok = len(c) == len(X) and all(len(q) == 2 and isinstance(q[0], Co) and q[0] is x for q, x in zip(c, X))
    E.prove(f"{what}: the couples view lists the coordinates in order", ok, detail=str(c)[:300])
    if ok: E.prove(f"{what}: the couples view has the orders", z3.And([zterm(q[1]) == zterm(o) for q, o in zip(c, orders)]))
    s = p.as_sequence
    n = s.slen() if isinstance(s, (VList, SymSeq)) else len(s)
    E.prove(f"{what}: the length of the sequence is the degree", zterm(n) == z3.Sum([zterm(o) for o in orders] + [z3.IntVal(0)]))
    E.prove(f"{what}: each coordinate occurs its order of times in the sequence", z3.And([zterm(s.count(x)) == zterm(o) for x, o in zip(X, orders)]))


def nat(E, base):
    v = E.int(base); E.assume(v.z >= 0)
    return v


def from_tuple(E, d):
    def run():
        W, POD = load(E)
        X = coords(E, d)
        a = tuple(nat(E, f"a{i}") for i in range(d))
        p = POD(X, a)
        views(E, p, X, a, "from a tuple")
        E.prove("the coordinates are kept", p.coordinates is X or list(p.coordinates) == list(X))
    return run


def round_trip(E, d, how):
    def run():
        W, POD = load(E)
        X = coords(E, d)
        a = tuple(nat(E, f"a{i}") for i in range(d))
        p = POD(X, a)
        q = {"copy": lambda: p.copy(), "tuple": lambda: p.new(p.as_tuple), "couples": lambda: p.new(p.as_couples), "sequence": lambda: POD(X, seq_of(p))}[how]()
        E.prove("the multi-index is the same", same_orders(q, a))
        E.prove("they compare equal", bool(q == p))
    def seq_of(p):
        s = p.as_sequence
        if not (isinstance(s, VList) and s.symbolic()): return s
        q = s.as_seq()
        r = Items(q.length, q.get, "list")
        if getattr(q, "runs", None) is not None:
            r.counts = lambda z: z3.Sum([z3.If(v.z == z, zterm(m), 0) for v, m in q.runs])
        return r
    return run


def equality(E, d):
    def run():
        W, POD = load(E)
        X = coords(E, d)
        a = tuple(nat(E, f"a{i}") for i in range(d)); b = tuple(nat(E, f"b{i}") for i in range(d))
        E.prove("two multi-indices compare equal exactly when their orders are", bool(POD(X, a) == POD(X, b)) == z3.And([u.z == v.z for u, v in zip(a, b)]))
    return run


class Orders(Candidate):
    """list of d integers: the orders of the first k couples"""
    name = "orders[i] = order in the coordinate i of the couples met so far"
    def __init__(self, d): self.d = d
    def applies(self, init, L):
        l = init[1] if isinstance(init, tuple) and len(init) == 2 and isinstance(init[1], list) else None
        return l is not None and init[0] is None and len(l) == self.d and all(isinstance(v, (int, SInt)) for v in l)
    def make(self, init, k, obj=None):
        obj.vc_restore((None, [SInt(P(z3.IntVal(i), zterm(k))) for i in range(self.d)]))
        return obj
    def check(self, init, value, k):
        l = value[1] if isinstance(value, tuple) else list(list.__iter__(value)) if isinstance(value, VList) and not value.symbolic() else None
        if l is None or len(l) != self.d or not all(isinstance(v, (int, SInt)) for v in l): return False
        return SBool(z3.And([zterm(v) == P(z3.IntVal(i), zterm(k)) for i, v in enumerate(l)]))


def couple_list(E, d, n, odd=None, bad=None):
    def get(k):
        z = zterm(k)
        E.assume(z3.And(C(z) >= 0, C(z) < d, N(z) >= 0))
        for i in range(d): E.assume(z3.And(P(z3.IntVal(i), 0) == 0, P(z3.IntVal(i), z + 1) == P(z3.IntVal(i), z) + z3.If(C(z) == i, N(z), 0)))
        return (Co(C(z)), SInt(N(z)))
    return Items(n, get, "list")


def from_couples(E, d):
    def make(size):
        def run():
            W, POD = load(E)
            W.vc.vocab = [Orders(d)]
            X = coords(E, d)
            if size is None:
                n = E.int("n"); E.assume(n.z >= 1)
                l = couple_list(E, d, n)
                want = [SInt(P(z3.IntVal(i), n.z)) for i in range(d)]
                for i in range(d): E.assume(P(z3.IntVal(i), 0) == 0)
            else:
                if size == 0: raise PathDone()
                js = [E.choose(list(range(d))) for _ in range(size)]
                ns = [nat(E, f"n{k}") for k in range(size)]
                l = [(X[j], m) for j, m in zip(js, ns)]
                want = [SInt(z3.Sum([z3.IntVal(0)] + [m.z for j, m in zip(js, ns) if j == i])) for i in range(d)]
            p = POD(X, l)
            E.prove("from couples: the orders of a same coordinate add up", same_orders(p, want))
        return run
    return make


def from_couple(E, d):
    def run():
        W, POD = load(E)
        X = coords(E, d)
        j = E.choose(list(range(d))); n = nat(E, "n")
        p = POD(X, (X[j], n))
        E.prove("from one couple", same_orders(p, [n if i == j else 0 for i in range(d)]))
    return run


def sequence(E, d, kind, n, odd=None, what=None):
    def get(k):
        z = zterm(k)
        if odd is not None:
            if k is odd or bool(SBool(z == odd.z)): return what
        E.assume(z3.And(C(z) >= 0, C(z) < d))
        return Co(C(z))
    s = Items(n, get, kind, odd)
    if odd is None:
        s.counts = lambda z: Cnt(z)
        E.assume(z3.And([Cnt(z3.IntVal(i)) >= 0 for i in range(d)] + [z3.Sum([Cnt(z3.IntVal(i)) for i in range(d)]) == zterm(n)]))
    else: s.counts = lambda z: Cnt(z)
    return s


def from_sequence(E, d):
    def make(size):
        def run():
            W, POD = load(E)
            X = coords(E, d)
            kind = E.choose(["list", "tuple"])
            if size is None:
                s = sequence(E, d, kind, nat(E, "n"))
                want = [SInt(Cnt(z3.IntVal(i))) for i in range(d)]
            else:
                js = [E.choose(list(range(d))) for _ in range(size)]
                s = {"list": VList, "tuple": tuple}[kind]([X[j] for j in js])
                want = [js.count(i) for i in range(d)]
            p = POD(X, s)
            E.prove("from a sequence: the order in each coordinate is its number of occurrences", same_orders(p, want))
        return run
    return make


def invalid(E, d):
  def make(size):
    def run():
        W, POD = load(E)
        X = coords(E, d)
        other = Co(d + 3)
        kind = E.choose(["tuple length", "tuple element", "foreign one", "one couple order", "foreign couple", "couple order", "couple shape", "sequence list", "sequence tuple"])
        n = E.int("n")
        if kind == "tuple length":
            m = E.choose([k for k in range(1, 6) if k != d])
            bad = tuple(nat(E, f"a{i}") for i in range(m))
        elif kind == "tuple element":
            j = E.choose(list(range(d)))
            bad = tuple(E.real("r") if i == j else nat(E, f"a{i}") for i in range(d))
        elif kind == "foreign one": bad = (other, nat(E, "m"))
        elif kind == "one couple order": bad = (X[E.choose(list(range(d)))], E.real("r"))
        else:
            odd = E.int("odd"); E.assume(z3.And(n.z >= 1, odd.z >= 0, odd.z < n.z))
            if kind.startswith("sequence"):
                what = E.choose([other, "x", nat(E, "m")])
                if isinstance(what, SInt) and kind == "sequence tuple": E.assume(z3.And(n.z > 1, z3.Or(n.z != 2, odd.z != 1)))     # (n,) and (x, n) are valid
                bad = sequence(E, d, kind.split()[1], n, odd, what)
            else:
                what = {"foreign couple": (other, nat(E, "m")), "couple order": (X[0], E.real("r")), "couple shape": E.choose([other, (X[0],), (X[0], nat(E, "m"), nat(E, "m2"))])}[kind]
                good = couple_list(E, d, n)
                bad = Items(n, lambda k: what if bool(SBool(zterm(k) == odd.z)) else good.get(k), "list", odd)
            if size is not None:
                E.assume(n.z == size)
                bad = {"list": VList, "tuple": tuple}[bad.kind]([bad.get(SInt(z3.IntVal(k))) for k in range(size)])
        try: p = POD(X, bad)
        except TypeError as e:
            E.prove("anything else raises TypeError", True)
            return
        except (ValueError, IndexError, AttributeError, KeyError) as e:
            E.prove("anything else raises TypeError", False, detail=f"{kind}: {type(e).__name__} {e}")
            return
        E.prove("anything else raises TypeError", False, detail=f"{kind} accepted in {d} coordinates")
    return run
  return make


# ---------------------------------------------------------------------- all_of_degree
class Ints:
    """integer array with one axis"""
    vc_frozen = True
    def __init__(self, l): self.l = list(l)
    def __setitem__(self, i, v):
        if not isinstance(i, int) or not isinstance(v, (int, SInt)): raise Unsupported("assignment in an array")
        self.l[i] = v
    def __getitem__(self, i):
        if isinstance(i, slice): return Ints(self.l[i])
        if not isinstance(i, int): raise Unsupported("item of an array")
        return self.l[i]
    def _op(self, o, f):
        if isinstance(o, (int, SInt)): return Ints([f(a, o) for a in self.l])
        o = list(o)
        if len(o) != len(self.l): raise ValueError("shapes")
        return Ints([f(a, b) for a, b in zip(self.l, o)])
    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __iter__(self): return iter(list(self.l))
    def __len__(self): return len(self.l)
    def copy(self): return Ints(self.l)
    def sum(self): return sum(self.l, 0)
    def tolist(self): return VList(self.l)
    @property
    def shape(self): return (len(self.l),)
    def __eq__(self, o): raise Unsupported("comparison of arrays")
    __hash__ = None


def numpy_ints():
    from models_np import Missing
    m = Missing("numpy")
    def zeros(n, dtype=float):
        if dtype is not int and getattr(dtype, "vc_class", None) is not int: raise Unsupported("array of another type")
        return Ints([0] * int(n))
    m.zeros = zeros
    m.asarray = lambda a, **k: a if isinstance(a, Ints) else Ints(a)
    m.array = lambda a, **k: Ints(list(a))
    m.eye = m.identity = lambda n, dtype=float: [Ints([int(i == j) for j in range(n)]) for i in range(n)]
    return m


class QSet:
    """the set Q(g) of the multi-indices of total degree n whose first order is n-g"""
    vc_frozen = True
    def __init__(self, ctl, g): self.ctl, self.g = ctl, zterm(g)
    def has(self, a): return self.ctl.Q(self.g, a)
    def vc_seq(self): return self
    def vc_len(self): raise Unsupported("size of a symbolic set")
    def vc_loop(self, loops, ident):
        """the loop over the set: the body for an arbitrary element; the elements it adds to sets make a family"""
        E, ctl = engine.CUR, self.ctl
        if not bool(SBool(ctl.nonempty(self.g))): return
        f = [z3.Int(E.name("f")) for _ in range(ctl.d)]
        E.assume(self.has(f))
        before = len(E.taken)
        elem = tuple(SInt(v) for v in f)
        frame = __import__("sys")._getframe(2)
        sets = [(v, v.vc_snapshot()) for v in frame.f_locals.values() if isinstance(v, VSet)]
        others = [(v, list(v.l)) for v in frame.f_locals.values() if isinstance(v, Ints)] + [(v, list(list.__iter__(v))) for v in frame.f_locals.values() if isinstance(v, VList) and not v.symbolic()]
        ctl.loops.append({"elem": f, "set": self, "yields": []})
        yield engine.Tok(False, elem)
        me = ctl.loops[-1]
        me["done"] = True
        if len(E.taken) != before and any(k for k in E.prefix[before:]): me["split"] = True
        if len(E.taken) != before: me["split"] = True
        for v, s in others:
            now = list(v.l) if isinstance(v, Ints) else list(list.__iter__(v))
            if len(now) != len(s) or any(a is not b and not (isinstance(a, int) and isinstance(b, int) and a == b) for a, b in zip(now, s)): raise Unsupported("a loop over a set changes an array")
        for v, (s, fam) in sets:
            new = [e for e in set.__iter__(v) if not any(e is q for q in s)]
            if not new and len(v.fam) == len(fam): continue
            if me.get("split"): raise Unsupported("additions to a set under conditions")
            v.vc_restore((s, fam + [(f, self.has(f), e) for e in new]))
        # (a loop that yields and a loop that adds are both followed by the rest of the generation)


def members(s, a):
    """condition: the tuple a belongs to the set s (families eliminated by their witnesses, proved in both directions)"""
    conds = [z3.And([zterm(x) == y for x, y in zip(e, a)]) for e in set.__iter__(s)]
    return conds, list(s.fam)


class Fathers(Candidate):
    name = "the set of the generation is Q(g)"
    def __init__(self, ctl): self.ctl = ctl
    def applies(self, init, L): return isinstance(init, (VSet, QSet))
    def make(self, init, k, obj=None):
        if obj is not None: raise Unsupported("a set filled along the generations")
        return QSet(self.ctl, k)
    def check(self, init, value, k):
        E, d = engine.CUR, self.ctl.d
        if isinstance(value, QSet): return SBool(value.g == zterm(k))
        if not isinstance(value, VSet): return False
        a = [z3.Int(E.name("a")) for _ in range(d)]
        conds, fam = members(value, a)
        Qa = self.ctl.Q(zterm(k), a)
        # every element is in Q(k)
        for e in set.__iter__(value):
            if not E.holds(self.ctl.Q(zterm(k), [zterm(x) for x in e])): return False
        for f, g, e in fam:
            if not E.holds(z3.Implies(g, self.ctl.Q(zterm(k), [zterm(x) for x in e]))): return False
        # every element of Q(k) is there: solve e(f) = a for f (unit shifts), and check the guard
        for f, g, e in fam:
            back = []
            for fi, x in zip(f, e):
                shift = z3.simplify(zterm(x) - fi)
                back.append(shift)
            if any(any(v.eq(fi) for v in z3.z3util.get_vars(s) for fi in f) for s in back): raise Unsupported("family of a set")
            sub = [(fi, ai - s) for fi, ai, s in zip(f, a, back)]
            conds.append(z3.substitute(g, *sub))
        return SBool(z3.Implies(Qa, z3.Or(conds + [z3.BoolVal(False)])))


class Counter(Candidate):
    name = "counts the generations"
    def applies(self, init, L): return isinstance(init, int) and not isinstance(init, bool)
    def make(self, init, k, obj=None): return SInt(init + zterm(k))
    def check(self, init, value, k): return SBool(zterm(value) == init + zterm(k)) if isinstance(value, (int, SInt)) else False


class Generations:
    def __init__(self, d, n): self.d, self.n, self.loops = d, n, []
    def Q(self, g, a): return z3.And([a[0] == self.n - g] + [v >= 0 for v in a[1:]] + [z3.Sum(list(a)) == self.n])
    def nonempty(self, g): return g >= 0 if self.d > 1 else g == 0


def all_of_degree(E, d):
    def make(size):
        def run():
            W, POD = load(E)
            X = coords(E, d)
            if size is not None:
                got = [p.as_tuple for p in POD.all_of_degree(X, size)]
                want = [a for a in itertools.product(range(size + 1), repeat=d) if sum(a) == size]
                E.prove("every multi-index of the degree once, nothing else", sorted(got) == sorted(want), detail=str(got)[:300])
                return
            W.models["numpy"] = numpy_ints()
            n = nat(E, "n")
            ctl = Generations(d, n.z)
            W.vc.vocab = [Fathers(ctl), Counter()]
            whiles = [k for k in ("PartialOrderDerivative.all_of_degree:while0",)]
            W.vc.cut_whiles = set(whiles); W.vc.generators = set(whiles)
            g, a = z3.Int("g"), [z3.Int(f"some{i}") for i in range(d)]
            E.prove("Q(g) is empty exactly when stated", z3.Implies(g >= 0, z3.If(ctl.nonempty(g), ctl.Q(g, witness(ctl, g)), z3.Not(ctl.Q(g, a)))))
            gen = POD.all_of_degree(X, n)
            yields = []
            try:
                for p in gen:
                    me = ctl.loops[-1] if ctl.loops else None
                    if me is None or me.get("done"): raise Unsupported("a multi-index yielded out of the loops over the generations")
                    me["yields"].append(p)
                    t = p.as_tuple
                    E.prove("nothing else than the multi-indices of the degree is yielded", z3.And([zterm(v) >= 0 for v in t] + [z3.Sum([zterm(v) for v in t]) == n.z]) if len(t) == d else False)
                    E.prove("the multi-indices are those of the coordinates", p.coordinates is X or list(p.coordinates) == list(X))
            except PathDone:
                # the end of an arbitrary generation
                if E.solver.check() != z3.unsat and ctl.loops and all(l.get("done") for l in ctl.loops):
                    ys = [l for l in ctl.loops if l["yields"]]
                    ok = len(ys) == 1 and len(ys[0]["yields"]) == 1 and not ys[0].get("split")
                    E.prove("each element of a generation is yielded once", ok, weak=True)
                    if ok: E.prove("the element itself is yielded", z3.And([zterm(v) == f for v, f in zip(ys[0]["yields"][0].as_tuple, ys[0]["elem"])]), weak=True)
                raise
            k = z3.Int("k_PartialOrderDerivative.all_of_degree:while0")
            E.prove("the generations stop after the last one", k > n.z, weak=True)
        return run
    return make


def witness(ctl, g):
    if ctl.d == 1: return [ctl.n - g]
    return [ctl.n - g, g] + [z3.IntVal(0)] * (ctl.d - 2)


def verify(E):
    E.trusted += ["python lists, tuples, sets; numpy integer arrays (sums, item assignment)"]
    E.assumptions += ["coordinate systems of 1 to 6 coordinates (lists of couples, sequences, refusals and all_of_degree: 1 to 4), pairwise distinct (shape bound); orders are integers >= 0",
                      "all_of_degree: a loop over a set visits each of its elements once"]
    m = "sympkf.symbolic.pkfcas.PartialOrderDerivative."
    E.functions += [m + f for f in ("as_tuple", "as_couples", "as_sequence", "_builder", "is_as_tuple", "is_as_couples", "is_as_sequence", "_set_from_tuple", "_set_from_couples",
                                    "_set_from_sequence", "new", "copy", "__eq__", "coordinates")]
    for d in (1, 2, 3, 4):
        E.explore(f"tuple notation [{d} coordinates]", from_tuple(E, d), m + "__init__")
        E.explore(f"one couple [{d} coordinates]", from_couple(E, d), m + "__init__")
        E.explore_n(f"couples notation [{d} coordinates]", from_couples(E, d), m + "__init__", sizes=(1, 2, 3))
        E.explore_n(f"sequence notation [{d} coordinates]", from_sequence(E, d), m + "__init__", sizes=(0, 1, 2, 3))
        for how in ("copy", "tuple", "couples", "sequence"): E.explore(f"round trip by {how} [{d} coordinates]", round_trip(E, d, how), m + "new")
        E.explore(f"equality [{d} coordinates]", equality(E, d), m + "__eq__")
        E.explore_n(f"invalid orders [{d} coordinates]", invalid(E, d), m + "__init__", sizes=(1, 2, 3))
        E.explore_n(f"all_of_degree [{d} coordinates]", all_of_degree(E, d), m + "all_of_degree", sizes=range(0, 7))
    for d in (5, 6):
        E.explore(f"tuple notation [{d} coordinates]", from_tuple(E, d), m + "__init__")
        E.explore(f"one couple [{d} coordinates]", from_couple(E, d), m + "__init__")
        for how in ("copy", "tuple", "couples", "sequence"): E.explore(f"round trip by {how} [{d} coordinates]", round_trip(E, d, how), m + "new")
        E.explore(f"equality [{d} coordinates]", equality(E, d), m + "__eq__")
