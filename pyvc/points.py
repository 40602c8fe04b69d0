"""Sets known pointwise.

A property of sets is proved for one arbitrary element e (the witness): a set is the truth of `e in set` (a condition), whatever the
number of its other elements.  Union, difference, .. act on that condition.  A loop over such a set is an arbitrary iteration: for
every other element x the body is shown to leave everything as it was (the membership of e, lists), so that its effect is that of
the iterations on the witness and on the distinguished elements the contract names, in every order."""
import sys
import z3
import engine
from engine import SBool, SInt, VList, VSet, Proxy, SymSeq, Tok, Poison, LoopCtx, Unsupported, PathDone, Candidate, reachable, zterm


class World_:
    """the witness of the exploration in progress; equal(x) -> condition that x is the witness; other(tag) -> another arbitrary element of
    a kind; sequence(seq) -> condition that the witness is in a sequence"""
    def __init__(self, e, equal, other, sequence): self.e, self.equal, self.other, self.sequence, self.unfinished = e, equal, other, sequence, []


NOW = [None]


def flat(c): return z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))


class PSet:
    """member: condition that the witness is in the set; marked: other elements that are in it; tag: kind of the others (None: there are none)"""
    vc_frozen = True
    def __init__(self, a=None, member=None, marked=(), tag=None):
        self.member, self.marked, self.tag = (z3.BoolVal(False) if member is None else flat(member)), list(marked), tag
        if a is not None: self.update(a)
    # --- what another collection says of the witness
    @staticmethod
    def of(o):
        if isinstance(o, PSet): return o.member, list(o.marked), o.tag
        if isinstance(o, VSet) and not o.fam or isinstance(o, (tuple, list, set, frozenset)) and not (isinstance(o, VList) and o.symbolic()):
            l = list(set.__iter__(o)) if isinstance(o, set) else list(o)
            es = [flat(tobool(NOW[0].equal(x))) for x in l]
            rest = [x for x, c in zip(l, es) if not z3.is_true(c)]
            return z3.Or(es) if es else z3.BoolVal(False), [], (("mixed",) if rest else None)
        return flat(NOW[0].sequence(o)), [], ("mixed",)
    def update(self, *its):
        engine.CUR.touch(self)
        for it in its:
            m, k, t = PSet.of(it)
            self.member, self.marked = flat(z3.Or(self.member, m)), self.marked + [x for x in k if x not in self.marked]
            self.tag = t if self.tag is None else self.tag if t is None or t == self.tag else ("mixed",)
    def add(self, x): self.update((x,))
    def __ior__(self, o): self.update(o); return self
    def copy(self): return PSet(member=self.member, marked=self.marked, tag=self.tag)
    def union(self, *os):
        r = self.copy(); r.update(*os); return r
    def difference(self, *os):
        m = self.member
        for o in os: m = z3.And(m, z3.Not(PSet.of(o)[0]))
        # a marked element may have been removed: it is then one of the others
        return PSet(member=m, tag=self.tag if not self.marked else ("mixed",))
    def difference_update(self, *os):
        r = self.difference(*os); engine.CUR.touch(self)
        self.member, self.marked, self.tag = r.member, r.marked, r.tag
    def intersection(self, *os):
        m = self.member
        for o in os: m = z3.And(m, PSet.of(o)[0])
        return PSet(member=m, tag=("mixed",))
    def discard(self, x): self.difference_update((x,))
    __or__ = union
    __sub__ = difference
    __and__ = intersection
    def __isub__(self, o): self.difference_update(o); return self
    def vc_contains(self, x):
        c = flat(tobool(NOW[0].equal(x)))
        if not z3.is_true(c): raise Unsupported("membership of another element")
        return SBool(self.member)
    def __contains__(self, x): return bool(self.vc_contains(x))
    def _no(self, *a, **k): raise Unsupported("operation on a set known pointwise")
    __bool__ = __len__ = __iter__ = __eq__ = __ne__ = __le__ = __lt__ = __ge__ = __gt__ = pop = remove = vc_len = _no
    __hash__ = None
    def __getattr__(self, k):
        if k.startswith("vc_") or k.startswith("__"): raise AttributeError(k)
        raise Unsupported(f"set.{k} on a set known pointwise")
    def vc_snapshot(self): return (self.member, list(self.marked), self.tag)
    def vc_restore(self, s): self.member, self.marked, self.tag = s[0], list(s[1]), s[2]
    def __repr__(self): return f"<set with the witness if {self.member}>"

    # --- loops
    def vc_loop(self, loops, ident):
        E = engine.CUR
        frame = sys._getframe(2)
        if frame.f_code.co_flags & 0x20: raise Unsupported("loop over a symbolic collection in a generator")
        now = NOW[0]
        special = list(self.marked)
        if bool(SBool(self.member)): special.append(now.e)
        if len(special) > 1 and E.choose([False, True]): special.reverse()
        other = self.tag is not None and E.choose([False, True])
        now.unfinished.append(ident)
        todo = special
        if other: todo = special[:E.choose(list(range(len(special) + 1)))]
        ctx = PointCtx()
        for v in todo: yield Tok(False, v, ctx)
        if other:
            x = now.other(self.tag)
            before = state(sys._getframe(2))
            yield Tok(False, x, ctx)
            for path, obj, snap in before:
                if not unchanged(obj, snap): raise Unsupported(f"an iteration of loop {ident} on an arbitrary element changes {path}")
            raise PathDone()
        now.unfinished.remove(ident)
        yield Tok(True, None, ctx)

    def vc_comp(self, vc, kind, gens, elt):
        if len(gens) != 1 or kind not in ("list", "gen", "set"): raise Unsupported("comprehension over a set known pointwise")
        now, conds = NOW[0], gens[0][1]
        inside = bool(SBool(self.member))
        keep = lambda x: all(bool(c(x)) for c in conds)
        inside = inside and keep(now.e)
        value = elt(now.e) if inside else None
        sets = True if not inside else value is now.e
        # the other elements: an arbitrary one
        marked, image = [], None
        if self.tag is not None:
            x = now.other(self.tag)
            if keep(x): image = elt(x); sets = sets and image is x
        for x in self.marked:
            if keep(x): marked.append(x); sets = sets and elt(x) is x
        if sets: return PSet(member=z3.BoolVal(inside), marked=marked, tag=self.tag)
        if marked or kind == "set": raise Unsupported("image of a set known pointwise")
        return Image(self, value, z3.BoolVal(inside), image)


class PointCtx(LoopCtx):
    def __init__(self): super().__init__(); self.names = ()
    def vc_head(self, tok, names, loc):
        # the values left by the other iterations are not known
        self.names = names
        return [Poison(n) for n in names]


class Maximum(engine.SInt):
    """(attained: by the element of interest)"""


class Image:
    """values of a function on a set known pointwise (value: on the witness when it is a member; image: on an arbitrary other element, if any)
    with other known values"""
    vc_frozen = True
    def __init__(self, s, value, member, image, more=()): self.s, self.value, self.member, self.image, self.more = s, value, member, image, list(more)
    def vc_radd(self, l): return Image(self.s, self.value, self.member, self.image, self.more + list(l))
    __add__ = vc_radd
    def vc_extreme(self, f, key):
        if f is not max or set(key) - {"default"}: raise Unsupported("minimum of a set known pointwise")
        E = engine.CUR
        inside = z3.is_true(self.member)
        if not self.more and "default" not in key: raise Unsupported("maximum of a set that may be empty")
        # who attains it: the witness, another element, one of the known values, or nobody (default)
        who = (["witness"] if inside else []) + (["other"] if self.image is not None else []) + (["known"] if self.more else [])
        if "default" in key and not self.more and not inside: who.append("default")
        who = E.choose(who)
        if who == "default": return key["default"]
        M = Maximum(E.int("maximum").z); M.attained = z3.BoolVal(who == "witness")
        for v in self.more: E.assume(M.z >= zterm(v))
        if inside: E.assume(M.z >= zterm(self.value))
        if who == "known": E.assume(z3.Or([M.z == zterm(v) for v in self.more]))
        else: E.assume(M.z == zterm(self.value if who == "witness" else self.image))
        return M
    def __iter__(self): raise Unsupported("iteration over a set known pointwise")


def tobool(v):
    v = engine.tobool(v)
    return v if z3.is_expr(v) else z3.BoolVal(bool(v))


def state(frame):
    return [(p, o, o.vc_snapshot()) for p, o in reachable(frame.f_locals)]


def unchanged(obj, snap):
    now = obj.vc_snapshot()
    if isinstance(obj, PSet): return engine.CUR.holds(now[0] == snap[0]) and len(now[1]) == len(snap[1])
    if isinstance(obj, VList): return now[0] is snap[0] and len(now[1]) == len(snap[1]) and all(a is b for a, b in zip(now[1], snap[1]))
    if isinstance(obj, dict): return now[0] is snap[0] and len(now[1]) == len(snap[1]) and now[2].keys() == snap[2].keys() and all(now[2][k] is snap[2][k] for k in snap[2])
    if isinstance(obj, VSet): return now[0] == snap[0] and len(now[1]) == len(snap[1])
    return now == snap


def parts(v): return (v.member, v.marked, v.tag) if isinstance(v, PSet) else v


class Kind_(Candidate):
    """a set of elements of one kind"""
    def applies(self, init, L): return isinstance(init, tuple) and len(init) == 3 and z3.is_expr(init[0])
    def check(self, init, v, k):
        m, marked, tag = parts(v)
        if tag not in (None, self.tag) or marked and not self.marked_too: return False
        return self.cond(m, zterm(k))
    def make(self, init, k, obj):
        obj.member, obj.marked, obj.tag = self.value(zterm(k)), [], self.tag
        return obj


class Never(Kind_):
    """the witness is not in the set"""
    def __init__(self, tag, marked_too): self.tag, self.marked_too, self.name = tag, marked_too, f"the element is not in it ({tag})"
    def cond(self, m, k): return z3.Not(m)
    def value(self, k): return z3.BoolVal(False)


class Accumulated(Kind_):
    """the witness is in the set after k iterations if and only if it is in one of the first k collections: acc(k+1) = acc(k) or P(k)"""
    def __init__(self, name, acc, P, tag, marked_too):
        self.name, self.acc, self.P, self.tag, self.marked_too = f"the element is in {name} of a previous equation ({tag})", acc, P, tag, marked_too
    def value(self, k): return self.acc(k)
    def cond(self, m, k):
        ax = z3.And(z3.Not(self.acc(z3.IntVal(0))), z3.Implies(k >= 1, self.acc(k) == z3.Or(self.acc(k - 1), self.P(k - 1))))
        return z3.Implies(ax, m == self.acc(k))
