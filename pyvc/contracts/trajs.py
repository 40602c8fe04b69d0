"""shared by C02, C03: symbolic windows, iterates of the one-step map, trajectories"""
import z3
import engine
from engine import SReal, SVal, SBool, SymSeq, SInt, Candidate, Unsupported, zterm, VDict, VList, Proxy

S = z3.DeclareSort("State")
T = z3.Function("T", z3.IntSort(), z3.RealSort())            # times of the window
Idx = z3.Function("Idx", z3.RealSort(), z3.IntSort())        # inverse of T: the times are pairwise distinct
Saved = z3.Function("Saved", z3.RealSort(), z3.BoolSort())   # the times asked for
Iter = z3.Function("Iter", z3.IntSort(), S)                  # iterates of the one-step map
Step = z3.Function("Step", z3.RealSort(), S, z3.RealSort(), S)


class Shape:
    """shape of the states: unknown"""
    vc_frozen = True
    def __eq__(self, o): return SBool(z3.Bool(f"shape is {o}"))
    def __len__(self): raise Unsupported("number of axes of a state")
    def __getitem__(self, i): raise Unsupported("shape of a state")
    def __iter__(self): raise Unsupported("shape of a state")
    __hash__ = None


class State(SVal):
    """a state object: identity matters, [:]= changes it (refused in the arbitrary iteration of a loop, where the other
    references to it are not known; collections of concrete size then give the counterexample)"""
    def __setitem__(self, i, v):
        if i != slice(None) and i is not Ellipsis or not isinstance(v, SVal): raise Unsupported("partial assignment of a state")
        if engine.CUR.cut: raise Unsupported("state modified in place in a loop")
        self.z = v.z
    def _no(self, o): raise Unsupported("arithmetic on a state")
    __iadd__ = __isub__ = __imul__ = __itruediv__ = __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = _no
    def copy(self): return State(self.z)
    @property
    def shape(self): return Shape()


class Window(SymSeq):
    """window of n>=1 pairwise distinct times; membership is decided by the inverse of T"""
    def __init__(self, n, T=T, Idx=Idx):
        self.T, self.Idx = T, Idx
        super().__init__(n, self.at, "array", "window")
    def at(self, i):
        z = zterm(i)
        engine.CUR.assume(self.Idx(self.T(z)) == z)
        return SReal(self.T(z))
    def has(self, q):
        i = self.Idx(q)
        return z3.And(i >= 0, i < zterm(self.length), self.T(i) == q)
    def vc_contains(self, t):
        z = zterm(t)
        return False if z is None else SBool(self.has(z if z3.is_real(z) else z3.ToReal(z)))
    def vc_isinstance(self, classes): return object in classes
    def vc_type(self): return Window
    def tolist(self): return self


def concrete_window(n):
    E = engine.CUR
    for i in range(n): E.assume(Idx(T(i)) == i)
    return [SReal(T(z3.IntVal(i))) for i in range(n)]


class SavedTimes:
    """arbitrary collection of times"""
    vc_frozen = True
    def vc_contains(self, t): return SBool(Saved(zterm(t)))
    def __iter__(self): raise Unsupported("iteration over the saved times")
    def vc_isinstance(self, classes): return object in classes
    def vc_type(self): return SavedTimes


class Unique:
    """[x]: the list made of one time"""


def axiom_step(k):
    z = zterm(k)
    engine.CUR.assume(Iter(z + 1) == Step(T(z), Iter(z), T(z + 1) - T(z)))


class IterState(Candidate):
    name = "state = k-th iterate of the step map"
    def applies(self, init, L): return isinstance(init, SVal) and init.z.sort() == S
    def make(self, init, k):
        axiom_step(k)
        return State(Iter(zterm(k)))
    def check(self, init, value, k): return SBool(value.z == Iter(zterm(k))) if isinstance(value, SVal) and value.z.sort() == S else False


class TrajDict:
    """dictionary {T(i): Iter(i) for i<k if T(i) is saved}"""
    def __init__(self, k, saved): self.k, self.saved = zterm(k), saved
    def terms(self, q):
        i = Idx(q)
        return z3.And(i >= 0, i < self.k, T(i) == q, self.saved(q)), Iter(i)
    def lookup(self, key):
        p, v = self.terms(zterm(key))
        return SBool(p), State(v)
    def nonempty(self): raise Unsupported("emptiness of the trajectory")


def dict_terms(d, q, sort=S):
    """(presence, value) of the key q in a dictionary, as terms"""
    dflt = z3.Const("no_value", sort)
    if isinstance(d, VDict) and d.base is not None: p, v = d.base.terms(q)
    else: p, v = z3.BoolVal(False), dflt
    items = (d.log if d.symbolic() else list(dict.items(d))) if isinstance(d, VDict) else list(d.items())
    for kk, vv in items:
        zk = zterm(kk)
        if zk is None or not isinstance(vv, SVal) or vv.z.sort() != sort: raise Unsupported("entry of a trajectory that is not (time, state)")
        if z3.is_int(zk): zk = z3.ToReal(zk)
        p, v = z3.Or(q == zk, p), z3.If(q == zk, vv.z, v)
    return p, v


def same_dict(a, b, q, sort=S):
    pa, va = dict_terms(a, q, sort); pb, vb = dict_terms(b, q, sort)
    return z3.And(pa == pb, z3.Implies(pa, va == vb))


class DictTraj(Candidate):
    name = "dictionary = {T(i): i-th iterate, i<k, T(i) saved}"
    def __init__(self, saved): self.saved = saved
    def applies(self, init, L):
        return isinstance(init, (VDict, tuple)) and (isinstance(init, VDict) or len(init) == 3 and isinstance(init[2], dict))
    def mk(self, k):
        d = VDict(); d.base = TrajDict(k, self.saved); return d
    def make(self, init, k, obj=None):
        if obj is None: raise Unsupported("a dictionary rebuilt by the loop")
        obj.base, obj.log = TrajDict(k, self.saved), []
        dict.clear(obj)
        return obj
    def check(self, init, value, k):
        if isinstance(value, tuple):
            d = VDict(); d.vc_restore(value); value = d
        if not isinstance(value, VDict): return False
        q = engine.CUR.real("q").z
        return SBool(same_dict(value, self.mk(k), q))


# lists: the subsequence of the saved times
Count = z3.Function("Count", z3.IntSort(), z3.IntSort())      # number of saved times among the first k
Sel = z3.Function("Sel", z3.IntSort(), z3.IntSort())          # index of the j-th saved time


def axiom_count(k, saved):
    z = zterm(k)
    E = engine.CUR
    E.assume(z3.And(Count(0) == 0, Count(z + 1) == Count(z) + z3.If(saved(T(z)), 1, 0), Count(z) >= 0))
    E.assume(z3.Implies(saved(T(z)), Sel(Count(z)) == z))


class ListTraj(Candidate):
    """list of the first Count(k) elements Iter(Sel(j)): the iterates at the saved times, in order"""
    name = "list = iterates at the saved times among the first k, in order"
    def __init__(self, saved): self.saved = saved
    def applies(self, init, L):
        return isinstance(init, VList) or (isinstance(init, tuple) and len(init) == 2 and isinstance(init[1], list))
    def make(self, init, k, obj=None):
        if obj is None: raise Unsupported("a list rebuilt by the loop")
        axiom_count(k, self.saved)
        obj.base = SymSeq(SInt(Count(zterm(k))), lambda j: State(Iter(Sel(zterm(j)))))
        list.clear(obj)
        return obj
    def check(self, init, value, k):
        if isinstance(value, tuple):
            l = VList(); l.vc_restore(value); value = l
        if not isinstance(value, VList): return False
        return SBool(list_is(value, k))


def list_is(value, k):
    """value has exactly Count(k) elements, the j-th being Iter(Sel(j))"""
    E = engine.CUR
    own = list(list.__iter__(value))
    n = zterm(value.base.length) if value.base is not None else z3.IntVal(0)
    E.assume(Count(0) == 0)
    conds = [n + len(own) == Count(zterm(k))]
    j = E.int("j").z
    for m, v in enumerate(own):
        if not isinstance(v, SVal): return z3.BoolVal(False)
        conds.append(v.z == Iter(Sel(n + m)))
    if value.base is not None:
        b = value.base.get(SInt(j))
        if not isinstance(b, SVal): return z3.BoolVal(False)
        conds.append(z3.Implies(z3.And(j >= 0, j < n), b.z == Iter(Sel(j))))
    return z3.And(conds)
