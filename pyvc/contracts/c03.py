"""C03: ensemble forecasts are the forecasts of the members, serial or parallel; forecast_tl the difference quotients;
the columns of make_M the forecasts of the Dirac states"""
import z3
import engine
from engine import SReal, SVal, SBool, SymSeq, SInt, Candidate, Unsupported, zterm, VDict, VList, Proxy
from loader import World
from models_np import numpy_model, mp_model, float64
from vecs import Space, Vec
from .trajs import S, T, Idx, Window, concrete_window

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
Member = z3.Function("member", I, S)                 # the states of the ensemble
Fc = z3.Function("forecast", S, R, S)                # contract of forecast (C02): value at time q of the forecast of a state
Asked = z3.Function("Asked", R, B)                   # the saved times
SaveAt = z3.Function("saved_time", I, R)             # their enumeration, without repetition
SaveRank = z3.Function("saved_rank", R, I)
Ns = z3.Int("number_of_saved_times")
Key = z3.Function("forecast_key", I, R)              # order of the keys of a forecast
KeyRank = z3.Function("forecast_key_rank", R, I)
Nk = z3.Int("number_of_keys")
Nw = z3.Int("n_window")


def in_window(q): return z3.And(Idx(q) >= 0, Idx(q) < Nw, T(Idx(q)) == q)


class Times(SymSeq):
    """collection of distinct times"""
    vc_frozen = True
    def __init__(self, n, at, rank, member, kind, name):
        self.name, self.rank, self.member, self.at_ = name, rank, member, at
        super().__init__(SInt(n), self.at, kind)
    def facts(self, i, q):
        n = zterm(self.length)
        return z3.And(z3.Implies(z3.And(i >= 0, i < n), z3.And(self.rank(self.at_(i)) == i, self.member(self.at_(i)))),
                      self.member(q) == z3.And(self.rank(q) >= 0, self.rank(q) < n, self.at_(self.rank(q)) == q))
    def at(self, i):
        z = zterm(i); q = self.at_(z)
        E = engine.CUR
        E.assume(z3.Implies(z3.And(z >= 0, z < zterm(self.length)), z3.And(self.rank(q) == z, self.member(q))))
        return SReal(q)
    def know(self, q):
        """instance of the enumeration axiom for the time q"""
        engine.CUR.assume(self.member(q) == z3.And(self.rank(q) >= 0, self.rank(q) < zterm(self.length), self.at_(self.rank(q)) == q))
    def vc_contains(self, t): self.know(zterm(t)); return SBool(self.member(zterm(t)))
    def __contains__(self, t): return bool(self.vc_contains(t))
    def vc_comp(self, vc, kind, gens, elt):
        E = engine.CUR
        if len(gens) != 1: raise Unsupported("nested comprehension over times")
        if kind == "dict" and not gens[0][1]:
            q = E.real("q_comp")
            self.know(q.z); E.assume(self.member(q.z))
            k, v = elt(q)
            if not isinstance(k, SReal) or not E.holds(k == q): raise Unsupported("dictionary comprehension that changes the times")
            if isinstance(v, VList) and not v.symbolic() and list.__len__(v) == 0:
                return Groups(self.member, lambda q: z3.IntVal(0), lambda q, m: z3.Const("nothing", S))
            return MapDict(self, elt)
        if kind in ("list", "gen", "tuple") and not gens[0][1]:
            return VList(SymSeq(self.length, lambda i: elt(self.get(i))))
        raise Unsupported(f"{kind} comprehension over times")


def saved_times(): return Times(Ns, SaveAt, SaveRank, Asked, "list", "saved times")


class MapDict:
    """{q: f(q) for q in times}"""
    vc_frozen = True
    def __init__(self, times, elt): self.times, self.elt = times, elt
    def __getitem__(self, q):
        self.times.know(zterm(q))
        if not bool(SBool(self.times.member(zterm(q)))): raise KeyError(q)
        return self.elt(q if isinstance(q, SReal) else SReal(zterm(q)))[1]
    def get(self, q, d=None):
        self.times.know(zterm(q))
        return self[q] if bool(SBool(self.times.member(zterm(q)))) else d
    def vc_contains(self, q): return self.times.vc_contains(q)
    def vc_seq(self): return self.times
    def vc_isinstance(self, classes): return dict in classes


class Groups:
    """dictionary of lists of states: q -> list of length len(q) with elements elem(q, m); lists are changed in place"""
    def __init__(self, dom, length, elem): self.dom, self.length, self.elem, self.parts = dom, length, elem, []
    def vc_snapshot(self): return (self.dom, self.length, self.elem)
    def vc_restore(self, s): self.dom, self.length, self.elem = s
    def key(self, q):
        z = zterm(q)
        if z is None: raise Unsupported("key that is not a time")
        return z3.ToReal(z) if z3.is_int(z) else z
    def __getitem__(self, q):
        z = self.key(q)
        if not bool(SBool(self.dom(z))): raise KeyError(q)
        return GroupList(self, z)
    def get(self, q, d=None): return self[q] if bool(SBool(self.dom(self.key(q)))) else d
    def vc_contains(self, q): return SBool(self.dom(self.key(q)))
    def append(self, z, v):
        if not isinstance(v, SVal) or v.z.sort() != S: raise Unsupported("not a state")
        engine.CUR.touch(self)
        l0, e0, vz = self.length, self.elem, v.z
        self.length = lambda q: z3.If(q == z, l0(q) + 1, l0(q))
        self.elem = lambda q, m: z3.If(z3.And(q == z, m == l0(q)), vz, e0(q, m))
    def __setitem__(self, q, v):
        z = self.key(q)
        if isinstance(v, VList) and not v.symbolic() and list.__len__(v) == 0:
            engine.CUR.touch(self)
            d0, l0 = self.dom, self.length
            self.dom = lambda q: z3.Or(q == z, d0(q)); self.length = lambda q: z3.If(q == z, 0, l0(q))
            return
        if isinstance(v, GroupList) and v.of is self and z3.eq(v.q, z): return
        raise Unsupported("assignment in a dictionary of lists")
    def setdefault(self, q, v):
        if not bool(SBool(self.dom(self.key(q)))): self[q] = v
        return self[q]
    def pop(self, *a): raise Unsupported("pop from a dictionary of lists")
    def vc_isinstance(self, classes): return dict in classes
    def __iter__(self): raise Unsupported("iteration over a dictionary of lists")
    def keys(self): raise Unsupported("keys of a dictionary of lists")
    values = items = __len__ = keys
    __hash__ = None


class GroupList:
    vc_frozen = True
    def __init__(self, of, q): self.of, self.q = of, q
    def append(self, v): self.of.append(self.q, v)
    def extend(self, l):
        if isinstance(l, (VList, list)) and not (isinstance(l, VList) and l.symbolic()):
            for v in list.__iter__(l): self.append(v)
        else: raise Unsupported("extension of a list")
    def __iadd__(self, l): self.extend(l); return self
    def vc_seq(self): return SymSeq(SInt(self.of.length(self.q)), lambda i: SVal(self.of.elem(self.q, zterm(i))))
    def vc_len(self): return SInt(self.of.length(self.q))
    def __getitem__(self, i): return self.vc_seq()[i]
    def vc_isinstance(self, classes): return list in classes


class ForecastDict:
    """contract of forecast: {q: value of the forecast at q} for the saved times of the window, in some order"""
    vc_frozen = True
    def __init__(self, state, saved):
        self.s = state.z
        self.saved = saved                         # predicate
        self.keys_ = Times(Nk, Key, KeyRank, lambda q: z3.And(saved(q), in_window(q)), "keys", "keys")
    def present(self, z): self.keys_.know(z); return self.keys_.member(z)
    def vc_contains(self, q): return SBool(self.present(zterm(q)))
    def __getitem__(self, q):
        z = zterm(q)
        if not bool(SBool(self.present(z))): raise KeyError(q)
        return SVal(Fc(self.s, z))
    def get(self, q, d=None): return self[q] if bool(SBool(self.present(zterm(q)))) else d
    def vc_seq(self): return self.keys_
    def keys(self): return self.keys_
    def items(self): return SymSeq(SInt(Nk), lambda i: (lambda q: (q, SVal(Fc(self.s, q.z))))(self.keys_.get(i)))
    def values(self): return SymSeq(SInt(Nk), lambda i: SVal(Fc(self.s, self.keys_.get(i).z)))
    def vc_len(self): return SInt(Nk)
    def vc_isinstance(self, classes): return dict in classes
    def vc_type(self): return dict
    def __iter__(self): raise Unsupported("iteration over a forecast")


def done(init, k, before):
    """members 0..k-1 are stored; before(q): whether member k is stored at q too"""
    win = lambda q: z3.And(init[0](q), in_window(q))
    return (init[0], lambda q: z3.If(win(q), zterm(k) + z3.If(before(q), 1, 0), 0), lambda q, m: Fc(Member(m), q))


class GroupsCandidate(Candidate):
    def applies(self, init, L): return isinstance(init, tuple) and len(init) == 3 and callable(init[1]) and self.fits(init, L)
    def fits(self, init, L): return True
    def target(self, init, k): raise NotImplementedError
    def make(self, init, k, obj=None):
        obj.vc_restore(self.target(init, k))
        return obj
    def check(self, init, value, k):
        E = engine.CUR
        t = self.target(init, k)
        v = value if isinstance(value, tuple) else value.vc_snapshot()
        q, m = E.real("q_any").z, E.int("m_any").z
        for times in self.times: times.know(q)
        # elements are compared on the keys of the window only up to the common length
        return SBool(z3.And(v[0](q) == t[0](q), z3.Implies(t[0](q), v[1](q) == t[1](q)), t[1](q) >= 0,
                            z3.Implies(z3.And(t[0](q), m >= 0, m < t[1](q)), v[2](q, m) == t[2](q, m))))


class Members(GroupsCandidate):
    name = "every saved time has the list of the forecasts of the first k members, in order"
    def __init__(self, times): self.times = times
    def target(self, init, k): return done(init, k, lambda q: z3.BoolVal(False))


class Keys(GroupsCandidate):
    name = "the first j keys of the forecast have one member more"
    def __init__(self, times): self.times = times
    def target(self, init, j):
        E = engine.CUR
        d, l, e = init
        s = self.state()
        first = lambda q: z3.And(in_window(q), d(q), KeyRank(q) >= 0, KeyRank(q) < zterm(j), Key(KeyRank(q)) == q)
        return (d, lambda q: z3.If(first(q), l(q) + 1, l(q)), lambda q, m: z3.If(z3.And(first(q), m == l(q)), Fc(s, q), e(q, m)))
    current = None
    def state(self):
        if self.current is None: raise Unsupported("no current forecast")
        return self.current
    def fits(self, init, L): return isinstance(L.seq, SymSeq) and self.current is not None


class Suffix(Candidate):
    name = "the list is what remains after the first k elements"
    def __init__(self): self.seq = None
    def applies(self, init, L): return isinstance(init, tuple) and len(init) == 2 and isinstance(init[0], SymSeq) and not init[1]
    def make(self, init, k, obj=None):
        s = init[0]
        engine.CUR.assume(z3.And(zterm(k) >= 0, zterm(k) <= zterm(s.length)))
        obj.base = SymSeq(SInt(z3.simplify(zterm(s.length) - zterm(k))), lambda i: s.get(i + k))
        list.clear(obj)
        return obj
    def check(self, init, value, k):
        s = init[0]
        v = value if isinstance(value, tuple) else value.vc_snapshot()
        if v[1] or not isinstance(v[0], SymSeq): return False
        E = engine.CUR
        i = E.int("i_any")
        n = zterm(s.length) - zterm(k)
        if not E.holds(z3.And(n >= 0, zterm(v[0].length) == n)): return False
        a, b = v[0].get(i), s.get(i + k)
        if not isinstance(a, ForecastDict) or not isinstance(b, ForecastDict): return False
        return SBool(z3.Implies(z3.And(i.z >= 0, i.z < n), a.s == b.s))


class Pool:
    """contract of multiprocessing.Pool: map and imap give f(x) for each x, in order; the others in any order"""
    def __init__(self, *a, **k): pass
    vc_frozen = True
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    join = terminate = close
    def seq(self, it):
        vc = self.vc
        s = vc.as_symbolic(it)
        return s if s is not None else list(it)
    def map(self, f, it, chunksize=None):
        s = self.seq(it)
        if isinstance(s, list): return VList([f(x) for x in s])
        return VList(SymSeq(s.length, lambda i: f(s.get(i))))
    def imap(self, f, it, chunksize=1): return self.map(f, it)
    def starmap(self, f, it, chunksize=None):
        return self.map(lambda a: f(*a), it)
    def imap_unordered(self, f, it, chunksize=1):
        s = self.seq(it)
        if isinstance(s, list): return VList([f(x) for x in reversed(s)])
        raise Unsupported("unordered results")


def setting(E, saved):
    keyst = ForecastDict(SVal(z3.Const("any_state", S)), saved)
    W = World({"numpy": numpy_model(), "multiprocessing": mp_model()})
    Pool_ = type("Pool", (Pool,), {"vc": W.vc})
    W.models["multiprocessing"].Pool = Pool_
    E.assume(Nw >= 1); E.assume(Ns >= 0); E.assume(Nk >= 0)
    w = Window(SInt(Nw))
    keys = Keys([keyst.keys_])
    W.vc.vocab = [Members([keyst.keys_]), keys, Suffix()]
    W.vc.cut_whiles = {"Model.ensemble_forecast:while0"}
    M = W.load("vsympkf.model.model")
    m = M.Model()
    made = []
    def forecast(window, u0, saved_times=None):
        if window is not w: raise Unsupported("forecast over another window")
        if not isinstance(u0, SVal): raise Unsupported("forecast of something that is not a state")
        st = saved_times if saved_times is not None else w
        sv = saved if isinstance(st, Times) else (lambda q: z3.BoolVal(True)) if st is w else None
        if sv is None: raise Unsupported("forecast at other saved times")
        d = ForecastDict(u0, sv)
        keys.current = u0.z
        return d
    m.forecast = forecast
    return W, M, m, w, keys


class WindowTimes(Window):
    pass


def ensemble(E, parallel, which):
    def make(size):
        def run():
            saved = (lambda q: z3.BoolVal(True)) if which == "default" else Asked
            W, M, m, w, keys = setting(E, saved)
            arg = None if which == "default" else saved_times()
            win = Times(Nw, T, Idx, in_window, "array", "window")
            w.vc_comp = win.vc_comp; w.know = win.know
            if size is None:
                n = E.int("n_members"); E.assume(n >= 0)
                states = SymSeq(n, lambda i: SVal(Member(zterm(i))))
            else:
                n = SInt(z3.IntVal(size)); states = [SVal(Member(z3.IntVal(i))) for i in range(size)]
            out = m.ensemble_forecast(w, states, arg, parallel=parallel) if which != "default" else m.ensemble_forecast(w, states, parallel=parallel)
            if not isinstance(out, Groups): raise Unsupported("ensemble_forecast does not return a dictionary of lists of states")
            q, j = E.real("q_post").z, E.int("j_post").z
            for t in (win, saved_times() if which != "default" else win, keys.times[0]): t.know(q)
            asked = in_window(q) if which == "default" else z3.And(Asked(q), in_window(q))
            E.prove("every saved time of the window is a key", z3.Implies(asked, out.dom(q)))
            E.prove("nothing else than the saved times is a key", z3.Implies(out.dom(q), in_window(q) if which == "default" else Asked(q)))
            E.prove("one state per member at each saved time", z3.Implies(asked, out.length(q) == n.z))
            E.prove("the j-th state is the forecast of the j-th member", z3.Implies(z3.And(asked, j >= 0, j < n.z), out.elem(q, j) == Fc(Member(j), q)))
        return run
    return E.explore_n(f"Model.ensemble_forecast [{'parallel' if parallel else 'serial'}, saved times: {which}]", make, "Model.ensemble_forecast", sizes=())


TIMES = [1.0, 2.0, 3.5]
CASES = [None, [2.0], [3.5, 1.0], [2.0, 7.0, 1.0]]

def bounded_ensemble(E, parallel):
    """concrete windows, saved times and numbers of members, arbitrary states: stands in when the loops are of another shape"""
    def run():
        E.assume(Nw == len(TIMES))
        W = World({"numpy": numpy_model(), "multiprocessing": mp_model()})
        W.models["multiprocessing"].Pool = type("Pool", (Pool,), {"vc": W.vc})
        M = W.load("vsympkf.model.model")
        m = M.Model()
        n = E.choose([0, 1, 2, 3, 9, 17, 33] if parallel else [0, 1, 2, 3, 9])
        saved = E.choose(CASES)
        gen = E.choose([False, True])
        window = list(TIMES)
        def forecast(w, u0, saved_times=None):
            if w is not window or not isinstance(u0, SVal): raise Unsupported("forecast over another window")
            st = window if saved_times is None else saved_times
            return {t: SVal(Fc(u0.z, z3.RealVal(t))) for t in window if t in st}
        m.forecast = forecast
        states = [SVal(Member(z3.IntVal(i))) for i in range(n)]
        if n > 2: states[2] = states[0]                     # the same state object twice
        out = m.ensemble_forecast(window, (s for s in states) if gen else states, saved, parallel=parallel)
        if not isinstance(out, dict) or getattr(out, "base", None) is not None: raise Unsupported("ensemble_forecast does not return a dictionary")
        asked = [t for t in TIMES if saved is None or t in saved]
        E.prove("every saved time of the window is a key", all(any(bool(k == t) for k in dict.keys(out)) for t in asked))
        E.prove("nothing else than the saved times is a key", all(any(bool(k == t) for t in (TIMES if saved is None else saved)) for k in dict.keys(out)))
        for t in asked:
            l = list(out[t])
            E.prove("one state per member at each saved time", len(l) == n)
            if len(l) == n:
                E.prove("the j-th state is the forecast of the j-th member", z3.And([v.z == Fc(s.z, z3.RealVal(t)) if isinstance(v, SVal) else z3.BoolVal(False) for v, s in zip(l, states)]))
    E.explore_bounded(f"Model.ensemble_forecast [bounded, {'parallel' if parallel else 'serial'}]", run, "Model.ensemble_forecast")


def bounded_tangent(E):
    def run():
        sp = Space()
        def any_(v, *a, **k):
            if not isinstance(v, Vec) or a or k: raise Unsupported("np.any")
            return any(not E.holds(c == 0) for c in v.c.values())
        W = World({"numpy": numpy_model(any=any_, count_nonzero=lambda v: int(any_(v)), zeros_like=lambda v: Vec(sp, {}), array=lambda v, *a, **k: v.copy(), asarray=lambda v, *a, **k: v), "multiprocessing": mp_model()})
        M = W.load("vsympkf.model.model")
        m = M.Model()
        window = list(TIMES)
        h = E.real("h"); E.assume(h.z != 0)
        x = sp.var("x")
        p0, p1, null = sp.var("p0"), sp.var("p1"), Vec(sp, {})
        pert = {"none": [], "one": [p0], "two": [p0, p1], "repeated": [p0, p1, p0], "null": [p0, null, p1], "null first": [null, p1], "many": [p0, p1] * 10}[E.choose(["none", "one", "two", "repeated", "null", "null first", "many"])]
        saved = E.choose([None, [2.0], [3.5, 1.0], 2.0])
        gen = E.choose([False, True])
        x0, before = dict(x.c), [dict(p.c) for p in pert]
        def value(s, t): return sp.apply("M", z3.RealVal(t), s)
        def times(st): return window if st is None else [st] if isinstance(st, float) else list(st)
        def forecast(w, u0, saved_times=None):
            if w is not window: raise Unsupported("forecast over another window")
            return {t: value(u0, t) for t in window if t in times(saved_times)}
        def ens(w, states, saved_times=None, parallel=True, nb_pool=8):
            if w is not window: raise Unsupported("ensemble over another window")
            states = list(states)
            return {t: [value(s, t) for s in states] for t in times(saved_times)}
        m.forecast, m.ensemble_forecast = forecast, ens
        ref, tl = m.forecast_tl(window, x, (p for p in pert) if gen else list(pert), saved, h)
        x = sp.var("x"); x.c = x0
        for t in times(saved):
            E.prove("the first result is the forecast of the reference state", sp.eq(ref[t].c, value(x, t).c))
            l = list(tl[t])
            E.prove("one state per perturbation", len(l) == len(pert))
            if len(l) != len(pert): continue
            for got, p in zip(l, before):
                if not isinstance(got, Vec): raise Unsupported("not a state")
                pv = Vec(sp, p)
                want = (value(x + pv * h, t) - value(x, t)) / h
                E.prove("the j-th state is (M(x+h p_j) - M(x))/h", sp.eq(got.c, want.c), f"returned {sp.show(got.c)}; expected {sp.show(want.c)}")
    E.explore_bounded("Model.forecast_tl [bounded]", run, "Model.forecast_tl")


# ---------------------------------------------------------------------- tangent linear
def tangent(E):
    def run():
        sp = Space()
        W = World({"numpy": numpy_model(), "multiprocessing": mp_model()})
        M = W.load("vsympkf.model.model")
        m = M.Model()
        E.assume(Nw >= 1); E.assume(Ns >= 0)
        w = Window(SInt(Nw)); saved = saved_times()
        h = E.real("h"); E.assume(h.z != 0)
        x = sp.var("x")
        n = E.int("n_perturbations"); E.assume(n >= 0)
        zero = Vec(sp, {})
        pert = SymSeq(n, lambda i: sp.apply("p", SReal(z3.ToReal(zterm(i))), zero))
        def value(state, q): return sp.apply("M", q, state)
        class Dict(MapDict): pass
        def forecast(window, u0, saved_times=None):
            if window is not w or saved_times is not saved: raise Unsupported("forecast over another window or at other times")
            return MapDict(saved, lambda q: (q, value(u0, q)))
        def ens(window, states, saved_times=None, parallel=True, nb_pool=8):
            if window is not w or saved_times is not saved: raise Unsupported("ensemble over another window or at other times")
            s = W.vc.as_symbolic(states)
            if s is None: raise Unsupported("ensemble of another size")
            return TlDict(saved, lambda q: VList(SymSeq(s.length, lambda i: value(s.get(i), q))))
        m.forecast, m.ensemble_forecast = forecast, ens
        W.vc.vocab = [TlLoop(saved, sp, x, value, pert, h)]
        ref, tl = m.forecast_tl(w, x, pert, saved, h)
        q = E.real("q_post"); saved.know(q.z); E.assume(Asked(q.z))
        E.prove("the first result is the forecast of the reference state", sp.eq(ref[q].c, value(x, q).c))
        j = E.int("j_post"); E.assume(z3.And(j.z >= 0, j.z < n.z))
        l = tl[q]
        s = l.as_seq() if isinstance(l, VList) else W.vc.as_symbolic(l)
        if s is None: raise Unsupported("the tangent-linear forecast is not a list")
        E.prove("one state per perturbation", zterm(s.length) == n.z)
        got = s.get(j)
        if not isinstance(got, Vec): raise Unsupported("not a state")
        p = pert.get(j)
        ref_v = (value(x + p * h, q) - value(x, q)) / h
        E.prove("the j-th state is (M(x+h p_j) - M(x))/h", sp.eq(got.c, ref_v.c), f"returned {sp.show(got.c)}; expected {sp.show(ref_v.c)}")
    scope = "Model.forecast_tl"
    if not E.explore(scope, run, scope) or any(o.name.startswith(scope + ":") and o.status == "unknown" for o in E.obligations.values()): bounded_tangent(E)


class TlDict:
    """dictionary over the saved times, assigned key by key"""
    def __init__(self, times, f): self.times, self.f, self.log = times, f, []
    def vc_snapshot(self): return (self.f, list(self.log), "tl")
    def vc_restore(self, s): self.f, self.log = s[0], list(s[1])
    def __getitem__(self, q):
        self.times.know(zterm(q))
        for k, v in reversed(self.log):
            if bool(k == q): return v
        if not bool(SBool(self.times.member(zterm(q)))): raise KeyError(q)
        return self.f(q)
    def __setitem__(self, q, v): engine.CUR.touch(self); self.log.append((q, v))
    def vc_seq(self): return self.times
    def keys(self): return self.times
    def items(self): return SymSeq(self.times.length, lambda i: (lambda q: (q, self[q]))(self.times.get(i)))
    def vc_contains(self, q): return self.times.vc_contains(q)
    def vc_isinstance(self, classes): return dict in classes
    def __iter__(self): raise Unsupported("iteration over the ensemble forecast")
    __hash__ = None


class TlLoop(Candidate):
    name = "the saved times met so far have the difference quotients, the others the perturbed forecasts"
    def __init__(self, times, sp, x, value, pert, h): self.times, self.sp, self.x, self.value, self.pert, self.h = times, sp, x, value, pert, h
    def applies(self, init, L): return isinstance(init, tuple) and len(init) == 3 and init[2] == "tl"
    def quotient(self, q):
        return VList(SymSeq(self.pert.length, lambda i: (self.value(self.x + self.pert.get(i) * self.h, q) - self.value(self.x, q)) / self.h))
    def make(self, init, k, obj=None):
        f0 = init[0]
        def f(q):
            self.times.know(zterm(q))
            return self.quotient(q) if bool(SBool(SaveRank(zterm(q)) < zterm(k))) else f0(q)
        obj.f, obj.log = f, []
        return obj
    def check(self, init, value, k):
        E = engine.CUR
        d = TlDict(self.times, None)
        d.vc_restore(value if isinstance(value, tuple) else value.vc_snapshot())
        q = E.real("q_any"); self.times.know(q.z)
        if not E.feasible(Asked(q.z)): return True
        # decided on an arbitrary saved time, before or after the k-th
        E.assume(Asked(q.z))
        e = TlDict(self.times, None); self.make(init, k, e)
        i = E.int("i_any")
        a, b = d[q], e[q]
        a, b = [v.as_seq() if isinstance(v, VList) else v for v in (a, b)]
        if not isinstance(a, SymSeq) or not isinstance(b, SymSeq): return False
        if not E.holds(zterm(a.length) == zterm(b.length)): return False
        va, vb = a.get(i), b.get(i)
        if not isinstance(va, Vec) or not isinstance(vb, Vec): return False
        return SBool(self.sp.eq(va.c, vb.c))


# ---------------------------------------------------------------------- resolvent
class Zeros:
    """np.zeros(n) of the model size; one component may be set to one"""
    def __init__(self, shape): self.shape, self.sets = shape, []
    def vc_snapshot(self): return list(self.sets)
    def vc_restore(self, s): self.sets = list(s)
    def __setitem__(self, i, v): engine.CUR.touch(self); self.sets.append((i, v))
    def is_dirac(self, i):
        E = engine.CUR
        if len(self.sets) != 1: return False
        k, v = self.sets[0]
        return isinstance(k, (SInt, int)) and E.holds(zterm(k) == zterm(i)) and E.holds(zterm(v) == 1)


class Stacked:
    vc_frozen = True
    def __init__(self, rows, columns): self.rows, self.columns = rows, columns
    @property
    def T(self): return Stacked(self.rows, not self.columns)
    def transpose(self, *a):
        if a: raise Unsupported("transposition with axes")
        return self.T


def resolvent(E):
    def run():
        n = E.int("n"); E.assume(n >= 1)
        def zeros(shape, *a, **k): return Zeros(shape)
        def stack(l, *a, axis=0, **k):
            s = l.as_seq() if isinstance(l, VList) else l
            if not isinstance(s, SymSeq) or a: raise Unsupported("stack")
            if axis not in (0, 1, -1): raise Unsupported("stack")
            return Stacked(s, axis != 0)
        def asarray(l, *a, **k):
            if isinstance(l, Stacked): return l
            return stack(l)
        W = World({"numpy": numpy_model(zeros=zeros, asarray=asarray, array=asarray, stack=stack, vstack=asarray, column_stack=lambda l: stack(l, axis=1),
                                        transpose=lambda m: asarray(m).T), "multiprocessing": mp_model()})
        M = W.load("vsympkf.model.model")
        m = M.LinearModel(); m.n = n
        E.assume(Nw >= 1)
        w = Window(SInt(Nw))
        last = T(Nw - 1)
        class Fore:
            vc_frozen = True
            def __init__(self, x): self.x = x
        def at_last(saved):
            l = list(saved) if isinstance(saved, (list, tuple)) and not getattr(saved, "base", None) else None
            if l is None or len(l) != 1: raise Unsupported("other saved times")
            return l[0]
        def ens(window, states, saved_times=None, parallel=True, nb_pool=8):
            if window is not w: raise Unsupported("another window")
            q = at_last(saved_times)
            E.prove("the forecasts are taken at the end of the window", zterm(q) == last)
            s = W.vc.as_symbolic(states)
            if s is None: raise Unsupported("another number of states")
            d = VDict(); d[q] = VList(SymSeq(s.length, lambda i: Fore(s.get(i))))
            return d
        m.ensemble_forecast = ens
        def forecast(window, u0, saved_times=None): raise Unsupported("column by column")
        m.forecast = forecast
        out = m.make_M(w)
        if not isinstance(out, Stacked): raise Unsupported("make_M does not return stacked forecasts")
        E.prove("the forecasts are the columns of the matrix", out.columns)
        E.prove("there are n columns", zterm(out.rows.length) == n.z)
        i = E.int("i"); E.assume(z3.And(i.z >= 0, i.z < n.z))
        f = out.rows.get(i)
        ok = isinstance(f, Fore) and isinstance(f.x, Zeros) and isinstance(f.x.shape, (SInt, int)) and E.holds(zterm(f.x.shape) == n.z) and f.x.is_dirac(i)
        E.prove("column i is the forecast of the i-th Dirac state (hence M v = forecast of v when the model is linear)", ok)
    E.explore("LinearModel.make_M", run, "LinearModel.make_M")


def parallel(E):
    def make(size):
        def run():
            W = World({"numpy": numpy_model(), "multiprocessing": mp_model()})
            W.models["multiprocessing"].Pool = type("Pool", (Pool,), {"vc": W.vc})
            P = W.load("vsympkf.model.model").Parallel
            Fn = z3.Function("f", S, S)
            n = E.int("n") if size is None else SInt(z3.IntVal(size))
            E.assume(n >= 0)
            args = SymSeq(n, lambda i: SVal(Member(zterm(i)))) if size is None else [SVal(Member(z3.IntVal(i))) for i in range(size)]
            out = P(lambda s: SVal(Fn(s.z)), 8).run(args)
            if not isinstance(out, (VList, SymSeq)): raise Unsupported("Parallel.run does not return a list")
            s = (out.as_seq() or SymSeq(0, lambda i: None)) if isinstance(out, VList) else out
            E.prove("one result per argument", zterm(s.length) == n.z)
            for j in ([E.int("j")] if size is None else range(size)):
                if size is None: E.assume(z3.And(j.z >= 0, j.z < n.z))
                r = s.get(j)
                E.prove("the j-th result is the image of the j-th argument", SBool(r.z == Fn(Member(zterm(j)))) if isinstance(r, SVal) else False)
        return run
    E.explore_n("Parallel.run", make, "Parallel.run", sizes=(0, 1, 2, 3))


def verify(E):
    E.trusted += ["z3 (integers, reals, uninterpreted functions)", "pyvc engine: path exploration, loop rule with the listed invariants",
                  "multiprocessing.Pool: map, imap and starmap return the images of the arguments in order (a function computed in another process gives the same value)",
                  "numpy: asarray(list of n vectors) has them as rows, .T transposes, zeros(n) with component i set to 1 is the i-th Dirac"]
    E.assumptions += ["contract of forecast (C02) at its call sites: {q: value at q of the forecast of the state} for the saved times of the window, a function of the state",
                      "the saved times are pairwise distinct; for forecast_tl they belong to the window; h is not null",
                      "linear algebra: for a linear forecast map F, the matrix of columns F(e_i) applied to v is F(v)"]
    parallel(E)
    for par in (False, True):
        if not all([ensemble(E, par, which) for which in ("default", "collection")]): bounded_ensemble(E, par)
    tangent(E)
    resolvent(E)
