"""C01: each one-step scheme equals its textbook formula, for every trend, time, step and state; splitting is the composition"""
import z3
import engine
from engine import SReal, SVal, SBool, SymSeq, SInt, Candidate, Unsupported, zterm
from loader import World
from models_np import numpy_model, mp_model
from vecs import Space, Vec

S = z3.DeclareSort("State")


def world():
    return World({"numpy": numpy_model(), "multiprocessing": mp_model()})


def instance(M):
    return M.Model()


def comb(space, *terms):
    c = {}
    for a, v in terms:
        for k, q in v.items(): c[k] = c[k] + a * q if k in c else a * q
    return {k: z3.simplify(v) for k, v in c.items()}


def one_step(E, name, build):
    def run():
        W = world(); M = W.load("vsympkf.model.model")
        sp = Space()
        t, dt = E.real("t"), E.real("dt")
        returned = []
        def trend(tt, ss):
            r = sp.apply("trend", tt, ss)
            returned.append((r, dict(r.c)))
            return r
        scheme = instance(M).time_schemes[name]
        build(E, sp, scheme, trend, t, dt)
        E.prove("the values returned by the trend are left unmodified", z3.And([sp.eq(r.c, c) for r, c in returned]))
    return run


def single(textbook):
    def build(E, sp, scheme, trend, t, dt):
        s = sp.var("state"); before = dict(s.c)
        out = scheme(trend, t, s, dt)
        if not isinstance(out, Vec): raise Unsupported("the step does not return a state")
        got = dict(out.c)
        ref = textbook(sp, t.z, dt.z, before)
        E.prove("the step equals the textbook formula", sp.eq(got, ref), f"returned {sp.show(got)}; textbook {sp.show(ref)}")
        E.prove("the argument state is left unmodified", sp.eq(s.c, before), f"the state became {sp.show(s.c)}")
    return build


def F(sp, t, c): return dict(sp.apply("trend", SReal(t), Vec(sp, c)).c)


R = lambda q: z3.RealVal(q)
def euler(sp, t, dt, s): return comb(sp, (R(1), s), (dt, F(sp, t, s)))
def rk2(sp, t, dt, s):
    half = comb(sp, (R(1), s), (dt / 2, F(sp, t, s)))
    return comb(sp, (R(1), s), (dt, F(sp, t + dt / 2, half)))
def rk4(sp, t, dt, s):
    k1 = F(sp, t, s)
    k2 = F(sp, t + dt / 2, comb(sp, (R(1), s), (dt / 2, k1)))
    k3 = F(sp, t + dt / 2, comb(sp, (R(1), s), (dt / 2, k2)))
    k4 = F(sp, t + dt, comb(sp, (R(1), s), (dt, k3)))
    return comb(sp, (R(1), s), (dt / 6, k1), (dt / 3, k2), (dt / 3, k3), (dt / 6, k4))


def leapfrog(E, sp, scheme, trend, t, dt):
    s0, s1 = sp.var("state_0"), sp.var("state_1")
    b0, b1 = dict(s0.c), dict(s1.c)
    states = [s0, s1]
    out = scheme(trend, t, states, dt)
    out = list(out)
    ok = len(out) == 2 and all(isinstance(o, Vec) for o in out)
    if not ok: raise Unsupported("leapfrog does not return two states")
    ref = comb(sp, (R(1), b0), (2 * dt.z, F(sp, t.z, b1)))
    E.prove("the first state returned is the present state", sp.eq(out[0].c, b1), f"returned {sp.show(out[0].c)}")
    E.prove("the second state returned is u(t-dt) + 2 dt trend(t, u(t))", sp.eq(out[1].c, ref), f"returned {sp.show(out[1].c)}; textbook {sp.show(ref)}")
    E.prove("the argument states are left unmodified", z3.And(states[0] is s0 and states[1] is s1 and len(states) == 2, sp.eq(s0.c, b0), sp.eq(s1.c, b1)))


# ---------------------------------------------------------------------- splitting
Fold = z3.Function("Fold", z3.IntSort(), S)
HasUpdate = z3.Function("has_update", z3.IntSort(), z3.BoolSort())
Upd = z3.Function("update", z3.IntSort(), z3.RealSort(), S, z3.RealSort(), S)
Sch = z3.Function("scheme_step", z3.IntSort(), z3.RealSort(), S, z3.RealSort(), S)
OtherKey = z3.Function("has_other_key", z3.IntSort(), z3.IntSort(), z3.BoolSort())


class Token:
    vc_frozen = True
    def __init__(self, what, k): self.what, self.k = what, k


class Entry:
    """arbitrary k-th entry of a splitting: a dictionary with 'update', or with 'trend' and 'scheme', and any other keys"""
    vc_frozen = True
    keys_known = ["update", "trend", "scheme"]
    def __init__(self, k):
        self.k = k
    def has(self, key):
        z = zterm(self.k)
        if key == "update": return HasUpdate(z)
        if key not in self.keys_known: self.keys_known.append(key)
        i = self.keys_known.index(key)
        o = OtherKey(z, z3.IntVal(i))
        return z3.Or(z3.Not(HasUpdate(z)), o) if key in ("trend", "scheme") else o
    def vc_contains(self, key): return SBool(self.has(key))
    def __contains__(self, key): return bool(SBool(self.has(key)))
    def __getitem__(self, key):
        if not bool(SBool(self.has(key))): raise KeyError(key)
        E = engine.CUR
        z = zterm(self.k)
        if key == "update":
            return lambda t, s, dt: SVal(Upd(z, zterm(t), st(s), zterm(dt)))
        if key == "trend": return Token("trend", z)
        if key == "scheme":
            def scheme(trend, t, s, dt):
                E.prove("the scheme of an entry integrates the trend of this entry", isinstance(trend, Token) and E.holds(trend.k == z))
                return SVal(Sch(z, zterm(t), st(s), zterm(dt)))
            return scheme
        raise Unsupported(f"value of the key {key}")
    def get(self, key, default=None): return self[key] if key in self else default
    def vc_isinstance(self, classes): return dict in classes


def st(s):
    if not isinstance(s, SVal): raise Unsupported("not a state")
    return s.z


class FoldState(Candidate):
    name = "state = composition of the first k entries"
    def __init__(self, s0, t, dt): self.s0, self.t, self.dt = s0, t, dt
    def applies(self, init, L): return isinstance(init, SVal) and init.z.sort() == S
    def make(self, init, k, entry=None):
        z = zterm(k); e = z if entry is None else z3.IntVal(entry)
        step = z3.If(HasUpdate(e), Upd(e, self.t.z, Fold(z), self.dt.z), Sch(e, self.t.z, Fold(z), self.dt.z))
        engine.CUR.assume(Fold(z + 1) == step)
        return SVal(Fold(z))
    def check(self, init, value, k): return SBool(value.z == Fold(zterm(k))) if isinstance(value, SVal) and value.z.sort() == S else False


def splitting(E):
    def make(size):
        def run():
            W = world(); M = W.load("vsympkf.model.model")
            t, dt = E.real("t"), E.real("dt")
            s0 = SVal(z3.Const("s0", S))
            E.assume(Fold(0) == s0.z)
            fold = FoldState(s0, t, dt)
            W.vc.vocab = [fold]
            if size is None:
                n = E.int("n"); E.assume(n >= 0); n = n.z
                entries = SymSeq(SInt(n), lambda k: Entry(k))
            else:
                # size: a number of distinct entries, or the positions of the entries of a splitting that repeats some
                shape = tuple(range(size)) if isinstance(size, int) else size
                n = z3.IntVal(len(shape))
                objects = {k: Entry(k) for k in shape}
                entries = [objects[k] for k in shape]
                for i, k in enumerate(shape): fold.make(None, i, entry=k)
            out = instance(M).time_schemes["splitting"](entries, t, s0, dt)
            E.prove("the result is the composition of the full steps of every entry, in order, over the same time and step",
                    SBool(out.z == Fold(n)) if isinstance(out, SVal) else False)
        return run
    E.explore_n("Model._time_splitting", make, "Model._time_splitting", sizes=(0, 1, 2, 3, (0, 1, 0), (0, 0, 1, 1)))


def verify(E):
    E.trusted += ["z3 (arithmetic of the coefficients, uninterpreted trends and steps)", "pyvc engine: path exploration, loop rule, linear normal form",
                  "numpy arrays of one shape form a real vector space with value semantics of + - * /, in place for += -= *= /= and [:]="]
    E.assumptions += ["machine arithmetic treated as real arithmetic (0.5, 1/6 are the real numbers 1/2, 1/6)",
                      "the trend, the updates and the schemes of a splitting are functions of their arguments (no hidden state) and do not modify them",
                      "trends return arrays they do not modify afterwards"]
    for name, fn, book in [("euler", "_euler", euler), ("rk2", "_rk2", rk2), ("rk4", "_rk4", rk4)]:
        E.explore(f"Model.{fn}", one_step(E, name, single(book)), f"Model.{fn}")
    E.explore("Model._leapfrog", one_step(E, "leapfrog", leapfrog), "Model._leapfrog")
    splitting(E)
