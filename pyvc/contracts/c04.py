"""C04: window is the regular grid up to the end; selection of the time scheme"""
import z3
import engine
from engine import SReal, SInt, SBool, SymSeq, Unsupported, zterm, VList
from loader import World
from models_np import numpy_model, mp_model
import rope
from rope import Name

SCHEMES = ("euler", "rk2", "rk4", "leapfrog", "splitting")


class Grid(SymSeq):
    """contract of np.arange(a, b, s) for s>0, in real arithmetic: a, a+s, .. the k-th element is there iff a+k*s < b"""
    def __init__(self, a, b, s):
        E = engine.CUR
        self.a, self.b, self.s = a, b, s
        n = E.int("arange_length"); E.assume(n.z >= 0)
        super().__init__(n, lambda k: SReal(a + z3.ToReal(zterm(k)) * s), "array")
    def has(self, k): return self.a + z3.ToReal(k) * self.s < self.b
    def __add__(self, o): return self.shift(o)
    __radd__ = __add__
    def __sub__(self, o): return self.shift(-o)
    def shift(self, o):
        z = real(o); me = self
        r = SymSeq(self.length, lambda k: SReal(me.get(k).z + z), "array"); r.has = self.has
        return lin(r, me)
    def __mul__(self, o):
        z = real(o); me = self
        r = SymSeq(self.length, lambda k: SReal(me.get(k).z * z), "array"); r.has = self.has
        return lin(r, me)
    __rmul__ = __mul__


def lin(r, g):
    class Lin(SymSeq):
        __add__ = __radd__ = lambda s, o: lin2(s, lambda v: v + real(o))
        __sub__ = lambda s, o: lin2(s, lambda v: v - real(o))
        __mul__ = __rmul__ = lambda s, o: lin2(s, lambda v: v * real(o))
    def lin2(s, f):
        q = Lin(s.length, lambda k: SReal(f(s.get(k).z)), "array"); q.has = s.has
        return q
    q = Lin(r.length, r.get, "array"); q.has = r.has
    return q


def real(v):
    z = zterm(v)
    if z is None: raise Unsupported(f"not a number: {type(v)}")
    return z3.ToReal(z) if z3.is_int(z) else z


def arange(*a, **k):
    if k or not 1 <= len(a) <= 3: raise Unsupported("np.arange with options")
    if len(a) == 1: lo, hi, st = 0., a[0], 1.
    elif len(a) == 2: (lo, hi), st = a, 1.
    else: lo, hi, st = a
    lo, hi, st = real(lo), real(hi), real(st)
    E = engine.CUR
    if not E.holds(st > 0): raise Unsupported("np.arange with a step that may be negative")
    return Grid(lo, hi, st)


def window(E, start_given):
    def run():
        W = World({"numpy": numpy_model(arange=arange), "multiprocessing": mp_model()})
        m = W.load("vsympkf.model.model").Model()
        dt = E.real("dt")
        E.assume(dt > 0)
        before = E.choose(["first window", "after another window", "after the same window with another step"])
        if before != "first window":
            dt0 = E.real("dt0"); E.assume(dt0 > 0)
            m.set_dt(dt0)
        end, start = E.real("end"), E.real("start") if start_given else SReal(z3.RealVal(0))
        if before == "after another window": m.window(E.real("end0"), E.real("start0"))
        elif before != "first window": m.window(end, start) if start_given else m.window(end)
        m.set_dt(dt)
        E.prove("dt is the time step that was set", SBool(m.dt.z == dt.z) if isinstance(m.dt, SReal) else False)
        w = m.window(end, start) if start_given else m.window(end)
        if not isinstance(w, SymSeq) or not hasattr(w, "has"): raise Unsupported("window is not made of np.arange")
        k = E.int("k"); E.assume(k >= 0)
        kr = z3.Real("k_real"); E.assume(kr == z3.ToReal(k.z))
        v = w.get(k)
        E.prove("the k-th time is start + k dt", z3.simplify(v.z) == start.z + z3.ToReal(k.z) * dt.z)
        E.prove("the times are those less than end + dt/3", w.has(k.z) == (start.z + z3.ToReal(k.z) * dt.z < end.z + dt.z / 3))
        # end a whole number of steps after start: it is there, once, as last element
        N = E.int("N"); E.assume(N >= 0); E.assume(end.z == start.z + z3.ToReal(N.z) * dt.z)
        has = lambda z: start.z + z3.ToReal(z) * dt.z < end.z + dt.z / 3
        E.prove("the end time is the last element when it is a whole number of steps after start",
                z3.And(has(N.z), z3.Not(has(N.z + 1)), start.z + z3.ToReal(N.z) * dt.z == end.z))
    E.explore(f"Model.window [start {'given' if start_given else 'by default'}]", run, "Model.window")


def select(E):
    rope.LITERALS[:] = sorted(SCHEMES)
    def same(m, f, name):
        return f == m.time_schemes[name]                  # the textbook step under this name: C01
    def run():
        W = World({"numpy": numpy_model(), "multiprocessing": mp_model()})
        M = W.load("vsympkf.model.model")
        how = E.choose(["constructor", "set", "default", "both", "two models"])
        name = Name(z3.String("name"))
        if how == "two models":
            a, b = E.choose(sorted(SCHEMES)), E.choose(sorted(SCHEMES))
            m, other = M.Model(time_scheme=a), M.Model()
            other.set_time_scheme(b)
            E.prove("the selection of a model does not change with that of another", same(m, m.time_scheme, a) and same(other, other.time_scheme, b))
            return
        if how == "default":
            m = M.Model()
            E.prove("rk4 is the default", same(m, m.time_scheme, "rk4"))
            return
        valid = z3.Or([name.z == z3.StringVal(s) for s in SCHEMES])
        other = None
        if how in ("set", "both"):
            if how == "both":
                first = E.choose(sorted(SCHEMES))
                m = M.Model(time_scheme=first)
                E.prove("the constructor selects the scheme of this name", same(m, m.time_scheme, first))
            else: m = M.Model()
            before = m.time_scheme; schemes_before = dict(dict.items(m.time_schemes))
            try: m.set_time_scheme(name); err = None
            except ValueError as e: err = e
        else:
            m = None
            try: m = M.Model(time_scheme=name); err = None
            except ValueError as e: err = e
        if err is None:
            E.prove("only the known names are accepted", valid)
            for s in SCHEMES:
                if bool(name == s):
                    E.prove("the scheme of this name is used by the following integrations", same(m, m.time_scheme, s))
                    break
        else:
            E.prove("a known name is not rejected", z3.Not(valid))
            if m is not None:
                E.prove("a rejected name leaves the selection unchanged", m.time_scheme == before and dict(dict.items(m.time_schemes)) == schemes_before)
    E.explore("Model.set_time_scheme", run, "Model.set_time_scheme")
    E.functions.append("Model.__init__")


def verify(E):
    E.trusted += ["z3 (linear and nonlinear real arithmetic, strings)", "pyvc engine: path exploration"]
    E.assumptions += ["np.arange(a, b, s) with s>0 is a, a+s, .. where the k-th element exists iff a+k*s < b (real arithmetic: rounding of start+k*dt not modelled)",
                      "the integrations use the attribute time_scheme (contracts of forecast and predict, C02)"]
    for g in (True, False): window(E, g)
    select(E)
