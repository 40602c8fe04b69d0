"""C02: forecast and predict return exactly the iterates of the one-step map at the saved times of the window"""
import z3
import engine
from engine import SReal, SVal, SBool, SymSeq, SInt, Candidate, Unsupported, zterm, VDict, VList
from loader import World
from models_np import numpy_model, mp_model, float64
from .trajs import *


class Stack:
    vc_frozen = True
    """np.array(list): the elements stacked in order"""
    def __init__(self, l): self.l = l


def np_array(l, *a, **k):
    if a or k: raise Unsupported("np.array with options")
    if isinstance(l, (VList, list, SymSeq)): return Stack(l)
    raise Unsupported("np.array")


def world(saved):
    W = World({"numpy": numpy_model(array=np_array, asarray=np_array, stack=np_array), "multiprocessing": mp_model()})
    W.vc.vocab = [IterState(), DictTraj(saved), ListTraj(saved)]
    return W


def model(E, W):
    M = W.load("vsympkf.model.model").Model
    m = M()
    def step(trend, t, s, dt):
        E.prove("the step is made for the trend of the model", trend == m.trend)
        if not isinstance(s, SVal): raise Unsupported("step of something that is not a state")
        z = Step(zterm(t), s.z, zterm(dt))
        if E.choose(["new state", "the state itself"]) == "the state itself":
            E.assume(z == s.z)
            return s
        return State(z)
    m.time_scheme = step
    return m


SAVED = {
    "default": lambda n, W: (None, lambda q: z3.BoolVal(True)),
    "collection": lambda n, W: (SavedTimes(), Saved),
    "one float": lambda n, W: (SReal(z3.Real("saved_time")), lambda q: q == z3.Real("saved_time")),
}


def contract(E, name, which):
    def make(size):
        def run():
            _, saved = SAVED[which](None, None)
            W = world(saved)
            m = model(E, W)
            if size is None:
                n = E.int("n"); E.assume(n >= 1); nz = n.z
                w = Window(n)
            else:
                nz = z3.IntVal(size); w = concrete_window(size)
            arg, _ = SAVED[which](None, None)
            u0 = State(z3.Const("u0", S))
            E.assume(Iter(0) == u0.z)
            if size is not None:
                for k in range(size): axiom_step(k); axiom_count(k, saved)
            if which == "default": out = getattr(m, name)(w, u0)
            else: out = getattr(m, name)(w, u0, arg)
            if name == "forecast":
                if not isinstance(out, VDict): raise Unsupported("forecast does not return a dictionary")
                q = E.real("q").z
                ref = VDict(); ref.base = TrajDict(nz, saved)
                pa, va = dict_terms(out, q); pb, vb = dict_terms(ref, q)
                E.prove("the keys are exactly the saved times of the window", SBool(pa == pb))
                E.prove("each key is mapped to the iterate of the step map at this time", SBool(z3.Implies(z3.And(pa, pb), va == vb)))
            else:
                if not isinstance(out, Stack): raise Unsupported("predict does not return np.array(list)")
                l = out.l if isinstance(out.l, VList) else VList(out.l)
                axiom_count(SInt(z3.simplify(nz - 1)), saved)
                E.prove("the states at the saved times of the window, in time order, each the iterate of the step map", SBool(list_is(l, SInt(nz))))
            E.prove("the initial state is left unmodified", u0.z == z3.Const("u0", S))
        return run
    E.explore_n(f"Model.{name} [saved times: {which}]", make, f"Model.{name}", sizes=(1, 2, 3, 5))


def check_saved(E):
    def run():
        W = world(lambda q: z3.BoolVal(True))
        M = W.load("vsympkf.model.model").Model
        n = E.int("n"); E.assume(n >= 1)
        w = Window(n)
        r = M._check_saved_times(w, None)
        E.prove("no saved times: the whole window", r is w)
        t = E.real("t")
        r = M._check_saved_times(w, t)
        ok = isinstance(r, (list, tuple)) and len(r) == 1 and E.holds(r[0] == t)
        E.prove("a float: the list of this time", ok)
        f = float64()
        r = M._check_saved_times(w, f)
        E.prove("a numpy float: the list of this time", isinstance(r, (list, tuple)) and len(r) == 1 and r[0] is f)
        s = SavedTimes()
        r = M._check_saved_times(w, s)
        E.prove("a collection is kept", r is s)
    E.explore("Model._check_saved_times", run, "Model._check_saved_times")


def verify(E):
    E.trusted += ["z3 (integers, reals, uninterpreted functions)", "pyvc engine: path exploration, loop rule with the listed invariants, dictionary and list views",
                  "numpy: np.array(list) stacks the elements in order; slices and membership of arrays of times"]
    E.assumptions += ["the times of the window are pairwise distinct (property text); equality of times is equality of numbers",
                      "contract of time_scheme (C01): a function of (trend, t, state, dt) that returns a new state, or the state itself, and leaves its arguments unmodified"]
    check_saved(E)
    for name in ("forecast", "predict"):
        for which in SAVED: contract(E, name, which)
