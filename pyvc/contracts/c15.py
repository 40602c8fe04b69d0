"""C15: closures take effect whatever was computed before, and only where set.

The object is explored as a state machine: operations = closures given (to the constructor, then to set_closure) and reads; states
= everything the object holds (all attributes, fields and trees, compared structurally).  The exploration ends when no operation
leads to a new state, so that histories of any length over the given closures are covered; each read is compared with the
formulations derived by the contract (c14) from the accumulated closure alone, for arbitrary (opaque) closing functions."""
import copy, itertools, types
import engine, cas
from cas import sym, FnSym, X, Mat, Equation
from . import symb, c14
from .symb import world, transparent_system, COORDS

READS = ("in_metric", "in_aspect", "in_diffusion", "unclosed_terms")
OTHERS = ("closure", "internal_closure", "subs_tree", "expectation_system", "variance_system", "cross_covariance_system", "metric_system", "std_system", "epsilon_system")


def freeze(v, seen=None):
    """structural key of a value: equal keys behave alike"""
    if isinstance(v, (X, Equation, FnSym, str, int, float, bool, type(None), cas.Fr)): return v
    seen = seen or {}
    if id(v) in seen: return ("ref", seen[id(v)])
    seen = {**seen, id(v): len(seen)}
    if isinstance(v, Mat): return ("mat", tuple(tuple(r) for r in v.rows))
    if isinstance(v, dict): return ("dict", type(v).__name__, tuple((freeze(a, seen), freeze(b, seen)) for a, b in dict.items(v)))
    if isinstance(v, (list, tuple)): return ("list", tuple(freeze(a, seen) for a in list.__iter__(v)) if isinstance(v, list) else tuple(freeze(a, seen) for a in v))
    if isinstance(v, (set, frozenset)): return ("set", frozenset(freeze(a, seen) for a in v))
    if isinstance(v, (type, types.FunctionType, types.MethodType, types.ModuleType, staticmethod, classmethod, property)): return ("id", id(v))
    if hasattr(v, "__dict__"): return ("obj", type(v).__name__, tuple((k, freeze(a, seen)) for k, a in vars(v).items()))
    raise engine.Unsupported(f"state of kind {type(v).__name__}")


def shared_state(P):
    """what is shared between objects: mutable globals and class attributes of the module, default arguments"""
    out = []
    for k, v in vars(P).items():
        if k.startswith("_"): continue
        if isinstance(v, (dict, list, set)): out.append((k, freeze(v)))
        if isinstance(v, type) and v.__module__ == P.__name__:
            for a, w in vars(v).items():
                if a.startswith('__') and a != '__init__': continue
                if hasattr(w, 'cache_info'): raise engine.Unsupported('memoized function')
                if isinstance(w, (dict, list, set)): out.append((k, a, freeze(w)))
                if isinstance(w, types.FunctionType): out += [(k, a, freeze(d)) for d in (w.__defaults__ or ()) if isinstance(d, (dict, list, set))]
    return tuple(out)


def clone(v):
    return copy.deepcopy(v)


for c in (X, FnSym, Equation):
    c.__deepcopy__ = lambda self, memo: self


def closures(pkf, all_terms):
    """the alphabet: for two unknown statistics a and b (a alone if there is one), arbitrary closing functions"""
    m = list(pkf.fields.values())[0]
    g = m.metric[0, 0]; x = m.spatial_coordinates[0]
    terms = sorted(all_terms, key=lambda e: (len(str(e)), str(e)))
    def val(k): return FnSym(f"K{k}")(*m.coordinates) * g + FnSym(f"J{k}")(*m.coordinates) * cas.Derivative(g, x)
    a, b = terms[-1], terms[0]
    out = {"a:=1": {a: val(1)}, "a:=2": {a: val(2)}}
    if b != a: out["b:=3"] = {b: val(3)}; out["a:=4, b:=3"] = {a: val(4), b: val(3)}
    out["nothing"] = {}
    # closing functions that are themselves written with another unknown statistic
    # or with a statistic that is not known and appears nowhere else
    out["a:=new"] = {a: FnSym("K6")(*m.coordinates) * cas.Expectation(cas.Derivative(m.epsilon, x, 9) * cas.Derivative(m.epsilon, x, 7))}
    if len(terms) > 1: out["b:=a"] = {b: FnSym("K5")(*m.coordinates) * a}
    return out


class Caller(dict):
    """a dictionary of the caller: not part of the state of a filter, whose copies refer to the same one"""
    def __deepcopy__(self, memo): return self


def machine(E, make, nf, alphabet):
    def run():
        W = world()
        P, U = W.load("vsympkf.symbolic.pkfcas"), W.load("vsympkf.symbolic.util")
        fs, rhs, eqs = make(U)
        def mk(c=None): return P.SymbolicPKF(list(eqs) if nf > 1 else eqs[0], closure=c)
        probe = mk()
        terms = unclosed(probe, c14.reference(P, mk, {})["in_metric"])
        cl = {k: v for k, v in closures(probe, terms).items() if k in alphabet}
        fields = [k for k in cl]
        other = mk()                                                   # another filter of the same system
        other0 = freeze(other)
        shared = shared_state(P)
        refs = {}
        def ref(acc):
            k = freeze(acc)
            if k not in refs:
                r = c14.reference(P, mk, acc)
                refs[k] = (r, unclosed(probe, r["in_metric"]))
            return refs[k]
        done, todo = {}, []
        def push(pkf, acc, hist):
            key = (freeze(pkf), freeze(acc))
            if key in done: return
            done[key] = hist
            todo.append((pkf, acc, hist))
        d = Caller()
        def give(op, call):
            """the caller's dictionary, the same object for all calls: not modified by the call; its later changes do not matter"""
            before = dict(cl[op])
            d.clear(); d.update(before)
            r = call(d)
            E.prove("the dictionary given by the caller is not modified", d == before, detail=op)
            for k in list(cl.values()):
                for t in k: d[t] = FnSym("Poison")(*list(probe.fields.values())[0].coordinates)
            return r
        push(mk(), {}, "no closure")
        for op in fields: push(give(op, lambda d: mk(d)), dict(cl[op]), f"constructor({op})")
        n = 0
        while todo:
            pkf, acc, hist = todo.pop(0)
            n += 1
            for op in fields:
                q = clone(pkf); a = {**acc, **cl[op]}
                give(op, q.set_closure)
                E.prove("the closure is the accumulated one", dict(dict.items(q.closure)) == a, detail=f"{hist}; set_closure({op})")
                push(q, a, f"{hist}; set_closure({op})")
            for name in READS:
                q = clone(pkf)
                check_read(E, q, name, ref(acc), f"{hist}; {name}", acc)
                f = freeze(q)
                check_read(E, q, name, ref(acc), f"{hist}; {name}; {name}", acc)
                push(q, acc, f"{hist}; {name}")
            for name in OTHERS:
                q = clone(pkf); getattr(q, name); push(q, acc, f"{hist}; {name}")
            if n > 600: raise engine.Unsupported("more than 600 states")
        E.prove("another filter is not affected", freeze(other) == other0)
        E.prove("no state is shared between filters", shared_state(P) == shared, weak=True)
        r = ref({})
        for name in READS: check_read(E, other, name, r, f"another filter; {name}", {})
        E.states = getattr(E, "states", []) + [n]
    return run


def unclosed(pkf, eqs):
    out = set().union(*[cas.asx(b).atoms(cas.Expectation) for _, b in eqs])
    return out - {cas.Expectation(m.random) for m in pkf.fields.values()}


def check_read(E, q, name, ref, hist, acc):
    forms, un = ref
    got = getattr(q, name)
    if name == "unclosed_terms":
        E.prove("the unclosed terms are those of the accumulated closure", set(got) == un, detail="" if set(got) == un else f"{hist}: {got} instead of {un}")
        return
    want = forms[name]
    same = [e.args[0] for e in got] == [a for a, _ in want] and all(eq(e.args[1], b) for e, (a, b) in zip(got, want))
    E.prove(f"{name} is that of the accumulated closure", same, detail="" if same else f"after {hist}: {[str(e) for e in got]}"[:700], backend="differential-algebra normal form")


def eq(a, b):
    a, b = cas.doit(cas.asx(a)), cas.doit(cas.asx(b))
    return a == b or c14.equal(a, b)


def source_system(U):
    """a statistic that is only unknown in the equation of the mean of the second field"""
    u, v = symb.functions(2, ("x",))
    t, x = sym("t"), sym("x")
    rhs = {u: FnSym("A")(t, x) * cas.Derivative(u, x), v: FnSym("B")(t, x) * cas.Derivative(u, (x, 2)) * cas.Derivative(u, (x, 2))}
    return [u, v], rhs, [U.Eq(cas.Derivative(f, t), rhs[f]) for f in (u, v)]


def verify(E):
    E.trusted += ["sympy: contracts of Derivative, subs, doit, expand, simplify, inverse of a matrix, as the model of pyvc/cas.py", "Expectation: its contract (C05), not its body"]
    E.functions += ["SymbolicPKF.closure", "SymbolicPKF.in_metric", "SymbolicPKF.in_aspect", "SymbolicPKF.in_diffusion", "SymbolicPKF.unclosed_terms", "SymbolicPKF.__init__"]
    small = ("a:=1", "a:=2", "nothing", "a:=new")
    two = ("a:=1", "a:=2", "b:=3", "a:=4, b:=3", "b:=a")
    runs = [(1, 1, 2, 0, small), (1, 1, 3, 0, ("a:=1", "a:=2", "b:=a"))]
    runs += [(2, 1, 1, 0, small)] if E.tier == "quick" else [(1, 1, 3, 0, two), (2, 1, 2, 0, small), (1, 2, 2, 0, small)]
    for nf, d, o, q, al in runs:
        E.explore(f"histories of closures {list(al)} and reads, {nf} field(s) in {d}D, linear terms of order {o}, arbitrary coefficients",
                  machine(E, lambda U: transparent_system(U, nf, COORDS[d], o, q), nf, al), "SymbolicPKF.set_closure")
    E.explore(f"histories of closures {list(small)} and reads, 2 fields in 1D, one forced by the square of the second derivative of the other", machine(E, source_system, 2, small), "SymbolicPKF.set_closure")
    E.assumptions += ["systems and closures as listed in the obligations (coefficients and closing functions arbitrary); histories of any length: all reachable states of the object were visited"
                      f" ({getattr(E, 'states', [])} states)"]
