"""shared set-up of the contracts of the symbolic part: the real modules on the model of the computer algebra"""
import itertools
import numpy
import engine, cas
from cas import sym, FnSym, T, num, Unsupported
from loader import World


class Ordered(engine.VSet):
    """set of atoms, enumerated in one order or the other"""
    def __iter__(self): return iter(sorted(set.__iter__(self), key=rank, reverse=engine.VSet.flip))
    def pop(self):
        e = next(iter(self)); self.discard(e)
        return e


def rank(x): return (getattr(x, "degree", 0) if isinstance(getattr(x, "degree", 0), int) else 0, len(str(x)), str(x))


plain_atoms = cas.X.atoms


def any_order(E):
    """from now on, sets (of atoms, of univariate terms) are enumerated in one order or the other"""
    engine.VSet.flip = E.choose([False, True]); engine.VSet.rank = staticmethod(rank)
    cas.X.atoms = lambda self, *c: Ordered(plain_atoms(self, *c))


def world(expectation=True, prepare=None):
    model = cas.sympy_model()
    if prepare: prepare(model)
    W = World({"sympy": model, "numpy": numpy})
    r = W.load("vsympkf.symbolic.random")
    if expectation: r.Expectation = cas.Expectation         # a callee: its contract (C05), not its body
    return W


COORDS = {1: ("x",), 2: ("x", "y"), 3: ("x", "y", "z"), 4: ("x", "y", "z", "p"), 5: ("x", "y", "z", "p", "r")}


NAMES = (("u", "v", "w", "p", "q", "T"), ("h1", "h2", "h12", "h", "h11", "h21"), ("\\theta", "\\theta_e", "q", "q_e", "e", "s"))


def functions(nf, coords):
    """fields with arbitrary names: distinct, similar, latex"""
    t = sym("t")
    names = engine.CUR.choose(list(NAMES)) if NAMED[0] else NAMES[0]
    return [FnSym(n)(t, *[sym(c) for c in coords]) for n in names[:nf]]


NAMED = [False]


def opaque_system(U, nf, coords):
    """u_i_t = rhs_i(u_1, ..) with arbitrary (smooth, differential) rhs_i"""
    fs = functions(nf, coords)
    t = sym("t")
    rhs = {f: T("rhs", i, *fs) for i, f in enumerate(fs)}
    return fs, rhs, [U.Eq(cas.Derivative(f, t), rhs[f]) for f in fs]


def transparent_system(U, nf, coords, order, quad):
    """u_i_t = sum_a A_a D^a u_j + sum_ab B_ab D^a u_j D^b u_k with arbitrary coefficient functions of (t, coordinates)"""
    fs = functions(nf, coords)
    t = sym("t"); crd = [t] + [sym(c) for c in coords]
    def ders(k):
        return [a for n in range(k + 1) for a in itertools.product(range(n + 1), repeat=len(coords)) if sum(a) == n]
    def D(f, a):
        for s, n in zip(crd[1:], a):
            if n: f = cas.Derivative(f, (s, n))
        return f
    rhs = {}
    for i, f in enumerate(fs):
        x = num(0); c = itertools.count()
        for h in fs:
            for a in ders(order): x = x + FnSym(f"A{i}{next(c)}")(*crd) * D(h, a)
        for (h, a), (l, b) in itertools.combinations_with_replacement([(h, a) for h in fs for a in ders(quad)], 2):
            x = x + FnSym(f"B{i}{next(c)}")(*crd) * D(h, a) * D(l, b)
        rhs[f] = x
    return fs, rhs, [U.Eq(cas.Derivative(f, t), rhs[f]) for f in fs]
