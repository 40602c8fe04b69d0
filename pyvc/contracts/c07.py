"""C07: the univariate tree rewrites E[D^a eps D^b eps] exactly, completely, whatever was asked before"""
import itertools
import engine, cas
from cas import sym, num, X, Fr, FnSym, jet
from pkfsem import Sem, equal
from . import symb, tree
from .symb import world, COORDS


class EpsSem(Sem):
    """meaning of the statistics of one random field of variance 1 (arbitrary otherwise): E[eps D^a eps] eliminated.
    The field has an arbitrary variance here, so that the identities do not even rely on the normalization"""
    def __init__(self, eps, var):
        self.t = "t"; self.defs, self.memo = {}, {}
        self.err, self.var, self.val = [eps.single()[1]], [var.single()[1]], []
        self.fields, self.mf = [], []


def pairs_of_degree(k, d):
    def mi(n): return [a for a in itertools.product(range(n + 1), repeat=d) if sum(a) == n]
    return [(a, b) for p in range(1, k) for a in mi(p) for b in mi(k - p)]


def D(f, coords, a):
    for s, n in zip(coords, a):
        if n: f = cas.Derivative(f, (sym(s), n))
    return f


def check_tree(E, S, eps, coords, tree, degree):
    keys = {}
    for k, v in dict.items(tree):
        keys[k] = v
        ok = equal(S.red(k), S.red(v))
        E.prove("each entry is an identity of random fields", ok, detail="" if ok else f"{k} -> {v}"[:500], backend="differential-algebra normal form")
        bad = [g for g in v.allgens() if g[0] == "E" and not undiff(g, eps)]
        E.prove("the right-hand sides only involve E[eps D^c eps] and their derivatives", not bad, detail="" if not bad else f"{k} -> {v}"[:500])
        rnd = [g for m in v.d for g, e in m if cas.is_random(g)]
        E.prove("the right-hand sides are not random", not rnd, detail=f"{k} -> {v}"[:300])
    want = {cas.Expectation(D(eps, coords, a) * D(eps, coords, b)) for k in range(2, degree + 1) for a, b in pairs_of_degree(k, len(coords))}
    E.prove("the entries are exactly the E[D^a eps D^b eps] of the degree or less", set(keys) == want, detail=f"missing {list(map(str, want - set(keys)))[:3]} extra {list(map(str, set(keys) - want))[:3]}")
    return keys


def undiff(g, eps):
    gs = [h for h, e in g[1] for _ in range(int(e))]
    return len(gs) == 2 and any(h[0] == "j" and h[1] == eps.single()[1] and not sum(h[2]) for h in gs)


def trees(E, coords, degree):
    def run():
        W = world()
        P = W.load("vsympkf.symbolic.pkfcas")
        t = sym("t"); crd = [sym(c) for c in coords]
        eps = FnSym("eps")(t, *crd, sym("omega"))
        S = EpsSem(eps, FnSym("Veps")(t, *crd))
        tree = P.UnivariateTree(eps, tuple(crd))
        # any first request, then the others in increasing or decreasing order
        first = E.choose(list(range(degree + 1)))
        order = [first] + E.choose([list(range(degree + 1)), list(range(degree, -1, -1))])
        seen = {}
        for d in order:
            r = tree(d)
            keys = check_tree(E, S, eps, coords, r, d)
            if d in seen: E.prove("a tree does not depend on the requests made before", keys == seen[d])
            seen[d] = keys
        E.prove("the degree reached is the largest one asked for", tree.degree == degree, weak=True)
        r = tree()
        E.prove("the tree asked for without a degree is the largest one computed", dict(dict.items(r)) == seen[degree])
    return run


def verify(E):
    E.trusted += ["sympy: contracts of Derivative, subs, doit, solve (one linear unknown), as the model of pyvc/cas.py", "Expectation: its contract (C05), not its body"]
    shapes = [(("x",), 7), (("x", "y"), 5), (("y", "x"), 4), (("x", "y", "z"), 4)] if E.tier == "quick" else [(("x",), 10), (("x", "y"), 7), (("y", "x"), 5), (("x", "y", "z"), 5)]
    for c, d in shapes:
        E.explore(f"trees of a field of {', '.join(c)} up to degree {d}", trees(E, c, d), "UnivariateTree.__call__")
    E.functions += ["UnivariateTree._add_tree_level", "PartialOrderDerivative.all_of_degree"]
    tree.verify(E)
    E.assumptions += ["degrees and dimensions bounded as listed in the obligations of the first group"]
