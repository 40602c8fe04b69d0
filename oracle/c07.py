"""Every entry of the rewriting tree evaluated on random jets of a random field."""
from common import *
import itertools
import numpy as np
import sympy
from sympy import symbols, Function, Derivative
from jets import Space, Interp


def multi(n, d):
    return [a for a in itertools.product(range(d + 1), repeat=n) if sum(a) == d]


def run_all(run):
    from sympkf.symbolic.pkfcas import UnivariateTree, Field
    from sympkf.symbolic.random import Expectation, omega

    t = symbols("t")
    COORDS = {1: [("x",), ("z",), ("theta",)], 2: [("x", "y"), ("y", "x"), ("dx", "x"), ("lambda", "\\phi")], 3: [("x", "y", "z")], 4: [("x", "y", "z", "a")], 5: [("x", "y", "z", "a", "b")], 6: [("x", "y", "z", "a", "b", "c")]}

    def order_of(e, eps, coords):
        """(alpha, beta) orders of the key E[D^a eps D^b eps]; None if it is not of this form"""
        a = e.args[0]
        if isinstance(a, sympy.Pow) and a.exp == 2: fs = [a.base, a.base]
        elif isinstance(a, sympy.Mul) and len(a.args) == 2: fs = list(a.args)
        else: return None
        out = []
        for f in fs:
            if f == eps: out.append(tuple(0 for _ in coords)); continue
            if not isinstance(f, Derivative) or f.expr != eps: return None
            d = dict(f.variable_count)
            if not set(d) <= set(coords): return None
            out.append(tuple(int(d.get(c, 0)) for c in coords))
        return tuple(sorted(out))

    def check_tree(rng, chk, tree, degree, eps, coords, desc):
        n = len(coords)
        # 1. which terms are rewritten: all E[D^a eps D^b eps] with |a|,|b|>=1, |a|+|b|<=degree
        keys = {}
        for k in tree:
            chk.true(isinstance(k, Expectation), "a key of the tree is not an expectation", key=k, case=desc)
            o = order_of(k, eps, coords)
            chk.true(o is not None, "a key of the tree is not E[D^a eps D^b eps]", key=k, case=desc)
            chk.true(o not in keys, "a term has two keys", key=k, case=desc)
            keys[o] = k
        want = set()
        for da in range(1, degree):
            for db in range(1, degree - da + 1):
                for a in multi(n, da):
                    for b in multi(n, db): want.add(tuple(sorted((a, b))))
        chk.true(want <= set(keys), f"terms missing from the tree of degree {degree}", missing=sorted(want - set(keys))[:5], case=desc)
        chk.true(set(keys) <= want, f"unexpected terms in the tree of degree {degree}", unexpected=sorted(set(keys) - want)[:5], case=desc)
        # 2. only terms E[eps D^c eps] are left
        for k, v in tree.items():
            for e in sympy.sympify(v).atoms(Expectation):
                o = order_of(e, eps, coords)
                chk.true(o is not None and sum(o[0]) == 0, "the rewriting keeps a term that is not E[eps D^c eps]", term=e, key=k, case=desc)
            chk.true(not sympy.sympify(v).atoms(sympy.Integral), "unexpected integral")
        # 3. identity, on random jets
        orders = [degree] * n
        sp = Space(coords, orders, [0.] * n, 3)
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        eps_jet = nr.uniform(-1, 1, size=(3,) + sp.shape) / 2
        I = Interp(sp, {str(eps.func): eps_jet}, {t: 0.3}, Expectation)
        for k, v in tree.items():
            a, b = float(sp.val(I.den(k))[0]), float(sp.val(I.den(v))[0])
            sc = max(1., abs(a), I.scale(v))
            chk.true(abs(a - b) <= 1e-8 * sc, "a rewriting of the tree is not an identity", term=k, rewriting=v, left=a, right=b, case=desc)

    def make(rng, n):
        names = rng.choice(COORDS[n])
        coords = symbols(" ".join(names)) if n > 1 else (symbols(names[0]),)
        u = Function(rng.choice(["u", "T", "\\theta"]))(t, *coords)
        if rng.random() < .5:
            eps = Function("eps")(t, *coords, omega)
            return UnivariateTree(eps, coords), eps, coords, (lambda: UnivariateTree(eps, coords))
        mf = Field(u)
        return mf.subs_tree, mf.epsilon, coords, (lambda: UnivariateTree(mf.epsilon, coords))

    MAXD = {1: (8, 11), 2: (5, 6), 3: (4, 4), 4: (3, 3), 5: (3, 3), 6: (3, 3)}

    def tree_case(n, top=None):
        def one(rng, chk):
            tree, eps, coords, fresh = make(rng, n)
            D = MAXD[n][1 if run.thorough else 0]
            if top is not None: D = top
            elif not run.thorough and n > 1 and rng.random() < .6: D -= 1
            reqs = [rng.randrange(0, D + 1) for _ in range(rng.randrange(0, 4))] + [D]
            if rng.random() < .4: reqs += [rng.randrange(1, D + 1)]
            desc = f"coords {coords}, requests {reqs}"
            for d in reqs:
                got = tree(d)
                if rng.random() < .2 and got: got.pop(next(iter(got)));           # the caller's copy
            last = reqs[-1]
            check_tree(rng, chk, tree(last), last, eps, coords, desc)
            # history independence
            d = rng.choice(reqs)
            chk.true(tree(d) == fresh()(d), "the tree depends on the previous requests", case=desc, degree=d)
            chk.true(tree() == tree(max(reqs)), "tree() is not the tree of the largest degree", case=desc)
            return desc
        return one

    for k in range(run.n(8, 60)): run.case("dim1", k, tree_case(1))
    for k in range(run.n(5, 30)): run.case("dim2", k, tree_case(2))
    for k in range(run.n(2, 6)): run.case("dim3", k, tree_case(3))
    for k, (n, D) in enumerate([(1, 10), (1, 12), (4, 3), (5, 3)] + ([(1, 14), (1, 16), (2, 8), (4, 4), (6, 3)] if run.thorough else [])): run.case("wide", k, tree_case(n, D))


if __name__ == "__main__":
    main("C07", run_all)
