from common import *
import sympy, math, itertools
from sympy import symbols


def run_all(run):
    from sympkf.symbolic.pkfcas import PartialOrderDerivative as POD

    def coords_for(rng, n):
        pool = ['x', 'y', 'z', 'w', 's', '\\theta', 'x1', 't', 'r', 'lon']
        return tuple(sympy.Symbol(c) for c in rng.sample(pool, n))

    def compositions(n, deg):
        if n == 1: yield (deg,)
        else:
            for k in range(deg + 1):
                for r in compositions(n - 1, deg - k): yield (k,) + r

    def enum(n, deg):
        def f(rng, chk):
            X = coords_for(rng, n)
            X = list(X) if rng.random() < .3 else X
            got = list(POD.all_of_degree(X, deg))
            tuples = [p.as_tuple for p in got]
            want = set(compositions(n, deg))
            chk.equal(len(tuples), len(set(tuples)), "a multi-index is enumerated twice", n=n, degree=deg, got=tuples)
            chk.equal(set(tuples), want, "wrong enumeration", n=n, degree=deg)
            for p in got:
                chk.true(isinstance(p, POD) and tuple(p.coordinates) == tuple(X), "wrong coordinates", n=n)
                chk.true(all(isinstance(a, int) for a in p.as_tuple), "orders are not integers", got=p.as_tuple)
            return f"all_of_degree n={n} degree={deg}: {len(got)} multi-indices"
        return f

    def views(chk, p, X, orders, what, **kw):
        chk.equal(tuple(p.as_tuple), tuple(orders), what + ": tuple view", coords=X, **kw)
        chk.equal([tuple(c) for c in p.as_couples], list(zip(X, orders)), what + ": couples view", coords=X, **kw)
        seq = list(p.as_sequence)
        chk.equal({x: seq.count(x) for x in X}, dict(zip(X, orders)), what + ": sequence view", coords=X, **kw)
        chk.equal(len(seq), sum(orders), what + ": sequence view", coords=X, **kw)

    def notations(rng, chk):
        n = rng.randrange(1, 5) if rng.random() < .95 else rng.randrange(5, 11)
        X = coords_for(rng, n)
        a = tuple(rng.choice([0, 0, 1, 1, 2, 3, 5, rng.choice([11, 40, 40, 40, 130, 257])]) for _ in range(n))
        ref = POD(X, a)
        views(chk, ref, X, a, "from tuple", of=a)
        # couples: any order, repeated coordinates add up, zero orders may be omitted
        cps = [(x, k) for x, k in zip(X, a) if k or rng.random() < .5]
        if rng.random() < .4:
            cps = [c for x, k in cps for c in ([(x, k)] if k < 2 else [(x, 1), (x, k - 1)] if rng.random() < .9 else [(x, 1)] * k)]
        rng.shuffle(cps)
        if cps: views(chk, POD(X, cps), X, a, "from couples", couples=cps)
        seq = [x for x, k in zip(X, a) for _ in range(k)]
        rng.shuffle(seq)
        views(chk, POD(X, seq), X, a, "from sequence", sequence=seq)
        views(chk, POD(X, tuple(seq)), X, a, "from sequence (tuple)", sequence=seq) if seq else None
        j = rng.randrange(n); k = rng.randrange(0, 4)
        views(chk, POD(X, (X[j], k)), X, tuple(k if i == j else 0 for i in range(n)), "from one couple", couple=(X[j], k))
        # round trips and equality
        for p in (POD(X, ref.as_couples), POD(X, ref.as_sequence), POD(X, ref.as_tuple), ref.copy(), ref.new(ref.as_sequence), ref.new(ref.as_couples)):
            views(chk, p, X, a, "round trip", of=a)
            chk.true(p == ref, "equal multi-indices compare different", of=a)
        b = tuple(k + (1 if i == 0 else 0) for i, k in enumerate(a))
        chk.true(not (POD(X, b) == ref), "different multi-indices compare equal", a=a, b=b)
        return f"coords {X}, orders {a}, couples {cps}, sequence {seq}"

    def invalid(rng, chk):
        n = rng.randrange(2, 5)
        X = coords_for(rng, n)
        z = sympy.Symbol('other')
        kind = rng.choice(["short", "long", "float", "foreign couple", "foreign sequence", "float couple", "mixed", "foreign one", "str"])
        if kind == "short": bad = (1,) * (n - 1)
        elif kind == "long": bad = (1,) * (n + 1)
        elif kind == "float": bad = (1.5,) + (0,) * (n - 1)
        elif kind == "foreign couple": bad = [(X[0], 1), (z, 1)]
        elif kind == "foreign one": bad = (z, 2)
        elif kind == "foreign sequence": bad = [X[0], z]
        elif kind == "float couple": bad = [(X[0], 1.5)]
        elif kind == "mixed": bad = [(X[0], 1), X[0]]
        else: bad = ['x', 'zz']
        chk.raises(TypeError, lambda: POD(X, bad), f"invalid orders {bad} accepted for {X}")
        return f"invalid {kind} {bad} for {X}"

    for n in range(1, 6):
        for deg in range(0, {1: 12, 2: 10, 3: 8, 4: 6, 5: 5}[n] + (2 if run.thorough else 0)):
            run.case("enumeration", f"{n},{deg}", enum(n, deg))
    # large degrees and long enumerations
    for n, deg in [(1, 64), (1, 128), (1, 150), (1, 257), (1, 300), (2, 20), (2, 41), (2, 64), (2, 130), (3, 12), (3, 20), (4, 9), (5, 7), (6, 5), (7, 4), (8, 3)] + \
                  ([(2, 300), (3, 45), (4, 16), (1, 1000), (9, 4)] if run.thorough else []):
        run.case("enumeration", f"{n},{deg}", enum(n, deg))
    for k in range(run.n(3000, 10000)):
        run.case("notations", k, notations)
        if k % 4 == 0: run.case("invalid", k, invalid)


if __name__ == "__main__":
    main("C06", run_all)
