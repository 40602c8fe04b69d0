"""C16: analytic closures are the derivatives of the correlation at coinciding points"""
import itertools
import engine, cas
from cas import sym, num, X, Fr, FnSym, Mat, T
from pkfsem import equal
from . import symb, c15
from .symb import world, COORDS


def mis(d, n): return [a for a in itertools.product(range(n + 1), repeat=d) if sum(a) == n]


def term(eps, coords, a):
    f = eps
    for s, n in zip(coords, a):
        if n: f = cas.Derivative(f, (sym(s), n))
    return cas.Expectation(eps * f)


def opaque(coords):
    """an arbitrary function of the point x and of the separation d = y-x (smooth at coinciding points)"""
    def correlation(self, px, py, *a, **k):
        px, py = list(px), list(py)
        vs = []
        E = engine.CUR
        for s, x, y in zip(coords, px, py):
            if cas.asx(x) != sym(s): raise engine.Unsupported("correlation at another point")
            d = (cas.asx(y) - cas.asx(x)).symbol()
            if d is None or d in coords: raise engine.Unsupported("separation that is not a free symbol")
            vs.append(d)
        vs = tuple(coords) + tuple(vs)
        if len(set(vs)) != len(vs): raise engine.Unsupported("separations that are not distinct symbols")
        return T("fn", "rho", (0,) * len(vs), (False,) * len(vs), vs)
    return correlation


def derivative_at_0(vs, a):
    d = len(vs) // 2
    return T("fn", "rho", (0,) * d + tuple(a), (False,) * d + (True,) * d, vs)


def check_closure(E, got, eps, coords, order, value, detail=""):
    for k in range(order + 1):
        for a in mis(len(coords), k):
            key = term(eps, coords, a)
            E.prove("there is a value for every E[eps D^a eps] up to the order", key in got, detail=f"{detail} {a}")
            if key in got:
                w = value(a)
                ok = equal(cas.doit(cas.asx(got[key])), cas.doit(w))
                E.prove("each value is the derivative of the correlation in the second point at coinciding points", ok, detail="" if ok else f"{detail}: {a}: {got[key]} instead of {w}"[:500],
                        backend="differential-algebra normal form")


def histories(E, coords, N, cls, value_of=None, ops=("closure", "closure_by_order"), metric=()):
    """every reachable state of the object, for requests of all orders up to N in any order and any number of times"""
    def run():
        W = world()
        P = W.load("vsympkf.symbolic.pkfcas")
        C = getattr(P, cls)
        if value_of is None:
            C = type("C", (C,), {"correlation": opaque(coords)})       # a callee: any correlation function
        f = FnSym("u")(sym("t"), *[sym(c) for c in coords])
        obj = C(f)
        eps = obj.epsilon
        vs = tuple(coords) + tuple(d.symbol() for d in obj._dx) if value_of is None else None
        value = (lambda a: derivative_at_0(vs, a)) if value_of is None else value_of(obj)
        done, todo = {}, [(obj, "new")]
        shared = c15.shared_state(P)
        while todo:
            o, hist = todo.pop(0)
            k = c15.freeze(o)
            if k in done: continue
            done[k] = hist
            if len(done) > 400: raise engine.Unsupported("more than 400 states")
            for n in range(N + 1):
                for op in ops:
                    q = c15.clone(o)
                    r = getattr(q, op)(n)
                    if op == "closure_by_order":
                        flat = {}
                        for j in range(n + 1):
                            E.prove("the orders are all there", j in r, detail=f"{hist}; {op}({n})")
                            E.prove("each value is filed under its order", set(r[j]) == {term(eps, coords, a) for a in mis(len(coords), j)}, detail=f"{hist}; {op}({n})", weak=True)
                            flat.update(r[j])
                        r = flat
                    check_closure(E, r, eps, coords, n, value, f"{hist}; {op}({n})")
                    todo.append((q, f"{hist}; {op}({n})"))
                if n in metric:
                    q = c15.clone(o)
                    check_metric(E, q, coords, n, f"{hist}; in_metric_by_order({n})", eps)
                    check_closure(E, q.closure(n), eps, coords, n, value, f"{hist}; in_metric_by_order({n}); closure({n})")
                    todo.append((q, f"{hist}; in_metric_by_order({n})"))
        E.prove("no state is shared between closures", c15.shared_state(P) == shared, weak=True)
        E.states = getattr(E, "states", []) + [len(done)]
    return run


def tensor(mf, which):
    """the tensors of the field, from their definition: symmetric, functions of the coordinates of the field named after it"""
    return getattr(mf, which)


def to_metric(mf):
    """aspect tensor -> inverse of the metric tensor"""
    d = len(mf.spatial_coordinates)
    G = Mat([[mf.metric[i, j] for j in range(d)] for i in range(d)])
    inv = G.inv()
    return [(mf.aspect[i, j], inv[i, j]) for i in range(d) for j in range(i, d)]


def check_metric(E, q, coords, n, detail, eps):
    before = {k: dict(dict.items(v)) for k, v in dict.items(q.closure_by_order(n))}
    tab = to_metric(q.mfield)
    cas.SOLUTION[0] = lambda unknowns: {u: dict(tab)[u] for u in unknowns}
    try: r = q.in_metric_by_order(n)
    finally: cas.SOLUTION[0] = None
    after = {k: dict(dict.items(v)) for k, v in dict.items(q.closure_by_order(n))}
    E.prove("writing it in the metric does not alter the closure in aspect", before == after, detail=detail)
    mf = q.mfield
    for k in range(n + 1):
        for a in mis(len(coords), k):
            key = term(eps, coords, a)
            got = r[k][key]
            if k == 2:
                i, j = [p for p, m in enumerate(a) for _ in range(m)]
                want = -mf.metric[min(i, j), max(i, j)]
                E.prove("in the metric, the value of order two is the opposite of the metric component", equal(cas.asx(got), want), detail=f"{detail}: {a}: {got}"[:500])
            else:
                want = cas.doit(cas.subs(before[k][key], tab))
                ok = equal(cas.doit(cas.asx(got)), want)
                E.prove("in the metric, the other values are those in aspect with s = g^-1", ok, detail="" if ok else f"{detail}: {a}: {got} instead of {want}"[:500], backend="differential-algebra normal form")


# ---------------------------------------------------------------------- the correlation functions (textbook formulas)
def shifted(M, coords, p):
    return Mat([[cas.subs(v, [(sym(c), cas.asx(q)) for c, q in zip(coords, p)]) for v in r] for r in M.rows])


def quad(M, px, py):
    d = len(px)
    x = X()
    for i in range(d):
        for j in range(d): x = x + (cas.asx(px[i]) - cas.asx(py[i])) * M[i, j] * (cas.asx(px[j]) - cas.asx(py[j]))
    return x


def het_gauss(S, coords, px, py, c):
    """|S_x|^1/4 |S_y|^1/4 / |(S_x+S_y)/2|^1/2 exp(-c (x-y)'(S_x+S_y)^-1(x-y))"""
    a, b = shifted(S, coords, px), shifted(S, coords, py)
    q, h = num(Fr(1, 4)), num(Fr(1, 2))
    half = (a + b).map(lambda v: v * h)
    return cas.power(a.det(), q) * cas.power(b.det(), q) * cas.power(half.det(), num(Fr(-1, 2))) * cas.exp(num(-c) * quad((a + b).inv(), px, py))


def formulas(E, coords):
    def run():
        W = world()
        P = W.load("vsympkf.symbolic.pkfcas")
        f = FnSym("u")(sym("t"), *[sym(c) for c in coords])
        d = len(coords)
        px = [sym(f"p{c}") for c in coords]; py = [sym(f"q{c}") for c in coords]
        C = P.Closure(f); mf = C.mfield
        sq = lambda M: Mat([[M[i, j] for j in range(d)] for i in range(d)])
        def same(name, a, b): E.prove(name, equal(cas.asx(a), b), detail=f"{a} instead of {b}"[:600], backend="differential-algebra normal form")
        same("heterogeneous Gaussian correlation in aspect: textbook formula", C.correlation(px, py), het_gauss(sq(mf.aspect), coords, px, py, Fr(1)))
        same("heterogeneous Gaussian correlation in diffusion: textbook formula", C.correlation_in_diffusion(px, py), het_gauss(sq(mf.diffusion), coords, px, py, Fr(1, 2)))
        L = P.LocGaussianClosure(f); mf = L.mfield
        same("local Gaussian correlation in metric: exp(-(x-y)'g_x(x-y)/2)", L.correlation(px, py), cas.exp(num(Fr(-1, 2)) * quad(shifted(sq(mf.metric), coords, px), px, py)))
        same("local Gaussian correlation in metric: exp(-(x-y)'g_x(x-y)/2)", L.correlation(px, py, metric=True), cas.exp(num(Fr(-1, 2)) * quad(shifted(sq(mf.metric), coords, px), px, py)))
        same("local Gaussian correlation in aspect: exp(-(x-y)'s_x^-1(x-y)/2)", L.correlation(px, py, metric=False), cas.exp(num(Fr(-1, 2)) * quad(shifted(sq(mf.aspect), coords, px).inv(), px, py)))
        for n in ("metric", "aspect", "diffusion"):
            M = getattr(mf, n)
            E.prove("the tensors are symmetric, of one function of the coordinates per pair", all(M[i, j] == M[j, i] for i in range(d) for j in range(d)) and len({M[i, j] for i in range(d) for j in range(i, d)}) == d * (d + 1) // 2
                    and all(M[i, j].single() and M[i, j].single()[0] == "j" and M[i, j].single()[1][1] == ("t",) + tuple(coords) for i in range(d) for j in range(d)), detail=str(M.rows))
    return run


def in_metric(E, coords, N):
    """in_metric_by_order against the contract of closure_by_order for a heterogeneous Gaussian (a callee): order two is -(s^-1)_ij plus
    terms that vanish with the derivatives of s, the others are arbitrary functions of s and of its derivatives"""
    def run():
        W = world()
        P = W.load("vsympkf.symbolic.pkfcas")
        d = len(coords)
        f = FnSym("u")(sym("t"), *[sym(c) for c in coords])
        obj = P.Closure(f); mf = obj.mfield; eps = obj.epsilon
        S = Mat([[mf.aspect[i, j] for j in range(d)] for i in range(d)]); inv = S.inv()
        comps = [mf.aspect[i, j] for i in range(d) for j in range(i, d)]
        ders = [cas.Derivative(c, sym(x)) for c in comps for x in coords]
        table = {}
        for k in range(N + 1):
            table[k] = {}
            for a in mis(d, k):
                n = "".join(map(str, a))
                D = num(0)
                for q, g in enumerate(ders): D = D + FnSym(f"F{n}{q}")(*mf.coordinates) * g + (FnSym(f"G{n}{q}")(*mf.coordinates) * g * g * comps[q % len(comps)] if d < 3 else num(0))
                v = D * cas.inverse(S.det()) if d < 3 else D
                if k == 2:
                    i, j = [p for p, m in enumerate(a) for _ in range(m)]
                    v = v - inv[i, j]
                elif k == 0: v = num(1)
                else:
                    for q, g in enumerate(comps): v = v + FnSym(f"H{n}{q}")(*mf.coordinates) * g * (comps[0] if d < 3 else num(1)) + FnSym(f"K{n}{q}")(*mf.coordinates) * cas.Derivative(g, sym(coords[0]), sym(coords[-1]))
                table[k][term(eps, coords, a)] = v
        store = engine.VDict({k: engine.VDict(v) for k, v in table.items()})
        asked = []
        def by_order(self, order):
            asked.append(order); return store
        C = type("C", (P.Closure,), {"closure_by_order": by_order})
        obj.__class__ = C
        check_metric(E, obj, coords, N, "", eps)
        check_metric(E, obj, coords, N, "again", eps)
    return run


def lemma(E, coords):
    """when the aspect tensor is uniform, the second derivatives of the textbook heterogeneous Gaussian are -(s^-1)_ij"""
    def run():
        W = world()
        P = W.load("vsympkf.symbolic.pkfcas")
        d = len(coords)
        f = FnSym("u")(sym("t"), *[sym(c) for c in coords])
        mf = P.Closure(f).mfield
        K = {(i, j): sym(f"s{min(i, j)}{max(i, j)}") for i in range(d) for j in range(d)}
        S = Mat([[K[i, j] for j in range(d)] for i in range(d)])
        px = [sym(c) for c in coords]; ds = [sym("zz" + c) for c in coords]
        rho = het_gauss(S, coords, px, [x + h for x, h in zip(px, ds)], Fr(1))
        for i in range(d):
            for j in range(d):
                x = cas.subs(cas.d1(cas.d1(rho, ds[i].symbol()), ds[j].symbol()), [(h, num(0)) for h in ds])
                E.prove("the second derivatives of a homogeneous Gaussian correlation are -(s^-1)_ij", equal(x, -S.inv()[i, j]), backend="differential-algebra normal form", detail=str(x)[:300])
    return run


def real_values(coords, metric_cls):
    """derivatives of the textbook correlation, derived by the contract"""
    def of(obj):
        mf = obj.mfield; d = len(coords)
        px = [sym(c) for c in coords]; ds = [sym(f"zz{c}") for c in coords]
        py = [x + h for x, h in zip(px, ds)]
        sq = lambda M: Mat([[M[i, j] for j in range(d)] for i in range(d)])
        rho = het_gauss(sq(mf.aspect), coords, px, py, Fr(1)) if not metric_cls else cas.exp(num(Fr(-1, 2)) * quad(sq(mf.metric), px, py))
        memo = {}
        def value(a):
            if a not in memo:
                x = rho
                for h, n in zip(ds, a):
                    for _ in range(n): x = cas.d1(x, h.symbol())
                    x = cas.subs(x, [(h, num(0))])
                memo[a] = x
            return memo[a]
        return value
    return of


def verify(E):
    E.trusted += ["sympy: contracts of subs, diff, doit, expand, coeff, factorial, determinant and inverse of a matrix, solve, as the model of pyvc/cas.py", "Expectation: its contract (C05), not its body"]
    q = E.tier == "quick"
    for c in (("x",), ("x", "y"), ("y", "x"), ("x", "y", "z"), ("x", "y", "z", "p")):
        E.explore(f"correlations in coordinates {','.join(c)}", formulas(E, c), "Closure.correlation")
    E.functions += ["Closure.correlation_in_diffusion", "LocGaussianClosure.correlation", "Closure.taylor", "Closure.closure"]
    for c, n in ((("x",), 5), (("x", "y"), 4), (("y", "x"), 3), (("x", "y", "z"), 3), (("x", "y", "z", "p"), 2)) if q else ((("x",), 9), (("x", "y"), 6), (("y", "x"), 5), (("x", "y", "z"), 4)):
        E.explore(f"closure of any correlation function in {','.join(c)}, orders up to {n}, any history", histories(E, c, n, "Closure"), "Closure.closure_by_order")
    for c, n in ((("x",), 5), (("x", "y"), 4), (("y", "x"), 3), (("x", "y", "z"), 3)):
        E.explore(f"lemma in {','.join(c)}", lemma(E, c))
        E.explore(f"in the metric, {','.join(c)}, orders up to {n}", in_metric(E, c, n), "Closure.in_metric_by_order")
    for c, n in ((("x",), 4), (("x", "y"), 3), (("x", "y", "z"), 2)) if q else ((("x",), 6), (("x", "y"), 4), (("x", "y", "z"), 3)):
        E.explore(f"local Gaussian in {','.join(c)}, orders up to {n}, any history", histories(E, c, n, "LocGaussianClosure", real_values(c, True), ops=("closure",)), "LocGaussianClosure.correlation")
    for c, n in ((("x",), 3),) if q else ((("x",), 5),):
        E.explore(f"heterogeneous Gaussian in {','.join(c)}, orders up to {n}, any history", histories(E, c, n, "Closure", real_values(c, False), ops=("closure",), metric=tuple(range(2, n + 1))), "Closure.in_metric_by_order")
    E.assumptions += [f"orders and dimensions as listed in the obligations (any correlation function in the second group); histories of any length: all reachable states of the object were visited ({getattr(E, 'states', [])} states)",
                      "solve for the aspect tensor: the unique solution of g = s^-1"]
