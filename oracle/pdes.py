"""Generator of PDE systems (sympy) and of their random-field interpretation by jets."""
import numpy as np
import sympy
from sympy import Function, Derivative, symbols, Integer, Rational, Eq, exp, sin, sqrt, cos
from jets import Space, Interp, need

omega = sympy.Symbol('omega')
t = sympy.Symbol('t')


def coords_of(dim, rng=None):
    names = {1: ['x'], 2: ['x', 'y'], 3: ['x', 'y', 'z']}[dim]
    return [sympy.Symbol(n) for n in names]


def lat_wind(lon, lat):
    return Function('w')(lon, lat)


def curated():
    """name -> builder() giving list of equations; covers the shapes of the derivation"""
    x, y, z = symbols('x y z')
    k, c = symbols('kappa c')
    u = Function('u')(t, x); v = Function('v')(t, x); w = Function('w')(t, x)
    a = Function('a')(x); b = Function('b')(t, x)
    U = Function('U')(t, x, y); V = Function('V')(t, x, y)
    p = Function('p')(x, y); q = Function('q')(x, y)
    D = Derivative
    lon, lat = symbols('lon lat')
    G = Function('G')(t, lon, lat)
    H = Function('H')(t, y, x)
    return {
        "lonlat": [Eq(D(G, t), -c * D(G, lon) - lat_wind(lon, lat) * D(G, lat))],
        "yx": [Eq(D(H, t), c * D(H, x, y) - D(H, x))],
        "burgers": [Eq(D(u, t), -u * D(u, x) + k * D(u, x, 2))],
        "advection": [Eq(D(u, t), -a * D(u, x) - c * u)],
        "advection_diffusion_var": [Eq(D(u, t), -b * D(u, x) + D(a, x) * D(u, x) + a * D(u, x, 2))],
        "kpz": [Eq(D(u, t), k * D(u, x, 2) + D(u, x) ** 2 / 2)],
        "kdv": [Eq(D(u, t), -u * D(u, x) - D(u, x, 3))],
        "ks": [Eq(D(u, t), -u * D(u, x) - k * D(u, x, 4))],
        "logistic": [Eq(D(u, t), c * u * (1 - u ** 2) + k * D(u, x, 2))],
        "rational": [Eq(D(u, t), c / u - D(u, x))],
        "nonlinear_diffusion": [Eq(D(u, t), u * D(u, x, 2) + D(u, x) ** 2)],
        "reaction_exp": [Eq(D(u, t), c * exp(-u))],
        "shallow": [Eq(D(u, t), -u * D(u, x) - c * D(v, x)), Eq(D(v, t), -u * D(v, x) - v * D(u, x))],
        "lotka": [Eq(D(u, t), u * v - c * u), Eq(D(v, t), -u * v + k * D(v, x, 2))],
        "wave": [Eq(D(u, t), v), Eq(D(v, t), c ** 2 * D(u, x, 2))],
        "three": [Eq(D(u, t), -w * D(u, x)), Eq(D(v, t), u * w), Eq(D(w, t), c * u - v)],
        "advection2d": [Eq(D(U, t), -p * D(U, x) - q * D(U, y))],
        "burgers2d": [Eq(D(U, t), -U * D(U, x) - c * U * D(U, y))],
        "mixed2d": [Eq(D(U, t), c * D(U, x, y))],
        "reaction2d": [Eq(D(U, t), U * V - k * U), Eq(D(V, t), -D(V, y))],
    }


def random_1d(rng, nf=None):
    x = sympy.Symbol('x')
    nf = nf or rng.choice([1, 1, 1, 2])
    names = rng.sample(rng.choice([['u', 'v', 'h', 'q', '\\theta', 'T'], ['h1', 'h2', 'h'], ['v', 'v1', 'va']]), nf)
    F = [Function(n)(t, x) for n in names]
    consts = [sympy.Symbol(n) for n in ('c', '\\kappa')]
    A = Function('a')(x)
    eqs = []
    for f in F:
        rhs = 0
        for _ in range(rng.choice([1, 2, 2])):
            term = Rational(rng.choice([-2, -1, 1, 3]), rng.choice([1, 2]))
            if rng.random() < .4: term *= rng.choice(consts)
            if rng.random() < .2: term *= A
            for _ in range(rng.choice([1, 2, 2, 3]) if nf == 1 else rng.choice([1, 2])):
                g = rng.choice(F)
                term *= rng.choice([g, g, Derivative(g, x), Derivative(g, x), Derivative(g, x, 2)] if nf == 1 else [g, g, Derivative(g, x)])
            rhs += term
        if rhs == 0: rhs = f
        eqs.append(Eq(Derivative(f, t), rhs))
    return eqs


class World:
    """random interpretation of a PKF: mean, tangent-linear error, statistics"""

    def __init__(self, pkf, eqs, E, seed, N, K=3):
        fields = list(pkf.fields)
        X = list(fields[0].args[1:])
        nr = np.random.RandomState(seed)
        self.X, self.fields = X, fields
        d = len(X)
        W = 2 * K
        base = [0.] + list(nr.uniform(0.1, 0.4, d))
        fs = {}
        for e in eqs:
            fs.update({f: None for f in e.atoms(sympy.core.function.AppliedUndef)})
        others = sorted([f for f in fs if f not in fields], key=str)
        consts = sorted(set().union(*[e.free_symbols for e in eqs]) - {t} - set(X), key=str)
        self.symbols = {s: float(v) for s, v in zip(consts, nr.uniform(0.4, 1.3, len(consts)))}

        def rnd(shape_, lead, amp=1., c0=None):
            deg = np.indices(shape_).sum(axis=0)
            fact = np.array([[1.]])
            c = nr.uniform(-amp, amp, size=(lead,) + shape_) / (1.35 ** deg)
            if c0 is not None: c[(slice(None),) + (0,) * len(shape_)] = c0
            return c
        spx = (N + 1,) * d
        mean0 = {f: rnd(spx, 1, 1., nr.uniform(.8, 1.5)) for f in fields}
        err0 = {}
        for f in fields:
            phi = rnd(spx, K, .6)
            phi[(slice(None),) + (0,) * d] += nr.uniform(.3, .6, K) * nr.choice([-1, 1], K)
            err0[f] = np.sqrt(K) * np.concatenate([phi, -phi], axis=0)
        oth = {f: rnd(spx, 1, .8, nr.uniform(.5, 1.2)) for f in others}
        # a field may depend on fewer coordinates
        for f in others:
            for k, xi in enumerate(X):
                if xi not in f.args:
                    idx = [slice(None)] * (d + 1); idx[k + 1] = slice(1, None)
                    oth[f][tuple(idx)] = 0.
        # --- eta-space: F(mean + eta*err)
        eta = sympy.Symbol('__eta')
        se = Space([eta] + X, (2,) + (N,) * d, base, W)
        ov = {}
        for f in fields:
            c = np.zeros((W, 3) + spx)
            c[:, 0] = mean0[f]; c[:, 1] = err0[f]
            ov[f] = c
        for f in others:
            c = np.zeros((1, 3) + spx); c[:, 0] = oth[f]; ov[f] = c
        ie = Interp(se, {}, {**self.symbols, t: 0.}, E, ov)
        self.space = s = Space([t] + X, (1,) + (N,) * d, base, W)
        self.ov = {}
        self.mean, self.err, self.eps, self.V, self.g = {}, {}, {}, {}, {}
        for f, e in zip(fields, eqs):
            r = ie.den(e.args[1])
            if r.shape[0] == 1: r = np.repeat(r, W, axis=0)
            m = np.zeros((1, 2) + spx); er = np.zeros((W, 2) + spx)
            m[:, 0] = mean0[f]; m[:, 1] = (r[:, 0] + r[:, 2]).mean(axis=0, keepdims=True)
            er[:, 0] = err0[f]; er[:, 1] = r[:, 1]
            self.mean[f], self.err[f] = m, er
        self.E = E
        for f in others:
            c = np.zeros((1, 2) + spx); c[:, 0] = oth[f]
            if t in f.args: c[:, 1] = rnd(spx, 1, .5)
            self.ov[f] = c
        for f in fields:
            mf = pkf.fields[f]
            V = s.mean(s.mul(self.err[f], self.err[f]))
            sd = s.pow(V, .5)
            ep = s.mul(self.err[f], s.pow(V, -.5))
            D = [s.diff(ep, k + 1) for k in range(d)]
            g = [[s.mean(s.mul(D[i], D[j])) for j in range(d)] for i in range(d)]
            ginv = self.inv(g) if d < 4 else None        # (beyond, the systems without the inverse of the metric only)
            self.V[f], self.eps[f], self.g[f] = V, ep, g
            self.ov.update({f: self.mean[f], mf.random: self.mean[f] + self.err[f], mf.error: self.err[f],
                            mf.epsilon: ep, mf.variance: V, mf.std: sd})
            for i in range(d):
                for j in range(d):
                    self.ov[mf.metric[i, j]] = g[i][j]
                    if ginv is None: continue
                    self.ov[mf.aspect[i, j]] = ginv[i][j]
                    self.ov[mf.diffusion[i, j]] = .5 * ginv[i][j]
        for i, f in enumerate(fields):
            for h in fields[i + 1:]:
                self.ov[pkf.get_covariance(f, h)] = s.mean(s.mul(self.err[f], self.err[h]))
        self.interp = Interp(s, {}, self.symbols, E, self.ov)

    def inv(self, g):
        s, d = self.space, len(g)
        mul = s.mul
        if d == 1: return [[s.pow(g[0][0], -1)]]
        if d == 2:
            det = mul(g[0][0], g[1][1]) - mul(g[0][1], g[1][0]); r = s.pow(det, -1)
            return [[mul(g[1][1], r), -mul(g[0][1], r)], [-mul(g[1][0], r), mul(g[0][0], r)]]
        cof = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                a, b = [k for k in range(3) if k != i]; c_, d_ = [k for k in range(3) if k != j]
                m = mul(g[a][c_], g[b][d_]) - mul(g[a][d_], g[b][c_])
                cof[i][j] = m if (i + j) % 2 == 0 else -m
        det = mul(g[0][0], cof[0][0]) + mul(g[0][1], cof[0][1]) + mul(g[0][2], cof[0][2]); r = s.pow(det, -1)
        return [[mul(cof[j][i], r) for j in range(3)] for i in range(3)]

    def residual(self, eq):
        """(max |lhs-rhs| over outcomes, scale)"""
        I = self.interp
        l, r = eq if isinstance(eq, tuple) else eq.args
        a, b = I.s.val(I.den(l)), I.s.val(I.den(r))
        return float(np.max(np.abs(a - b))), max(I.scale(r), float(np.max(np.abs(a))), 1e-12)


def order_of(eqs, X):
    n = 0
    for e in eqs:
        for D in e.args[1].atoms(Derivative):
            n = max(n, sum(int(k) for v, k in D.variable_count))
    return n


def needed(systems, E, X, eqs):
    n = order_of(eqs, X) + 3
    for sysm in systems:
        for eq in sysm or []:
            m = need(eq.args[1], E, X)
            n = max(n, max(m.values()))
    return n + 1
