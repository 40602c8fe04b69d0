"""Meaning of the statistics of a PKF: normal form of an expression of the model of the algebra, for every random field whose
mean follows the second-order averaged dynamics and whose error follows the tangent-linear dynamics.

Free quantities: the means u, the variances V (any power), the errors e and their spatial derivatives, the opaque operators
along them, and the expectations E[D^a e_f D^b e_h] (for f=h with a,b != 0).  Everything else is defined from them:
  eps = e V^(-1/2),  sigma = V^(1/2),  g_ij = E[D_i eps D_j eps],  V_fh = E[e_f e_h],  E[random field] = u,
  E[e D^a e] = (D^a V - sum_{0<b<a} C(a,b) E[D^b e D^(a-b) e])/2,  E[D^a e] = 0,
  u_t = rhs(u) + E[Q],  e_t = L(e),  V_t = 2 E[e L(e)].
"""
import itertools, math
import cas
from cas import X, Fr, atom, num, sym, jet, mono, power, d1, Unsupported, ONE


class Sem:
    def __init__(self, pkf, rhs, t="t", covariances=True):
        self.pkf = pkf
        self.t = t
        self.fields = list(pkf.fields)
        self.mf = [pkf.fields[f] for f in self.fields]
        self.defs, self.base = {}, {}
        self.memo = {}
        self.X = [c.symbol() for c in self.mf[0].spatial_coordinates]
        self.d = len(self.X)
        self.err, self.var, self.val = [], [], []
        for f, m in zip(self.fields, self.mf):
            self.val.append(f.single()[1]); self.err.append(m.error.single()[1]); self.var.append(m.variance.single()[1])
        # dynamics
        s = sym("__s")
        pairs = [(f, f + s * m.error) for f, m in zip(self.fields, self.mf)]
        self.series = []
        for f in self.fields:
            x = cas.expand_rhs(cas.doit(cas.subs(rhs[f], pairs)), "__s")
            self.series.append([self.coef(x, k) for k in range(3)])
        for f, m in enumerate(self.mf):
            e, V = m.error, m.variance
            self.defs[m.epsilon.single()[1]] = lambda e=e, V=V: e * power(V, num(Fr(-1, 2)))
            self.defs[m.std.single()[1]] = lambda V=V: power(V, num(Fr(1, 2)))
            self.defs[m.random.single()[1]] = lambda f=f, e=e: self.fields[f] + e
            for i in range(self.d):
                for j in range(self.d):
                    self.defs[m.metric[i, j].single()[1]] = lambda i=i, j=j, m=m: self.ec(self.red(cas.Derivative(m.epsilon, sym(self.X[i])) * cas.Derivative(m.epsilon, sym(self.X[j]))))
        if covariances:
            for (f, a), (h, b) in itertools.combinations(enumerate(self.mf), 2):
                c = pkf.get_covariance(self.fields[f], self.fields[h])
                self.defs[c.single()[1]] = lambda a=a, b=b: self.ec(a.error * b.error)

    def coef(self, x, k):
        return X({tuple(p for p in m if p[0] != ("s", "__s")): c for m, c in x.d.items() if dict(m).get(("s", "__s"), 0) == k})

    # canonical derivation
    def dx(self, x, s):
        return self.deriv(x, lambda g: self.dxg(g, s))
    def dxg(self, g, s):
        if g[0] == "E": return self.ec(self.dx(X({g[1]: Fr(1)}), s))
        return cas.dgen(g, s)
    def deriv(self, x, dg):
        out = X()
        for m, c in x.d.items():
            for i, (g, e) in enumerate(m):
                r = dg(g)
                if r.d: out = out + r * X({mono(m[:i] + (((g, e - 1),) if e != 1 else ()) + m[i + 1:]): c * e})
        return out
    def dt(self, x): return self.deriv(x, self.dtg)
    def dtg(self, g):
        if g[0] == "E": return self.ec(self.dt(X({g[1]: Fr(1)})))
        if g[0] == "s": return num(1 if g[1] == self.t else 0)
        if g[0] != "j": raise Unsupported(f"time derivative of {g[:2]}")
        f, idx = g[1], g[2]
        if self.t not in f[1]: return X()
        if f in self.err: r = self.trend_e(self.err.index(f))
        elif f in self.val: r = self.trend_u(self.val.index(f))
        elif f in self.var: r = self.trend_V(self.var.index(f))
        else: return cas.dgen(g, self.t)
        return self.dxs(r, [(s, n) for s, n in zip(f[1], idx)])
    def dxs(self, r, idx):
        for s, n in idx:
            for _ in range(n): r = self.dt(r) if s == self.t else self.dx(r, s)
        return r
    def trend(self, key, make):
        if key not in self.memo: self.memo[key] = make()
        return self.memo[key]
    def trend_e(self, f): return self.trend(("e", f), lambda: self.red(self.series[f][1]))
    def trend_u(self, f): return self.trend(("u", f), lambda: self.red(self.series[f][0]) + self.ec(self.red(self.series[f][2])))
    def trend_V(self, f): return self.trend(("V", f), lambda: self.ec(num(2) * self.mf[f].error * self.trend_e(f)))

    # reduction
    def red(self, x):
        out = X()
        for m, c in x.d.items():
            t = X({ONE: c})
            for g, e in m:
                r = self.redg(g)
                t = t * (power(r, num(e)) if e != 1 else r)
            out = out + t
        return out

    def redg(self, g):
        if g in self.memo: return self.memo[g]
        self.memo[g] = r = self.redg_(g)
        return r
    def redg_(self, g):
        if g[0] == "j":
            f, idx = g[1], list(zip(g[1][1], g[2]))
            nt = sum(n for s, n in idx if s == self.t)
            if f in self.defs:
                r = self.defs[f]()
                return self.dxs(r, [p for p in idx if p[0] != self.t] + [(self.t, nt)])
            if f in self.err or f in self.var or f in self.val:
                r = jet(f, ())
                return self.dxs(r, [p for p in idx if p[0] != self.t] + [(self.t, nt)])
            return atom(g)
        if g[0] == "E": return self.ec(self.red(X({g[1]: Fr(1)})))
        if g[0] == "D":
            r = self.red(g[1])
            return self.dxs(r, [p for p in g[2] if p[0] != self.t] + [p for p in g[2] if p[0] == self.t])
        if g[0] == "T":
            if g[1] in ("rhs", "L", "Q"):
                n = len(self.fields)
                k = 4 if g[1] == "L" else 3
                if [self.red(a) for a in g[k:k + n]] != self.fields: raise Unsupported("opaque operator at another state than the mean")
                coords = (self.t,) + tuple(self.X)
                if g[1] == "rhs": return jet((f"N0_{g[2]}", coords), ())
                if g[1] == "L":
                    if self.red(g[-1]) != self.mf[g[3]].error: raise Unsupported(f"opaque linear operator along {g[-1]}")
                    return jet((f"L_{g[2]}{g[3]}", coords + ("omega",)), ())
                if [self.red(b) for b in g[3 + n:]] != [m.error for m in self.mf]: raise Unsupported("opaque quadratic operator")
                return jet((f"Q_{g[2]}", coords + ("omega",)), ())
            if g[1] == "Eraw": return self.ec(self.red(g[2]))
            return cas.rebuild(g, [self.red(v) if isinstance(v, X) else v for v in g[2:]])
        return atom(g)

    def degree(self, g):
        if g[0] != "j": raise Unsupported(f"expectation of {g[:2]}")
        if g[1] in self.err or g[1][0].startswith("L_"): return 1
        if g[1][0].startswith("Q_"): return 2
        return 1 if g[1] not in self.defs else 99

    def ec(self, x):
        out = X()
        for m, c in x.d.items():
            det = tuple(p for p in m if not cas.is_random(p[0]))
            ran = tuple(p for p in m if cas.is_random(p[0]))
            if not ran: out = out + X({det: c}); continue
            deg = sum(self.degree(g) * e for g, e in ran)
            if deg == 1: continue
            r = self.pair(ran) if deg == 2 and all(g[1] in self.err for g, _ in ran) else None
            out = out + X({det: c}) * (r if r is not None else atom(("E", ran)))
        return out

    def pair(self, ran):
        gs = [g for g, e in ran for _ in range(int(e))]
        (a, b) = gs
        if a[1] != b[1]: return None
        if sum(a[2]) and sum(b[2]): return None
        if sum(a[2]): a, b = b, a
        idx = b[2]
        V = self.var[self.err.index(a[1])]
        if not sum(idx): return jet(V, ())
        vidx = tuple(n for s, n in zip(a[1][1], idx) if s in V[1])
        out = jet(V, vidx)
        for k in itertools.product(*[range(n + 1) for n in idx]):
            if not any(k) or k == idx: continue
            cf = math.prod(math.comb(n, q) for n, q in zip(idx, k))
            out = out - num(cf) * self.ec(jet(a[1], k) * jet(a[1], tuple(n - q for n, q in zip(idx, k))))
        return out * num(Fr(1, 2))


def equal(a, b):
    """identity of two expressions, denominators (determinants) cleared"""
    return not cas.norm_num(clear(a - b)).d


def clear(x):
    for _ in range(20):
        negs = {}
        for m in x.d:
            for g, e in m:
                if g[0] == "T" and g[1] == "sum": negs[g] = min(negs.get(g, 0), e)
        if not negs: return x
        g = min(negs, key=cas.rank)
        if any(Fr(e).denominator != 1 for m in x.d for h, e in m if h == g):
            # separate the classes of exponents modulo 1
            classes = {}
            for m, c in x.d.items():
                e = dict(m).get(g, Fr(0)); classes.setdefault(Fr(e) % 1, {})[m] = c
            out = X()
            for k, d in classes.items():
                y = cas.norm_num(clear(X({mono(m + ((g, -k),)): c for m, c in d.items()})))
                if y.d: return y
            return X()
        k = negs[g]
        out = X()
        for m, c in x.d.items():
            e = dict(m).get(g, 0)
            out = out + X({tuple(p for p in m if p[0] != g): c}) * power(g[2], num(e - k))
        x = out
    raise Unsupported("denominators")
