from common import *
import numpy as np
from c02 import rand_window


def mkclass():
    from sympkf.model.model import Model, LinearModel
    g = globals()
    class Nonlin(Model):
        _dt = 0.1
        def __init__(self, a, scheme):
            super().__init__(time_scheme=scheme)
            self.a = a
        def trend(self, t, x):
            return self.a[0] * x * np.roll(x, 1) + self.a[1] * np.sin(x + t) + self.a[2] * t
    class Lin(LinearModel):
        _dt = 0.1
        def __init__(self, A, scheme):
            super().__init__(time_scheme=scheme)
            self.A, self.n = A, A.shape[0]
        def trend(self, t, x):
            return (self.A * (1 + t)) @ x
    for c in (Nonlin, Lin):
        c.__module__, c.__qualname__ = __name__, c.__name__
        g[c.__name__] = c


def pick_saved(rng, w):
    kind = rng.choice(["none", "subset", "last", "scalar", "shuffled"])
    ts = [float(t) for t in w]
    if kind == "none": return kind, None, ts
    if kind == "last": return kind, [ts[-1]], [ts[-1]]
    if kind == "scalar":
        t = rng.choice(ts); return kind, t, [t]
    sub = [t for t in ts if rng.random() < .6] or [ts[0]]
    s = list(sub)
    if kind == "shuffled": rng.shuffle(s)
    return kind, s, sub


def run_all(run):
    mkclass()

    def setup(rng):
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        m = Nonlin(nr.uniform(-1, 1, 3), rng.choice(["euler", "rk2", "rk4"]))
        _, w = rand_window(rng, rng.randrange(1, 6))
        return nr, m, np.asarray(w, dtype=float)

    def ensemble(rng, chk, parallel, wide=False):
        nr, m, w = setup(rng)
        kind, s, inside = pick_saved(rng, w)
        N = rng.choice([0, 1, 2, 3, 5, 11, 19] if parallel or rng.random() < .9 else [33, 64, 101])
        if wide or rng.random() < .05: N = rng.choice([320, 400, 600] if wide else [150, 400])
        X = [nr.uniform(-1, 1, 4) for _ in range(N)]
        for i in range(N):
            r = rng.random()
            if r < .05: X[i] = np.zeros(4)
            elif r < .1 and i: X[i] = X[i - 1]                # the same member twice
            elif r < .2 and i: X[i] = X[i - 1] * (1 + 10. ** -rng.randrange(5, 9))     # nearly the same
        X0 = [x.copy() for x in X]
        pool = rng.choice([1, 2, 3])
        ref = [m.forecast(w, x) for x in X]
        if not all(np.all(np.abs(v) < 1e6) for r in ref for v in r.values()): raise Skip()      # unstable integration
        states = rng.choice(["list", "gen", "array"])
        arg = X if states == "list" else (x for x in X) if states == "gen" else (np.array(X) if X else X)
        kw = dict(parallel=parallel)
        if parallel: kw["nb_pool"] = pool
        out = m.ensemble_forecast(w, arg, s, **kw) if s is not None else m.ensemble_forecast(w, arg, **kw)
        desc = f"ensemble of {N} ({states}), saved {kind}, parallel={parallel}, pool={pool}"
        chk.true(sorted(out) == sorted(inside), "ensemble: wrong times", got=list(out), want=inside, case=desc)
        for t in inside:
            chk.equal(len(out[t]), N, f"ensemble: wrong number of members at {t}", case=desc)
            for i in range(N):
                chk.close(out[t][i], ref[i][t], f"ensemble: member {i} at {t} is not its own forecast", rtol=1e-10, case=desc)
        for a, b in zip(X, X0): chk.true(np.array_equal(a, b), "ensemble modified a member", case=desc)
        return desc

    def tl(rng, chk):
        nr, m, w = setup(rng)
        kind, s, inside = pick_saved(rng, w)
        x = nr.uniform(-1, 1, 4)
        P = [nr.uniform(-1, 1, 4) for _ in range(rng.choice([1, 2, 4, 9] if rng.random() < .95 else [40]))]
        for i in range(len(P)):
            r = rng.random()
            if r < .1: P[i] = np.zeros(4)
            elif r < .2 and i: P[i] = P[i - 1]
            elif r < .3: P[i] = np.eye(4)[i % 4]
        x0, P0 = x.copy(), [p.copy() for p in P]
        h = rng.choice([None, 1e-2, 0.5, 1e-3, -0.25, 1e-6, 1e-9, 2., 1e-5, -1e-8])
        kw = {} if h is None else {"h": h}
        hh = 1e-4 if h is None else h
        fc, out = m.forecast_tl(w, x, P, s, **kw) if s is not None else m.forecast_tl(w, x, P, **kw)
        ref = m.forecast(w, x)
        if not all(np.all(np.abs(v) < 1e3) for v in ref.values()): raise Skip()
        desc = f"forecast_tl with {len(P)} perturbations, saved {kind}, h={hh}"
        chk.true(sorted(fc) == sorted(inside), "forecast_tl: wrong times of the reference", case=desc)
        chk.true(sorted(out) == sorted(inside), "forecast_tl: wrong times", case=desc)
        for t in inside:
            chk.close(fc[t], ref[t], "forecast_tl: wrong reference", rtol=1e-10, case=desc)
            chk.equal(len(out[t]), len(P), "forecast_tl: wrong number of perturbations", case=desc)
        for i, p in enumerate(P0):
            fp = m.forecast(w, x0 + hh * p)
            if not all(np.all(np.abs(v) < 1e3) for v in fp.values()): raise Skip()
            for t in inside:
                chk.close(out[t][i], (fp[t] - ref[t]) / hh, f"forecast_tl: perturbation {i} at {t}", rtol=1e-6, atol=1e-14 / abs(hh) + 1e-9, case=desc)
        chk.true(np.array_equal(x, x0) and all(np.array_equal(a, b) for a, b in zip(P, P0)), "forecast_tl modified its inputs")
        return desc

    def resolvent(rng, chk):
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        n = rng.choice([1, 2, 3, 5, 12])
        A = nr.uniform(-1, 1, (n, n))
        r = rng.random()
        if r < .15: A = A - A.T                                    # rotations
        elif r < .25: A = np.triu(A)
        elif r < .3: A = A + A.T
        elif r < .35: A = np.diag(np.diag(A))
        elif r < .4: A = np.zeros((n, n)); A[0, -1] = 1.
        m = Lin(A, rng.choice(["euler", "rk2", "rk4"]))
        _, w = rand_window(rng, rng.choice([1, 2, 3, 4, 5, 9, 17, 40]))
        w = np.asarray(w, dtype=float)
        x = np.ones(n)
        if not np.all(np.abs(m.forecast(w, x)[w[-1]]) < 1e6): raise Skip()
        M = m.make_M(w)
        chk.equal(np.shape(M), (n, n), "make_M: shape")
        for _ in range(3):
            x = nr.uniform(-1, 1, n)
            chk.close(M @ x, m.forecast(w, x)[w[-1]], "make_M(window) @ x is not the forecast of x", rtol=1e-9, n=n)
        return f"resolvent n={n}, window of {len(w)}"

    for k in range(run.n(1500, 8000)):
        run.case("serial", k, lambda r, c: ensemble(r, c, False))
    for k in range(run.n(60, 600)):
        run.case("parallel", k, lambda r, c, k=k: ensemble(r, c, True, k % 12 == 5))
    for k in range(run.n(60, 600)):
        run.case("tl", k, tl)
    for k in range(run.n(100, 1000)):
        run.case("resolvent", k, resolvent)


if __name__ == "__main__":
    main("C03", run_all)
