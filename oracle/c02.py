from common import *
import numpy as np
from c01 import rand_trend, SPEC


def rand_window(rng, n=None):
    n = rng.randrange(1, 9) if n is None else n
    kind = rng.choice(["regular", "irregular", "decreasing", "ints", "list", "model", "jitter", "stretched"])
    t0 = rng.choice([0., rng.uniform(-2, 2)])
    if kind == "regular":
        w = t0 + 0.125 * np.arange(n)
    elif kind == "model":
        w = np.arange(t0, t0 + (n - 1) * 0.1 + 0.1 / 3, 0.1)
    elif kind == "jitter":         # almost regular
        w = t0 + 0.125 * np.arange(n) + 1e-7 * np.array([rng.uniform(-1, 1) for _ in range(n)])
    elif kind == "stretched":      # regular but for one step
        w = t0 + 0.125 * np.arange(n)
        w[rng.randrange(n):] += rng.choice([.05, 1e-4])
    elif kind == "ints":
        w = [int(3 + 2 * k) for k in range(n)]
    else:
        steps = [rng.uniform(0.01, 0.4) for _ in range(n)]
        w = np.array([t0 + sum(steps[:k]) for k in range(n)])
        if kind == "decreasing": w = w[::-1].copy()
        if kind == "list": w = [float(x) for x in w]
    return kind, w


def rand_saved(rng, w):
    kind = rng.choice(["none", "all", "subset", "subset", "outside", "scalar", "npscalar", "empty", "last", "first", "shuffled"])
    ts = list(w)
    if kind == "none": return kind, None, list(ts)
    if kind == "all": return kind, list(ts), list(ts)
    if kind == "empty": return kind, [], []
    if kind == "last": return kind, [ts[-1]], [ts[-1]]
    if kind == "first": return kind, [ts[0]], [ts[0]]
    if kind in ("scalar", "npscalar"):
        k = rng.randrange(len(ts))
        v = float(ts[k]) if kind == "scalar" else np.float64(ts[k])
        return kind, v, [ts[k]]
    sub = [x for x in ts if rng.random() < 0.5]
    if kind == "outside":
        s = sub + [max(ts) + 1.234, min(ts) - 7.7]
        if rng.random() < .4: s += [q for q in (x + rng.choice([1e-10, -1e-12, 2e-15]) for x in ts[:2] if x not in sub) if q not in ts]
    else:
        s = list(sub)
    if kind == "shuffled": rng.shuffle(s)
    c = rng.choice(["list", "tuple", "array", "set"])
    if c == "tuple": s = tuple(s)
    elif c == "set": s = set(s)
    elif c == "array": s = np.array(s, dtype=float) if s else s
    return kind + "/" + c, s, sub


def run_all(run):
    from sympkf.model.model import Model

    def build(rng):
        scheme = rng.choice(["euler", "rk2", "rk4", "leapfrog", "splitting"])
        tk, f = rand_trend(rng)
        class M(Model):
            _dt = 0.1
            def trend(self, t, state): return f(t, state)
        m = M(time_scheme=scheme)
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        shape = rng.choice([(3,), (2, 2), (1, 4)])
        x = nr.uniform(-0.5, 0.5, size=shape)
        if scheme == "splitting":
            _, g = rand_trend(rng)
            k = rng.random()
            if k < .25: m.trend = []                                            # returns the state itself
            elif k < .5: m.trend = [{"update": lambda t, x, dt: x if t < 0.3 else x + dt * t}]
            else: m.trend = [{"trend": f, "scheme": m.time_schemes["rk2"]}, {"update": lambda t, x, dt: x + dt * (x + t)},
                       {"trend": lambda t, x: -x + t, "scheme": m.time_schemes["euler"]}]
        u0 = [x, x + 0.1] if scheme == "leapfrog" else x
        return scheme, tk, m, u0

    def cp(u):
        return [np.array(a, copy=True) for a in u] if isinstance(u, (list, tuple)) else np.array(u, copy=True)

    def reference(m, w, u0):
        out, u = [], u0
        for k in range(len(w)):
            out.append(cp(u))
            if k + 1 < len(w):
                u = m.time_scheme(m.trend, w[k], u, w[k + 1] - w[k])
            with np.errstate(all="ignore"):
                if not np.all(np.abs(np.asarray(out[-1])) < 1e3): raise Skip()   # unstable integration
        return out

    def one(rng, chk):
        scheme, tk, m, u0 = build(rng)
        wk, w = rand_window(rng)
        sk, s, inside = rand_saved(rng, w)
        if scheme != "leapfrog" and rng.random() < .1: u0 = np.rint(4 * u0).astype(int) if scheme != "splitting" else np.rint(4 * u0).astype(np.float32)
        u_before = cp(u0)
        w_before = list(w)
        s_before = None if s is None else (list(s) if not isinstance(s, (float, np.floating)) else s)
        ref = reference(m, w, u0)
        desc = f"{scheme}, {tk} trend, {wk} window of {len(w)}, saved {sk}"
        traj = m.forecast(w, u0) if s is None and rng.random() < .5 else m.forecast(w, u0, s)
        chk.true(isinstance(traj, dict), "forecast does not return a dictionary")
        chk.true(sorted(traj) == sorted(inside) and len(traj) == len(inside), "forecast: wrong saved times",
                 got=list(traj), want=inside, case=desc)
        for k, t in enumerate(w):
            if t in inside:
                chk.close(traj[t], ref[k], f"forecast: wrong state at step {k}", rtol=1e-10, case=desc, window=list(w))
        chk.close(u0, u_before, "forecast modified the initial state", rtol=0, atol=0, case=desc)
        chk.true(list(w) == w_before, "forecast modified the window")
        if s is not None and not isinstance(s, (float, np.floating)):
            chk.true(list(s) == s_before, "forecast modified the saved times")
        arr = m.predict(w, u0) if s is None and rng.random() < .5 else m.predict(w, u0, s)
        want = [ref[k] for k, t in enumerate(w) if t in inside]
        chk.true(isinstance(arr, np.ndarray), "predict does not return an array")
        chk.equal(len(arr), len(want), "predict: wrong number of states", case=desc)
        if want: chk.close(arr, np.array(want), "predict: wrong states", rtol=1e-10, case=desc, window=list(w))
        chk.close(u0, u_before, "predict modified the initial state", rtol=0, atol=0, case=desc)
        # a second, full forecast: same values on the common times, and the first results are still intact
        full = m.forecast(w, u0)
        for k, t in enumerate(w):
            chk.close(full[t], ref[k], f"forecast with every time: wrong state at step {k}", rtol=1e-10, case=desc)
            if t in inside: chk.close(traj[t], full[t], "saved times influence the values", rtol=1e-12, case=desc)
        return desc

    def restart(rng, chk):
        """flow property: integrating over two windows = integrating over their union"""
        scheme, tk, m, u0 = build(rng)
        _, w = rand_window(rng, 7)
        k = rng.randrange(1, 6)
        full = m.forecast(w, u0)
        with np.errstate(all="ignore"):
            if not all(np.all(np.abs(np.asarray(v)) < 1e3) for v in full.values()): raise Skip()
        a = m.forecast(w[:k + 1], u0, [w[k]])
        b = m.forecast(w[k:], a[w[k]])
        for t in w[k:]:
            chk.close(b[t], full[t], "restart differs from the full integration", rtol=1e-10, scheme=scheme)
        return f"restart {scheme} {tk} at {k}"

    for k in range(run.n(5000, 40000)):
        run.case("forecast", k, one)
    def long(rng, chk):
        """many steps"""
        scheme, tk, m, u0 = build(rng)
        wk, w = rand_window(rng, rng.choice([33, 70, 130]))
        ref = reference(m, w, u0)
        s = rng.choice([None, [w[-1]], list(w[::7]), list(w[-3:])])
        traj = m.forecast(w, u0, s)
        inside = list(w) if s is None else s
        chk.true(sorted(traj) == sorted(inside), "forecast: wrong saved times", case=f"{wk} window of {len(w)}")
        for k, t in enumerate(w):
            if t in inside: chk.close(traj[t], ref[k], f"forecast: wrong state at step {k}", rtol=1e-9, case=f"{scheme} {wk} window of {len(w)}")
        chk.close(m.predict(w, u0, s), np.array([ref[k] for k, t in enumerate(w) if t in inside]), "predict: wrong states", rtol=1e-9)
        return f"{scheme} {tk} {wk} window of {len(w)}"

    for k in range(run.n(60, 600)):
        run.case("long", k, long)
    for k in range(run.n(600, 5000)):
        run.case("restart", k, restart)


if __name__ == "__main__":
    main("C02", run_all)
