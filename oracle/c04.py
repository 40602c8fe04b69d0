from common import *
import numpy as np
from fractions import Fraction
from c01 import SPEC


def run_all(run):
    from sympkf.model.model import Model, IdentityModel

    def mk(dt, scheme=None):
        class M(Model):
            if dt is not None: _dt = dt                 # (no time step is needed to select a scheme)
            def trend(self, t, x): return x * x + t
        return M() if scheme is None else M(time_scheme=scheme)

    def history(rng, chk):
        """several models of one class: windows and selections belong to each model, the step may change, results are not shared"""
        class M(Model):
            def trend(self, t, x): return x * x + t
        names = ["euler", "rk2", "rk4"]
        ms, cur = [], []
        for _ in range(rng.randrange(1, 4)):
            cur.append([rng.choice(names), None]); ms.append(M(time_scheme=cur[-1][0]))
        ends = [(1., 0.), (2., 0.), (1.5, -1.), (0., -2.)]
        x = np.array([.2, -.4, .1])
        log = []
        for _ in range(rng.randrange(2, 9)):
            k = rng.randrange(len(ms))
            a = rng.random()
            if a < .45 or cur[k][1] is None:
                cur[k][1] = rng.choice([.1, .25, .5, 1.]); ms[k].set_dt(cur[k][1]); log.append((k, "dt", cur[k][1]))
            elif a < .7:
                cur[k][0] = rng.choice(names); ms[k].set_time_scheme(cur[k][0]); log.append((k, cur[k][0]))
            for i, m in enumerate(ms):
                if cur[i][1] is None: continue
                dt, (end, start) = cur[i][1], rng.choice(ends)
                n = int(np.ceil((end + dt / 3 - start) / dt - 1e-9))
                w = m.window(end, start)
                log.append((i, "window", end, start))
                chk.equal(len(w), n, "window: wrong number of times", history=log)
                chk.close(w, [start + j * dt for j in range(n)], "window: wrong times", rtol=1e-12, history=log)
                if rng.random() < .5: w += 17.            # the caller's array
                chk.close(m.time_scheme(m.trend, .3, x, dt), SPEC[cur[i][0]](m.trend, .3, x, dt), "selected scheme is not the one used", history=log)
                f = m.forecast([.3, .3 + dt], x)[.3 + dt]
                chk.close(f, SPEC[cur[i][0]](m.trend, .3, x, .3 + dt - .3), "forecast does not use the selected scheme", history=log)
        return f"history {log}"

    def whole(rng, chk):
        dt = rng.choice([0.1, 1., 0.25, 1 / 3, 1e-3, rng.uniform(1e-3, 2), 7.])
        start = rng.choice([0., 0., 1., -2.5, rng.uniform(-5, 5), 100.])
        n = rng.choice([0, 1, 2, 3, 7, 10, 49, 100, 333])
        how = rng.choice(["init", "set"])
        m = mk(dt) if how == "init" else mk(99.)
        if how == "set": m.set_dt(dt)
        chk.equal(m.dt, dt, "dt")
        end = start + n * dt
        w = m.window(end) if start == 0. and rng.random() < .7 else m.window(end, start)
        desc = f"dt={dt}, start={start}, n={n}"
        chk.equal(len(w), n + 1, "window: wrong number of times", case=desc)
        chk.close(w, [start + k * dt for k in range(n + 1)], "window: wrong times", rtol=1e-12, case=desc)
        chk.true(abs(w[-1] - end) < 1e-6 * dt + 1e-9, "window does not end at the end time", case=desc)
        chk.true(w[0] == start, "window does not start at the start time", case=desc)
        chk.equal(m.dt, dt, "window changed dt")
        return "whole " + desc

    def partial(rng, chk):
        dt = rng.choice([0.1, 1., 0.25, 2., rng.uniform(0.01, 2)])
        start = rng.choice([0., 1., -2.5, rng.uniform(-5, 5)])
        n = rng.randrange(0, 40)
        frac = rng.choice([0.1, 0.2, 0.3, 0.32, 0.35, 0.4, 0.5, 0.6, 0.65, 0.69, 0.7, 0.9])
        end = start + (n + frac) * dt
        w = mk(dt).window(end, start)
        # times start+k*dt < end + dt/3
        cnt = n + 1 + (1 if frac + 1 / 3 > 1 else 0)
        desc = f"dt={dt}, start={start}, end=start+{n + frac}*dt"
        chk.equal(len(w), cnt, "window: wrong number of times", case=desc)
        chk.close(w, [start + k * dt for k in range(cnt)], "window: wrong times", rtol=1e-12, case=desc)
        return "partial " + desc

    def empty(rng, chk):
        dt = rng.choice([.1, 1., .5, 3])
        m = mk(dt)
        w = m.window(-1., 0.) if dt != 3 else m.window(-1.5, 0)
        chk.equal(len(w), 0, "window with end before start")
        for start in (0., 2., -5, 1): 
            for f in (.34, .4, .5, 1., 1.2, 1.4, 3.1): chk.equal(len(m.window(start - f * dt, start)), 0, "window with end before start", start=start, dt=dt, end=start - f * dt)
            chk.equal(len(m.window(start - .3 * dt, start)), 1, "window with end just before start", start=start, dt=dt)
            for f in (1.4, 2.4, 2.6, 2.7): chk.equal(len(m.window(start + f * dt, start)), {1.4: 2, 2.4: 3, 2.6: 3, 2.7: 4}[f], "window", start=start, dt=dt, f=f)
        return f"empty {dt}"

    def schemes(rng, chk):
        names = ["euler", "rk2", "rk4"]
        first = rng.choice(names + [None])
        m = mk(rng.choice([.1, None]), first)
        cur = first or "rk4"
        hist = [cur]
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        for _ in range(rng.randrange(1, 8)):
            a = rng.random()
            if a < .5:
                cur = rng.choice(names)
                m.set_time_scheme(cur)
                hist.append(cur)
            elif a < .75:
                inner = [n.lstrip("_") for n in dir(m)] + [n for n in dir(m)] + [getattr(v, "__name__", "") for v in m.time_schemes.values()]
                inner = sorted(set(inner) - set(m.time_schemes))
                bad = rng.choice([rng.choice(inner)] * 6 + ["", "RK4", "rk3", "foo", "Euler", " rk4", "rk4 ", "rk-4", "leap_frog", "rk", "default", None])
                chk.raises(ValueError, lambda: m.set_time_scheme(bad), f"unknown scheme {bad!r} accepted", history=hist)
                hist.append("bad")
            x = nr.uniform(-.5, .5, 3)
            t0, dt = rng.uniform(-1, 1), .3
            want = SPEC[cur](m.trend, t0, x, dt)
            chk.close(m.time_scheme(m.trend, t0, x, dt), want, "selected scheme is not the one used", history=hist)
            w = np.array([t0, t0 + dt])
            chk.close(m.forecast(w, x)[w[-1]], SPEC[cur](m.trend, t0, x, w[1] - w[0]), "forecast does not use the selected scheme", history=hist)
        return f"selections {hist}"

    def constructor(rng, chk):
        bad = rng.choice(["time_splitting", "_rk4", "trend", "forecast", "rk5", "EULER", "x", "", "rk"])
        chk.raises(ValueError, lambda: mk(.1, bad), "constructor accepts an unknown scheme")
        m = mk(.1, "leapfrog")
        a, b = np.array([1., 2.]), np.array([3., 4.])
        r = m.time_scheme(m.trend, 0.5, [a, b], .1)
        chk.close(r[1], a + .2 * m.trend(.5, b), "leapfrog selected in the constructor")
        m2 = mk(.1, "euler")     # selections are per model
        m3 = mk(.1)
        m3.set_time_scheme("rk2")
        x = np.array([.3, .4])
        chk.close(m2.time_scheme(m2.trend, .2, x, .5), SPEC["euler"](m2.trend, .2, x, .5), "selection leaks between models")
        chk.close(m3.time_scheme(m3.trend, .2, x, .5), SPEC["rk2"](m3.trend, .2, x, .5), "selection leaks between models")
        i = IdentityModel()
        u = np.array([1., 2., 3.])
        f = i.forecast(i.window(3.), u)
        chk.equal(len(f), 4, "identity model window")
        for v in f.values(): chk.close(v, u, "identity model changes the state")
        return "constructor " + bad

    for k in range(run.n(6000, 40000)):
        run.case("whole", k, whole)
        if k % 2: run.case("partial", k, partial)
    for k in range(12): run.case("empty", k, empty)
    for k in range(run.n(800, 4000)): run.case("schemes", k, schemes)
    for k in range(run.n(400, 2000)): run.case("history", k, history)
    for k in range(run.n(6, 20)): run.case("constructor", k, constructor)


if __name__ == "__main__":
    main("C04", run_all)
