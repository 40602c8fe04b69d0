from common import *
import numpy as np


def rand_trend(rng):
    """a trend, pure function of (t, state); kinds chosen to distinguish stage times and weights"""
    a, b, c = [rng.uniform(-2, 2) for _ in range(3)]
    kind = rng.choice(["linear", "nonlinear", "time", "mixed", "identity", "constant", "shift"])
    if kind == "linear":
        f = lambda t, x: a * x
    elif kind == "nonlinear":
        f = lambda t, x: a * x * x + b * np.sin(x)
    elif kind == "time":
        f = lambda t, x: a * t * t + b * t ** 3 + 0 * x
    elif kind == "mixed":
        f = lambda t, x: a * t * x + b * x * x * np.cos(t) + c
    elif kind == "identity":
        f = lambda t, x: x                 # returns its argument itself
    elif kind == "constant":
        k = {}
        def f(t, x):
            if "v" not in k: k["v"] = np.full(np.shape(x), c)
            return k["v"]                  # always the same array object
    else:
        f = lambda t, x: a * np.roll(x, 1) - np.roll(x, -1) * x + t
    return kind, f


def rand_state(rng):
    shape = rng.choice([(1,), (3,), (2, 3), (1, 4), (2, 2, 2)])
    nr = np.random.RandomState(rng.randrange(2 ** 31))
    kind = rng.choice(["float", "float", "int", "complex", "float32"])
    x = nr.uniform(-1.5, 1.5, size=shape)
    if kind == "int": x = nr.randint(-3, 4, size=shape)
    if kind == "complex": x = x + 1j * nr.uniform(-1, 1, size=shape)
    if kind == "float32": x = x.astype(np.float32)
    return kind, x


def stages_euler(f, t, x, dt):
    return x + dt * f(t, x)

def stages_rk2(f, t, x, dt):
    k1 = f(t, x)
    return x + dt * f(t + dt / 2, x + (dt / 2) * k1)

def stages_rk4(f, t, x, dt):
    k1 = f(t, x)
    k2 = f(t + dt / 2, x + (dt / 2) * k1)
    k3 = f(t + dt / 2, x + (dt / 2) * k2)
    k4 = f(t + dt, x + dt * k3)
    return x + (dt / 6) * (k1 + 2 * k2 + 2 * k3 + k4)

SPEC = {"euler": stages_euler, "rk2": stages_rk2, "rk4": stages_rk4}


class Guard:
    """trend wrapper recording the arrays exchanged, to check that they are not modified later"""
    def __init__(self, f):
        self.f, self.seen = f, []
    def __call__(self, t, x):
        y = self.f(t, x)
        self.seen.append((x, np.array(x, copy=True)))
        self.seen.append((y, np.array(y, copy=True)))
        return y
    def check(self, chk, what):
        for arr, copy in self.seen:
            chk.true(np.array_equal(np.asarray(arr), copy), what + ": an array exchanged with the trend was modified")


def run_all(run):
    from sympkf.model.model import Model

    def single(rng, chk):
        name = rng.choice(["euler", "rk2", "rk4"])
        tk, f = rand_trend(rng)
        sk, x = rand_state(rng)
        t = rng.choice([0., rng.uniform(-3, 3)])
        dt = rng.choice([0.1, 1 / 3, -0.25, 1e-3, rng.uniform(-1, 1)])
        m = Model(time_scheme=name)
        x0 = x.copy()
        g = Guard(f)
        y = m.time_scheme(g, t, x, dt)
        tol = 1e-5 if sk == "float32" else 1e-11
        chk.close(y, SPEC[name](f, t, x0, dt), f"{name} step on {tk} trend", rtol=tol, atol=tol, t=t, dt=dt, x=x0)
        chk.true(np.array_equal(x, x0), f"{name} modified its state argument", t=t, dt=dt, x=x0)
        if tk != "identity": chk.true(y is not x, f"{name} returned its argument")
        g.check(chk, name)
        y2 = m.time_scheme(f, t, x, dt)
        chk.close(y2, y, f"{name} second call differs", rtol=0, atol=0)
        return f"{name}, {tk} trend, {sk} state {x.shape}, t={t:.3g}, dt={dt:.3g}"

    def leapfrog(rng, chk):
        tk, f = rand_trend(rng)
        sk, a = rand_state(rng)
        b = a * rng.uniform(0.5, 1.5) + 0.3 if sk != "int" else a + 1
        t, dt = rng.uniform(-2, 2), rng.choice([0.1, -0.3, rng.uniform(-1, 1)])
        m = Model(time_scheme="leapfrog")
        a0, b0 = a.copy(), b.copy()
        g = Guard(f)
        st = rng.choice([list, tuple])([a, b])
        n1, n2 = m.time_scheme(g, t, st, dt)
        tol = 1e-5 if sk == "float32" else 1e-11
        chk.close(n1, b0, "leapfrog first output", rtol=0, atol=0)
        chk.close(n2, a0 + 2 * dt * f(t, b0), "leapfrog second output", rtol=tol, atol=tol, t=t, dt=dt, a=a0, b=b0, trend=tk)
        chk.true(np.array_equal(a, a0) and np.array_equal(b, b0), "leapfrog modified its states")
        chk.true(st[0] is a and st[1] is b and len(st) == 2, "leapfrog modified the pair of states")
        g.check(chk, "leapfrog")
        return f"leapfrog, {tk} trend, {sk} state {a.shape}"

    def splitting(rng, chk):
        m = Model(time_scheme="splitting")
        sk, x = rand_state(rng)
        t, dt = rng.uniform(-2, 2), rng.choice([0.1, -0.3, rng.uniform(-1, 1)])
        steps, names = [], []
        ref = x.copy()
        plan = []
        guards = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 4, 6, 9] * 5 + [17, 40])):
            if steps and rng.random() < .25:       # the same fraction step again (a Strang splitting)
                i = rng.randrange(len(steps))
                steps.append(steps[i]); plan.append(plan[i]); names.append(f"again {i}")
                continue
            kind = rng.choice(["update", "euler", "rk2", "rk4"])
            tk, f = rand_trend(rng)
            names.append(kind + ":" + tk)
            if kind == "update":
                u = (lambda f: lambda t, x, dt: x + dt * f(t + 0.1, x))(f)
                extra = rng.choice([{}, {}, {"scheme": m.time_schemes["euler"]}, {"trend": f}, {"scheme": m.time_schemes["rk4"], "trend": f}, {"name": "part", "scheme": None}])
                e = {"update": u, **extra}
                if rng.random() < .4: e = dict(reversed(list(e.items())))
                names[-1] += "+" + ",".join(extra)
                steps.append(e)
                plan.append(u)
            else:
                g = Guard(f)
                guards.append(g)
                e = {"trend": g, "scheme": m.time_schemes[kind]}
                if rng.random() < .3: e["label"] = rng.choice(["x", None, 3])
                if rng.random() < .3: e = dict(reversed(list(e.items())))
                steps.append(e)
                plan.append((lambda k, f: lambda t, x, dt: SPEC[k](f, t, x, dt))(kind, f))
        for p in plan:
            ref = p(t, ref, dt)
            with np.errstate(all="ignore"):
                if not np.all(np.abs(ref) < 1e2): raise Skip()       # unstable
        x0 = x.copy()
        nsteps = list(steps)
        y = m.time_scheme(steps, t, x, dt)
        tol = 1e-4 if sk == "float32" else 1e-10
        chk.close(y, ref, "splitting step", rtol=tol, atol=tol, steps=names, t=t, dt=dt, x=x0)
        chk.true(np.array_equal(x, x0), "splitting modified its state", steps=names)
        chk.true(steps == nsteps, "splitting modified the list of fraction steps")
        for g in guards: g.check(chk, "splitting")
        # the fraction steps may be given by any sequence
        y2 = m.time_scheme(tuple(steps), t, x, dt)
        chk.close(y2, ref, "splitting step (tuple)", rtol=tol, atol=tol)
        return f"splitting {names}, {sk}{x.shape}"

    def accept_other(rng, chk):
        # a custom scheme can be a fraction step; both keys -> the update has priority (full integration)
        m = Model()
        f = lambda t, x: x * t
        sch = lambda tr, t, x, dt: x + 3 * dt * tr(t, x)
        x = np.array([1., 2.])
        y = m.time_schemes["splitting"]([{"trend": f, "scheme": sch}], 2., x, .5)
        chk.close(y, x + 3 * .5 * 2. * x, "splitting with a custom scheme")
        return "custom scheme in a splitting"

    for k in range(run.n(4000, 40000)):
        run.case("single", k, single)
        run.case("leapfrog", k, leapfrog) if k % 2 == 0 else None
        run.case("splitting", k, splitting) if k % 2 else None
    run.case("custom", 0, accept_other)


if __name__ == "__main__":
    main("C01", run_all)
