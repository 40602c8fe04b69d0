"""Concrete contract oracles: harness.

An oracle evaluates the postcondition of a property on the REAL code of /repo (public API only) for generated
inputs.  Each case is (group, key); everything random derives from (seed, group, key), so that a replay file
{property, group, key, seed, hashseed} reproduces the failing input exactly.
"""
import os, sys, json, time, random, signal, traceback, hashlib, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.environ.get("SYMPKF_SRC", "/repo/src"))


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The generated input is outside the property's precondition."""


class Violation(Exception):
    def __init__(self, what, /, **data):
        super().__init__(what)
        self.what = what
        self.data = data


def _alarm(*_):
    raise CaseTimeout()


class Run:
    def __init__(self, prop, seed, tier, only=None, budget=None):
        self.prop, self.seed, self.tier, self.only = prop, seed, tier, only
        self.evaluations = 0
        self.nontrivial = set()
        self.skipped = 0
        self.failures = []
        self.samples = []
        self.checks = 0
        self.groups = {}
        self.t0 = time.time()
        self.budget = budget or (150 if tier == "quick" else 1500)
        self.truncated = False
        self.max_failures = 3

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def case(self, group, key, fn, limit=240):
        """Run one case: fn(rng, chk) -> description of the input (str)."""
        key = str(key)
        if self.only is not None and (group, key) != self.only:
            return
        if len(self.failures) >= self.max_failures:
            return
        if self.only is None and time.time() - self.t0 > self.budget:
            self.truncated = True
            return
        h = hashlib.sha256(f"{self.seed}|{self.prop}|{group}|{key}".encode()).digest()
        rng = random.Random(int.from_bytes(h[:8], "big"))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        chk = Check(self)
        try:
            desc = fn(rng, chk)
            signal.alarm(0)
        except Skip as e:
            signal.alarm(0)
            self.skipped += 1
            return
        except CaseTimeout:
            self._fail(group, key, f"no answer within {limit} s", {})
            return
        except Violation as e:
            signal.alarm(0)
            self._fail(group, key, e.what, e.data)
            return
        except BaseException as e:
            signal.alarm(0)
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            self._fail(group, key, f"unexpected {type(e).__name__}: {e}", {"traceback": traceback.format_exc()[-3000:]})
            return
        self.evaluations += 1
        self.groups[group] = self.groups.get(group, 0) + 1
        d = f"{group}: {desc}"
        self.nontrivial.add(hashlib.md5(d.encode()).hexdigest())
        if self.groups[group] <= 2 and len(self.samples) < 12:
            self.samples.append(d[:400])

    def _fail(self, group, key, what, data):
        self.failures.append({"group": group, "key": key, "what": what,
                              "data": {k: str(v)[:3000] for k, v in data.items()}})

    def result(self):
        return {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial),
                "checks": self.checks, "skipped": self.skipped, "groups": self.groups,
                "samples": self.samples, "failures": self.failures, "truncated": self.truncated,
                "wall_s": time.time() - self.t0, "hashseed": os.environ.get("PYTHONHASHSEED", "")}


class Check:
    def __init__(self, run):
        self.run = run

    def true(self, cond, what, /, **data):
        self.run.checks += 1
        if not cond:
            raise Violation(what, **data)

    def equal(self, got, want, what, /, **data):
        self.run.checks += 1
        if not (got == want):
            raise Violation(what, **{**data, 'got': got, 'want': want})

    def close(self, got, want, what, /, rtol=1e-9, atol=1e-10, **data):
        import numpy as np
        self.run.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(what + f" (shape {g.shape} != {w.shape})", **{**data, 'got': got, 'want': want})
        scale = float(np.max(np.abs(w))) if w.size else 0.
        ok = bool(np.all(np.abs(g - w) <= atol + rtol * max(scale, 0.)))
        if w.size and not ok:
            raise Violation(what, **{**data, 'got': got, 'want': want})

    def raises(self, exc, fn, what, /, **data):
        self.run.checks += 1
        try:
            r = fn()
        except exc:
            return
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation(what + f" (raised {type(e).__name__} instead of {exc})", **data)
        raise Violation(what + " (nothing raised)", **{**data, 'result': r})


def main(prop, run_all):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--case", nargs=2, default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--out", default=None)
    a = ap.parse_args()
    r = Run(prop, a.seed, a.tier, tuple(a.case) if a.case else None, a.budget)
    try:
        run_all(r)
    except Exception as e:      # an import or a setup of the code under test failed
        r._fail("setup", "0", f"unexpected {type(e).__name__}: {e}", {"traceback": traceback.format_exc()[-3000:]})
    s = json.dumps(r.result(), indent=1)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(s)
