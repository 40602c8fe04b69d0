"""pyvc: contract-based deductive verification of real Python functions.

The functions of /repo are executed, unmodified in meaning, on symbolic arguments: every path is explored (decisions on
symbolic conditions are replayed from a decision vector), loops over collections of symbolic length are cut by invariants,
and every proof obligation is discharged for all values of the symbols on the path.  See DESIGN.md for the exact list of
what the instrumentation rewrites (loops, comprehensions, displays, starred calls) and what it leaves alone (all the rest).
"""
import ast, os, sys, time, types, builtins, itertools, fractions, traceback
import z3

SRC = os.environ.get("SYMPKF_SRC", "/repo/src")


class Unsupported(BaseException):
    """the construct is outside the reach of the verifier: undecided, never a violation (not caught by the code under verification)"""


class PathDone(BaseException):
    """this path ends here (end of an arbitrary iteration, infeasible assumption)"""


class Restart(BaseException):
    """a candidate invariant was dropped: explore again"""


class Refuted(Exception):
    pass


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "detail", "instances", "function")
    def __init__(self, name, function):
        self.name, self.function = name, function
        self.status, self.backend, self.time, self.detail, self.instances = "discharged", "", 0., "", 0

    def as_dict(self):
        return {"name": self.name, "function": self.function, "status": self.status, "backend": self.backend, "time": round(self.time, 4),
                "detail": self.detail, "instances": self.instances}


CUR = None      # the engine of the exploration in progress


class Engine:
    def __init__(self, timeout_ms=10000, max_paths=4000, deadline=None):
        self.timeout_ms, self.max_paths = timeout_ms, max_paths
        self.deadline = deadline or time.time() + 400
        self.obligations = {}
        self.functions, self.assumptions, self.trusted, self.undecided, self.vacuity = [], [], [], [], {}
        self.paths = 0
        self.scope = ""
        self.counter = itertools.count()
        self.solver_time = 0.
        self.dropped = set()
        self.loops_seen = {}

    # ------------------------------------------------------------------ exploration
    def explore(self, scope, fn, function=None, houdini=None):
        """run fn() on every path; fn builds its symbolic inputs itself (names are deterministic along replays)"""
        global CUR
        self.scope, self.function = scope, function or scope
        if function: self.functions.append(function)
        prev, CUR = CUR, self
        saved_obl = dict(self.obligations)
        try:
            while True:
                self.obligations = dict(saved_obl)
                try:
                    self._explore(fn)
                    break
                except Restart:
                    continue
                except Unsupported as e:
                    self.obligations = dict(saved_obl)
                    self.undecided.append(f"{scope}: {e}")
                    return False
                except RecursionError as e:
                    self.obligations = dict(saved_obl)
                    self.undecided.append(f"{scope}: recursion")
                    return False
                except Exception as e:
                    self.obligations = dict(saved_obl)
                    tb = traceback.extract_tb(e.__traceback__)
                    self.undecided.append(f"{scope}: outside the reach of the verifier: {type(e).__name__}: {str(e)[:300]} at {tb[-1].filename}:{tb[-1].lineno}"
                                          + "".join(f" < {t.filename.split('/')[-1]}:{t.lineno}" for t in reversed(tb[-6:-1])))
                    return False
            return True
        finally:
            CUR = prev

    def explore_n(self, scope, make, function=None, sizes=(0, 1, 2, 3)):
        """make(n) -> contract run; n=None: collections of arbitrary size (proof).  When the proof is undecided, collections of
        the given concrete sizes are explored: a refutation there is a counterexample, success there is bounded only"""
        if self.explore(scope, make(None), function):
            if not any(o.name.startswith(scope + ":") and o.status == "unknown" for o in self.obligations.values()): return True
        for n in sizes:
            before = set(self.obligations)
            self.explore(f"{scope} [bounded: size {n}]", make(n), function)
            for k, o in self.obligations.items():
                if k not in before and o.status == "discharged": o.status = "bounded"
        return False

    def explore_bounded(self, scope, fn, function=None):
        """exploration of a finite set of inputs only: its obligations are never counted as discharged"""
        before = set(self.obligations)
        r = self.explore(scope, fn, function)
        for k, o in self.obligations.items():
            if k not in before and o.status == "discharged": o.status = "bounded"
        return r

    def _explore(self, fn):
        stack = [[]]
        ends = 0
        n = 0
        while stack:
            prefix = stack.pop()
            if n >= self.max_paths: raise Unsupported(f"more than {self.max_paths} paths")
            if time.time() > self.deadline: raise Unsupported("time limit of the verifier")
            n += 1
            self.prefix, self.pos, self.taken = prefix, 0, []
            self.pending = []
            self.fresh_names = {}
            self.solver = z3.Solver(); self.solver.set("timeout", self.timeout_ms)
            self.pc = []
            self.effects, self.universals = [], []
            self.cut = False
            self.mute = 0
            try:
                fn()
                ends += 1
                t = time.time()
                r = self.solver.check()
                self.solver_time += time.time() - t
                if r == z3.sat: self.vacuity[self.scope] = self.vacuity.get(self.scope, 0) + 1
            except PathDone:
                pass
            stack += reversed(self.pending)
        self.paths += n
        if self.vacuity.get(self.scope, 0) == 0:
            raise Unsupported("vacuous: no path of the contract reaches its end")

    def choose(self, options):
        """nondeterministic choice among options (list); explored in order"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for k in range(1, len(options)): self.pending.append(self.taken + [k])
            # pending is explored last-in first-out after reversal: keep increasing order
        self.pos += 1
        self.taken.append(v)
        return options[v]

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]; self.pos += 1; self.taken.append(v)
        else:
            can_t, can_f = self.feasible(cond), self.feasible(z3.Not(cond))
            if not can_t and not can_f: raise PathDone()
            if can_t and can_f:
                self.pending.append(self.taken + [0])
                v = 1
            else: v = 1 if can_t else 0
            self.pos += 1; self.taken.append(v)
        c = cond if v else z3.Not(cond)
        self.solver.add(c); self.pc.append(c)
        return bool(v)

    def feasible(self, c):
        t = time.time()
        self.solver.push(); self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def assume(self, cond):
        cond = tobool(cond)
        if isinstance(cond, bool):
            if not cond: raise PathDone()
            return
        self.solver.add(cond); self.pc.append(cond)
        if self.solver.check() == z3.unsat: raise PathDone()

    def holds(self, cond):
        """does cond follow from the path condition (no obligation recorded)"""
        cond = tobool(cond)
        if isinstance(cond, bool): return cond
        return not self.feasible(z3.Not(cond))

    # ------------------------------------------------------------------ obligations
    def record(self, name, ok, backend, dt=0., detail="", unknown=False):
        full = f"{self.scope}: {name}"
        o = self.obligations.get(full)
        if o is None: o = self.obligations[full] = Obligation(full, self.function)
        else:
            c = Obligation(full, self.function)
            for s in o.__slots__: setattr(c, s, getattr(o, s))
            o = self.obligations[full] = c
        o.instances += 1; o.time += dt
        o.backend = backend if not o.backend or backend in o.backend else o.backend + "+" + backend
        if not ok:
            st = "unknown" if unknown else "refuted"
            if o.status != "refuted": o.status, o.detail = st, detail[:1500]
        return ok

    def prove(self, name, cond, detail="", weak=False, backend="evaluation"):
        """weak: the axioms are only instantiated where needed, a counter-model is not a counterexample (unknown)"""
        cond = tobool(cond)
        if isinstance(cond, bool):
            return self.record(name, cond, backend, 0., detail or ("" if cond else "false on this path: " + self.pathdesc()), unknown=weak or self.cut)
        t = time.time()
        self.solver.push(); self.solver.add(z3.Not(cond))
        r = self.solver.check()
        d = ""
        if r == z3.sat:
            m = self.solver.model()
            d = f"counter-model {m} of {z3.simplify(cond)}"
            if has_quantifier(cond) or any(has_quantifier(c) for c in self.pc): pass
        elif r == z3.unknown: d = f"{self.solver.reason_unknown()}: {cond}"
        self.solver.pop()
        dt = time.time() - t
        self.solver_time += dt
        return self.record(name, r == z3.unsat, "z3", dt, (detail + " " if detail else "") + d, unknown=(r == z3.unknown or weak or self.cut))

    def fail(self, name, detail):
        self.record(name, False, "evaluation", 0., detail)

    def pathdesc(self):
        return " and ".join(str(c) for c in self.pc[-6:])

    # ------------------------------------------------------------------ symbols
    def name(self, base):
        k = self.fresh_names.get(base, 0); self.fresh_names[base] = k + 1
        return base if k == 0 else f"{base}!{k}"

    def int(self, base): return SInt(z3.Int(self.name(base)))
    def real(self, base): return SReal(z3.Real(self.name(base)))
    def bool(self, base): return SBool(z3.Bool(self.name(base)))

    def result(self):
        return {"obligations": [o.as_dict() for o in self.obligations.values()], "functions": sorted(set(self.functions)),
                "assumptions": self.assumptions, "trusted": sorted(set(self.trusted)), "undecided": self.undecided, "vacuity": self.vacuity,
                "paths": self.paths, "solver_time": self.solver_time}


def has_quantifier(e):
    if z3.is_quantifier(e): return True
    return any(has_quantifier(c) for c in e.children())


# ---------------------------------------------------------------------- z3 proxies
def tobool(c):
    if isinstance(c, SBool): return c.z
    if isinstance(c, (bool, z3.BoolRef)): return c
    if c is NotImplemented: return False
    if hasattr(c, "dtype") and str(getattr(c, "dtype", "")) == "bool": return bool(c)
    raise Unsupported(f"not a condition: {type(c)}")


def zterm(v):
    """z3 term of a number"""
    if isinstance(v, (SInt, SReal, SVal, SBool)): return v.z
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float): return z3.RealVal(fractions.Fraction(v))
    if isinstance(v, fractions.Fraction): return z3.RealVal(v)
    if isinstance(v, z3.ExprRef): return v
    try:
        import numpy
        if isinstance(v, numpy.integer): return z3.IntVal(int(v))
        if isinstance(v, numpy.floating): return z3.RealVal(fractions.Fraction(float(v)))
    except ImportError: pass
    return None


def wrap(z):
    if z3.is_bool(z): return SBool(z)
    if z3.is_int(z): return SInt(z)
    if z3.is_real(z): return SReal(z)
    return SVal(z)


class Proxy:
    __slots__ = ()


class SBool(Proxy):
    __slots__ = ("z",)
    def __init__(self, z): self.z = z
    def __bool__(self): return CUR.decide(self.z)
    def __eq__(self, o): return SBool(self.z == tobool(o))
    def __ne__(self, o): return SBool(self.z != tobool(o))
    def __and__(self, o): return SBool(z3.And(self.z, tobool(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.z, tobool(o)))
    __ror__ = __or__
    def __invert__(self): return SBool(z3.Not(self.z))
    def __hash__(self): raise Unsupported("hash of a symbolic condition")
    def __repr__(self): return f"<{self.z}>"


def _num(o):
    z = zterm(o)
    if z is None or z3.is_bool(z) and not isinstance(o, (int, SBool)): return None
    return z


class SNum(Proxy):
    __slots__ = ("z",)
    def __init__(self, z): self.z = z

    def _bin(self, o, f, rev=False):
        if isinstance(o, bool): o = int(o)
        if not isinstance(o, (SNum, int, float, fractions.Fraction)) and _num(o) is None: return NotImplemented
        z = _num(o)
        a, b = (z, self.z) if rev else (self.z, z)
        if z3.is_int(a) != z3.is_int(b):
            if z3.is_int(a): a = z3.ToReal(a)
            else: b = z3.ToReal(b)
        return wrap(z3.simplify(f(a, b)))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return wrap(-self.z)
    def __pos__(self): return self
    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)

    def _div(self, o, rev):
        z = _num(o)
        if z is None: return NotImplemented
        a, b = (z, self.z) if rev else (self.z, z)
        a, b = [z3.ToReal(q) if z3.is_int(q) else q for q in (a, b)]
        if not CUR.holds(b != 0):
            if not CUR.decide(b != 0): raise ZeroDivisionError()
        return wrap(z3.simplify(a / b))

    def _floordiv(self, o, rev, mod):
        z = _num(o)
        if z is None or not z3.is_int(z) or not z3.is_int(self.z): return NotImplemented
        a, b = (z, self.z) if rev else (self.z, z)
        if CUR.decide(b == 0): raise ZeroDivisionError()
        if CUR.decide(b > 0): q, r = a / b, a % b                 # z3: Euclidean, equal to Python's for b>0
        else: q, r = (-a) / (-b), -((-a) % (-b))                 # Python: sign of the divisor
        return wrap(z3.simplify(r if mod else q))
    def __floordiv__(self, o): return self._floordiv(o, False, False)
    def __rfloordiv__(self, o): return self._floordiv(o, True, False)
    def __mod__(self, o): return self._floordiv(o, False, True)
    def __rmod__(self, o): return self._floordiv(o, True, True)

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n <= 6:
            r = z3.IntVal(1) if z3.is_int(self.z) else z3.RealVal(1)
            for _ in range(n): r = r * self.z
            return wrap(r)
        raise Unsupported("power")
    def _cmp(self, o, f):
        z = _num(o)
        if z is None: return NotImplemented
        a, b = self.z, z
        if z3.is_int(a) != z3.is_int(b):
            if z3.is_int(a): a = z3.ToReal(a)
            else: b = z3.ToReal(b)
        return SBool(f(a, b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r
    def __bool__(self): return CUR.decide(self.z != 0)
    def __abs__(self): return wrap(z3.If(self.z >= 0, self.z, -self.z))
    def __hash__(self): return hash(z3.simplify(self.z).sexpr())
    def __repr__(self): return f"<{self.z}>"


class SInt(SNum):
    __slots__ = ()
    def __index__(self):
        s = z3.simplify(self.z)
        if z3.is_int_value(s): return s.as_long()
        raise Unsupported(f"symbolic integer {self.z} used where Python needs a concrete one")
    __int__ = __index__


class SReal(SNum):
    __slots__ = ()
    def _near(self, n, bounds):
        """a multiple of 10^-n whose distance to x, in units of 10^-n, is within the bounds"""
        k = z3.Int(CUR.name("rounded"))
        p = z3.RealVal(1) if n == 0 else z3.RealVal(f"1/{10 ** n}") if n > 0 else z3.RealVal(10 ** -n)
        CUR.assume(bounds(z3.ToReal(k) - self.z / p))
        return k, p
    def __round__(self, n=None):
        k, p = self._near(0 if n is None else int(n), lambda d: z3.And(2 * d >= -1, 2 * d <= 1))
        return SInt(k) if n is None else SReal(z3.ToReal(k) * p)
    def __floor__(self): return SInt(self._near(0, lambda d: z3.And(d > -1, d <= 0))[0])
    def __ceil__(self): return SInt(self._near(0, lambda d: z3.And(d >= 0, d < 1))[0])


class SVal(Proxy):
    """value of an uninterpreted sort"""
    __slots__ = ("z",)
    def __init__(self, z): self.z = z
    def __eq__(self, o): return SBool(self.z == o.z) if isinstance(o, SVal) and o.z.sort() == self.z.sort() else False
    def __ne__(self, o): return SBool(self.z != o.z) if isinstance(o, SVal) and o.z.sort() == self.z.sort() else True
    def __hash__(self): raise Unsupported("hash of a symbolic value")
    def __repr__(self): return f"<{self.z}>"


# ---------------------------------------------------------------------- symbolic sequences
def is_sym_len(n): return isinstance(n, SInt)


class SymSeq(Proxy):
    """sequence of symbolic length; get(i) gives its i-th element (i: int or SInt, assumed in range)"""
    def __init__(self, length, get, kind="list", tag=None):
        self.length, self.get, self.kind, self.tag = length, get, kind, tag

    def __bool__(self): return bool(self.length > 0) if isinstance(self.length, SInt) else self.length > 0
    def slen(self): return self.length

    def norm(self, i):
        if isinstance(i, int) and i < 0: return self.length + i
        if isinstance(i, SInt):
            if CUR.decide(z3.simplify(i.z < 0)): return self.length + i
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported("slice with a step")
            n = self.length
            a = 0 if i.start is None else i.start
            b = n if i.stop is None else i.stop
            a = self._clip(a); b = self._clip(b)
            if isinstance(a, int) and a == 0 and b is n: return SymSeq(n, self.get, self.kind)
            m = b - a
            if isinstance(m, SInt): m = SInt(z3.simplify(z3.If(m.z > 0, m.z, z3.IntVal(0))))
            else: m = max(m, 0)
            return SymSeq(m, (lambda g, a: lambda k: g(a + k))(self.get, a), self.kind)
        i = self.norm(i)
        ok = (i >= 0) & (i < self.length) if isinstance(i, SInt) else (self.length > i if i >= 0 else SBool(z3.BoolVal(False)))
        if not bool(ok): raise IndexError("list index out of range")
        return self.get(i)

    def _clip(self, a):
        n = self.length
        if isinstance(a, int):
            if a < 0:
                z = zterm(n) + a
                return SInt(z3.simplify(z3.If(z > 0, z, z3.IntVal(0))))
            return SInt(z3.simplify(z3.If(zterm(n) < a, zterm(n), z3.IntVal(a)))) if a else 0
        if a is n: return n
        raise Unsupported("slice with a symbolic bound")

    def __iter__(self):
        raise Unsupported("iteration over a sequence of symbolic length outside an instrumented loop")

    def __add__(self, o):
        n = self.length
        if isinstance(o, (list, tuple)):
            l = list(o); o = SymSeq(len(l), lambda i, o=l: o[i], self.kind); o.runs = [(v, 1) for v in l]
        if not isinstance(o, SymSeq): return NotImplemented
        a, b = self, o
        def get(i):
            if bool(i < n if isinstance(i, SInt) or isinstance(n, SInt) else i < n): return a.get(i)
            return b.get(i - n)
        r = SymSeq(n + o.length, get, self.kind)
        if getattr(a, "runs", None) is not None and getattr(b, "runs", None) is not None: r.runs = a.runs + b.runs
        return r

    def __contains__(self, x):
        raise Unsupported("membership in a sequence of symbolic length")

    def count(self, x):
        """number of elements equal to x: known for repetitions and their concatenations"""
        runs = getattr(self, "runs", None)
        if runs is None: raise Unsupported("count in a sequence of symbolic length")
        n = 0
        for v, m in runs:
            if bool(v == x): n = n + m
        return n

    def __eq__(self, o):
        if o is self: return True
        if isinstance(o, (list, tuple, SymSeq)) and not (o.slen() if hasattr(o, "slen") else len(o)):
            return SBool(zterm(self.length) == 0) if isinstance(self.length, SInt) else self.length == 0
        if isinstance(o, (list, tuple, SymSeq)): raise Unsupported("comparison of sequences of symbolic length")
        return False
    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r
    def __hash__(self): return id(self)


class Poison:
    def __init__(self, what): object.__setattr__(self, "_what", what)
    def _no(self, *a, **k): raise Unsupported("value not known after a loop: " + object.__getattribute__(self, "_what"))
    def __getattr__(self, k):
        if k.startswith(("vc_", "__")): raise AttributeError(k)
        self._no()
    __bool__ = __iter__ = __call__ = __add__ = __radd__ = __mul__ = __getitem__ = __eq__ = __len__ = _no
    __hash__ = None


class VDict(dict):
    """dict display of the code under verification: a real dict that may also hold a symbolic part.
    base: None or an object with lookup(key) -> (present: SBool/bool, value); writes after it are kept in order."""
    def __init__(self, *a, **k):
        super().__init__()
        self.base, self.log = None, []
        self.update(*a, **k)

    def _symkey(self, k): return isinstance(k, Proxy)

    def __setitem__(self, k, v):
        CUR and CUR.touch(self)
        if self.base is None and not self.log and not self._symkey(k): super().__setitem__(k, v)
        else:
            if not self.log and dict.__len__(self): self.log = list(super().items()); super().clear()
            self.log.append((k, v))

    def symbolic(self): return self.base is not None or bool(self.log)

    def lookup(self, k):
        """(present, value)"""
        for kk, v in reversed(self.log):
            if bool(kk == k): return True, v
        if not self.symbolic():
            if self._symkey(k):
                for kk, v in super().items():
                    if bool(kk == k): return True, v
                return False, None
            return (True, super().__getitem__(k)) if super().__contains__(k) else (False, None)
        if self.base is not None:
            p, v = self.base.lookup(k)
            return bool(p), v
        return False, None

    def __getitem__(self, k):
        p, v = self.lookup(k)
        if not p: raise KeyError(k)
        return v

    def get(self, k, default=None):
        p, v = self.lookup(k)
        return v if p else default

    def __contains__(self, k): return self.lookup(k)[0]
    def __bool__(self):
        if self.log: return True
        if self.base is not None: return bool(self.base.nonempty())
        return super().__len__() > 0

    def update(self, *a, **k):
        for o in a:
            if isinstance(o, VDict) and o.symbolic():
                if o.base is not None:
                    if self.base is None and not self.log and not super().__len__():
                        self.base = o.base; self.log = list(o.log); CUR and CUR.touch(self); continue
                    self.merge_base(o.base)
                for kk, v in o.log: self[kk] = v
            elif isinstance(o, dict):
                for kk, v in dict.items(o): self[kk] = v
            elif isinstance(o, SymSeq): raise Unsupported("dict update from a symbolic sequence")
            elif hasattr(o, "vc_update"): o.vc_update(self)
            else:
                for kk, v in o: self[kk] = v
        for kk, v in k.items(): self[kk] = v

    def merge_base(self, base): raise Unsupported("merge of two symbolic dictionaries")

    def _concrete(self, what):
        if self.symbolic(): raise Unsupported(f"{what} of a symbolic dictionary")
    def __iter__(self): self._concrete("iteration"); return super().__iter__()
    def keys(self): self._concrete("keys"); return super().keys()
    def values(self): self._concrete("values"); return super().values()
    def items(self): self._concrete("items"); return super().items()
    def __len__(self): self._concrete("len"); return super().__len__()
    def pop(self, *a): self._concrete("pop"); CUR and CUR.touch(self); return super().pop(*a)
    def copy(self):
        r = VDict(); r.base, r.log = self.base, list(self.log)
        for k, v in super().items(): dict.__setitem__(r, k, v)
        return r
    def __eq__(self, o):
        if self.symbolic() or (isinstance(o, VDict) and o.symbolic()):
            if isinstance(o, dict) and not dict.__len__(o) and not (isinstance(o, VDict) and o.symbolic()): return not bool(self)
            raise Unsupported("comparison of symbolic dictionaries")
        return super().__eq__(o)
    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = None
    # loop protocol
    def vc_snapshot(self): return (self.base, list(self.log), dict(super().items()))
    def vc_restore(self, s):
        self.base, self.log = s[0], list(s[1]); super().clear()
        for k, v in s[2].items(): super().__setitem__(k, v)


class VList(list):
    """list display of the code under verification; base: a symbolic prefix (SymSeq or a view), the rest is concrete"""
    def __init__(self, a=()):
        super().__init__()
        self.base = None
        if isinstance(a, (SymSeq,)): self.base = a
        elif isinstance(a, VList): self.base = a.base; super().extend(list.__iter__(a))
        else: super().extend(a)
    def symbolic(self): return self.base is not None
    def append(self, v): CUR and CUR.touch(self); super().append(v)
    def extend(self, v):
        CUR and CUR.touch(self)
        if isinstance(v, VList) and v.symbolic() or isinstance(v, SymSeq): self += v
        else: super().extend(v)
    def __iadd__(self, o):
        CUR and CUR.touch(self)
        if isinstance(o, VList) and not o.symbolic(): super().extend(list.__iter__(o)); return self
        if isinstance(o, (SymSeq, VList)):
            b = o if isinstance(o, SymSeq) else o.as_seq()
            me = self.as_seq()
            super().clear(); self.base = b if me is None else me + b
            return self
        super().extend(o); return self
    def as_seq(self):
        own = list(list.__iter__(self))
        if self.base is None:
            if not own: return None
            q = SymSeq(len(own), lambda i: own[i]); q.runs = [(v, 1) for v in own]
            return q
        if not isinstance(self.base, SymSeq): raise Unsupported("this list has no known sequence")
        return self.base + own if own else self.base
    def __add__(self, o):
        if hasattr(o, "vc_radd"): return o.vc_radd(self)
        if not self.symbolic() and not (isinstance(o, VList) and o.symbolic()) and isinstance(o, list): return VList(list(list.__iter__(self)) + list(list.__iter__(o)))
        r = VList(self); r += o; return r
    def __mul__(self, n):
        if self.symbolic(): raise Unsupported("repetition of a symbolic list")
        if isinstance(n, SInt):
            own = list(list.__iter__(self))
            if len(own) == 1:
                m = SInt(z3.simplify(z3.If(n.z > 0, n.z, z3.IntVal(0))))
                q = SymSeq(m, lambda i: own[0]); q.runs = [(own[0], m)]
                return VList(q)
            raise Unsupported("symbolic repetition of a list")
        return VList(list.__mul__(self, n))
    __rmul__ = __mul__
    def __iter__(self):
        if self.symbolic(): raise Unsupported("iteration over a symbolic list outside an instrumented loop")
        return super().__iter__()
    def __getitem__(self, i):
        if self.symbolic():
            if isinstance(i, int) and i < 0 and -i <= list.__len__(self): return list.__getitem__(self, i)
            return self.as_seq()[i]
        if isinstance(i, SInt):
            for k in range(list.__len__(self)):
                if bool(i == k): return list.__getitem__(self, k)
            raise IndexError("list index out of range")
        r = super().__getitem__(i)
        return VList(r) if isinstance(i, slice) else r
    def __setitem__(self, i, v):
        if self.symbolic(): raise Unsupported("item assignment in a symbolic list")
        CUR and CUR.touch(self); super().__setitem__(i, v)
    def __len__(self):
        if self.symbolic(): raise Unsupported("len of a symbolic list")
        return super().__len__()
    def slen(self):
        return self.as_seq().length if self.symbolic() else list.__len__(self)
    def __bool__(self):
        if list.__len__(self): return True
        return bool(self.base.slen() > 0) if self.symbolic() else False
    def count(self, x):
        if self.symbolic(): return self.as_seq().count(x)
        return sum(1 for v in list.__iter__(self) if bool(v == x))
    def pop(self, *a):
        if self.symbolic() and not (list.__len__(self) and a in ((), (-1,))):
            s = self.as_seq(); i = a[0] if a else -1
            if i == 0:
                if not bool(s.length > 0): raise IndexError("pop from empty list")
                CUR.touch(self); v = s.get(0); super().clear(); self.base = s[1:]
                return v
            if isinstance(i, int):
                if not bool(s.length > i if i > 0 else s.length >= -i): raise IndexError("pop index out of range" if bool(s.length > 0) else "pop from empty list")
                v = s.get(i if i > 0 else s.length + i); CUR.touch(self); super().clear()
                self.base = s[:i] + s[i + 1:] if i != -1 else s[:-1]
                return v
            raise Unsupported("pop from a symbolic list")
        CUR and CUR.touch(self); return super().pop(*a)
    def __contains__(self, x):
        if self.symbolic():
            if not hasattr(self.base, "has"): raise Unsupported("membership in a symbolic list")
            return bool(SBool(z3.Or(self.base.has(x), *[z3.BoolVal(v) if isinstance(v, bool) else v.z for v in [v == x for v in list.__iter__(self)]])))
        return super().__contains__(x)
    def __eq__(self, o):
        if self.symbolic() or (isinstance(o, VList) and o.symbolic()):
            if isinstance(o, list) and not list.__len__(o) and not getattr(o, "base", None): return not bool(self)
            raise Unsupported("comparison of symbolic lists")
        return super().__eq__(o)
    __hash__ = None
    def vc_snapshot(self): return (self.base, list(list.__iter__(self)))
    def vc_restore(self, s): self.base = s[0]; super().clear(); super().extend(s[1])


def touch(self, obj):
    for L in self.effects:
        if obj_known_before(L, obj): L.writes[id(obj)] = obj


def obj_known_before(L, obj):
    return id(obj) not in L.born


Engine.touch = touch


# ---------------------------------------------------------------------- loops
class LoopCtx:
    """one active cut loop in its arbitrary iteration"""
    def __init__(self): self.writes, self.born = {}, set()


class Tok:
    __slots__ = ("exit", "value", "loop", "k", "first")
    def __init__(self, exit, value=None, loop=None, k=None): self.exit, self.value, self.loop, self.k = exit, value, loop, k


class Candidate:
    """candidate invariant for one place (local variable or container) changed by a loop.
    applies(init): is it a candidate for a place whose value at loop entry is init;  make(k): a value that satisfies it at
    iteration k;  check(value, k) -> condition (z3/bool) that value satisfies it at k."""
    name = "?"
    def applies(self, init, k0): return True
    def make(self, init, k): raise NotImplementedError
    def check(self, init, value, k): raise NotImplementedError


class Keep(Candidate):
    """the loop leaves the place as it was"""
    name = "unchanged"
    def make(self, init, k): return init
    def check(self, init, value, k):
        if value is init: return True
        if isinstance(init, (SNum, SVal)) and isinstance(value, (SNum, SVal)): return value == init
        if isinstance(init, (int, str, bool, float, type(None), tuple)) and type(init) == type(value):
            try: return bool(init == value)
            except Unsupported: return False
        return False


class Loops:
    """support object `_vc_` of the instrumented code"""
    def __init__(self):
        self.vocab = []            # candidate invariants supplied by the contract
        self.handlers = []         # iterables handled by a contract: (predicate, fn)
        self.cut_whiles, self.generators = set(), set()

    # --- for loops
    def loop(self, ident, iterable):
        E = CUR
        seq = self.as_symbolic(iterable)
        if seq is None:
            for v in iterable: yield Tok(False, v)
            return
        if E is None: raise Unsupported("symbolic loop outside an exploration")
        if hasattr(seq, "vc_loop"):
            yield from seq.vc_loop(self, ident)
            return
        n = seq.length
        frame = sys._getframe(1)
        if frame.f_code.co_flags & 0x20 and not self.allow_generator(ident): raise Unsupported(f"loop over a symbolic collection in the generator {ident}")
        # the same textual loop can be reached several times on one path: number the visits
        visits = E.fresh_names.get(("loop", ident), 0); E.fresh_names[("loop", ident)] = visits + 1
        L = LoopCtx(); L.ident, L.visit, L.n, L.seq = ident, visits, n, seq
        mode = E.choose(["body", "exit"])
        L.mode = mode
        E.cut = True
        try:
            if mode == "body":
                k = E.int(f"k_{ident}")
                E.assume(z3.And(k.z >= 0, k.z < zterm(n)))
                L.k = k
                yield Tok(False, None, L, k)
                # end of the arbitrary iteration (normal end or continue)
                self.end_iteration(L, sys._getframe(1))
                raise PathDone()
            else:
                L.k = n if isinstance(n, SInt) else SInt(z3.IntVal(n))
                yield Tok(True, None, L, n)
        finally:
            if L in E.effects: E.effects.remove(L)

    def wloop(self, ident):
        """while loop: cut when the contract says so, otherwise unrolled"""
        E = CUR
        if E is None or ident not in self.cut_whiles:
            while True: yield Tok(False, None)
        frame = sys._getframe(1)
        visits = E.fresh_names.get(("loop", ident), 0); E.fresh_names[("loop", ident)] = visits + 1
        L = LoopCtx(); L.ident, L.visit, L.n, L.seq, L.mode = ident, visits, None, None, "body"
        E.cut = True
        try:
            k = E.int(f"k_{ident}")
            E.assume(k.z >= 0)
            L.k = k
            yield Tok(False, None, L, k)
            self.end_iteration(L, sys._getframe(1))
            raise PathDone()
        finally:
            if L in E.effects: E.effects.remove(L)

    def allow_generator(self, ident): return ident in self.generators

    def head(self, tok, names, loc):
        """called at the head of each iteration: gives the values of the changed names; for a cut loop, arbitrary ones
        that satisfy the surviving candidate invariants"""
        if tok.loop is None:
            return [loc.get(n, UNDEF) for n in names]
        if hasattr(tok.loop, "vc_head"): return tok.loop.vc_head(tok, names, loc)
        E, L = CUR, tok.loop
        k = L.k
        out = []
        L.inits, L.cands = {}, {}
        L.names = names
        zero = SInt(z3.IntVal(0))
        for n in names:
            init = loc.get(n, UNDEF)
            L.inits[n] = init
            out.append(self.havoc(L, "local", n, init, k, zero))
        # containers written by the body, found by earlier explorations
        L.objs = []
        key = ("objs", E.scope, L.ident, L.visit)
        known = E.loops_seen.setdefault(key, set())
        for path, obj in reachable(loc):
            if path in known: L.objs.append((path, obj))
        for path, obj in L.objs:
            snap = obj.vc_snapshot()
            L.inits[path] = snap
            E.touch(obj)                       # a write for the enclosing loops
            c = self.havoc(L, "object", path, snap, k, zero, obj)
        L.before = {id(o): (p, o) for p, o in reachable(loc)}
        if L.mode == "body":
            L.born_check = set(L.before)
            E.effects.append(L)
            if L.seq is not None: tok.value = L.seq.get(k)
        L.attrs = [(o, dict(vars(o))) for o in plain_objects(loc)]
        return out

    def havoc(self, L, kind, name, init, k, zero, obj=None):
        E = CUR
        if init is UNDEF: return Poison(str(name))
        cands = [c for c in self.vocab + [Keep()] if (E.scope, L.ident, L.visit, name, c.name) not in E.dropped and c.applies(init, L)]
        for c in cands:
            ok = True
            if not isinstance(c, Keep):
                try: ok = E.holds(c.check(init, init, zero))
                except Unsupported: ok = False
            if not ok:
                E.dropped.add((E.scope, L.ident, L.visit, name, c.name)); continue
            L.cands[name] = c
            if isinstance(c, Keep): v = init
            else: v = c.make(init, k, obj) if kind == "object" else c.make(init, k)
            return v
        L.cands[name] = None
        if kind == "object": raise Unsupported(f"no invariant for the container {name} changed by a loop")
        return Poison(str(name))

    def end_iteration(self, L, frame):
        E = CUR
        E.effects.remove(L)
        loc = frame.f_locals
        for o, before in L.attrs:
            now = vars(o)
            if now.keys() != before.keys() or any(now[a] is not before[a] for a in now):
                raise Unsupported(f"loop {L.ident} changes attributes of {type(o).__name__}")
        k1 = L.k + 1
        for n in L.names:
            c = L.cands.get(n)
            if c is None: continue
            v = loc.get(n, UNDEF)
            self.preserved(L, n, c, L.inits[n], v, k1)
        # containers written without having been havocked: restart with a larger frame
        key = ("objs", E.scope, L.ident, L.visit)
        known = E.loops_seen.setdefault(key, set())
        new = False
        for oid, obj in list(L.writes.items()):
            if oid in L.before:
                p = L.before[oid][0]
                if p not in known: known.add(p); new = True
        if new: raise FrameRestart()
        for path, obj in L.objs:
            c = L.cands[path]
            if c is None: continue
            self.preserved(L, path, c, L.inits[path], obj, k1)

    def preserved(self, L, n, c, init, v, k1):
        E = CUR
        try: ok = v is not UNDEF and E.holds(c.check(init, v, k1))
        except Unsupported: ok = False
        if not ok:
            E.dropped.add((E.scope, L.ident, L.visit, n, c.name))
            raise Restart()
        if not isinstance(c, Keep): E.record(f"loop {L.ident}: invariant '{c.name}' of {short(n)} is preserved", True, "z3")

    def same(self, a, b):
        """identity of two objects; unknown for two views of the elements of symbolic collections"""
        if a is b: return True
        if CUR is not None and CUR.cut and isinstance(a, SVal) and isinstance(b, SVal): raise Unsupported("identity of two objects after a loop")
        return False

    def contains(self, x, c):
        """x in c"""
        if hasattr(c, "vc_contains"): return c.vc_contains(x)
        s = self.as_symbolic(c)
        if s is not None and isinstance(x, bool): return self.quantified(SymSeq(s.length, lambda i: s.get(i) == x) if not hasattr(s, "vc_test") else s.vc_test(x), True)
        return x in c

    def quantified(self, seq, exists):
        """any/all over a symbolic sequence: decided with a fresh witness"""
        E = CUR
        if hasattr(seq, "vc_quantified"): return seq.vc_quantified(exists)
        if E.choose([True, False]) == exists:
            # some element makes it true (exists) / false (all)
            k = E.int("w"); E.assume(z3.And(k.z >= 0, k.z < zterm(seq.length)))
            v = bool(seq.get(k))
            E.assume(v == exists)
            return exists
        # no element does: assumed for the elements met later is not tracked, only usable as a flag
        E.universals.append((seq, not exists))
        return not exists

    # --- what is symbolic
    def as_symbolic(self, it):
        if isinstance(it, SymSeq):
            return it if isinstance(it.length, SInt) else None
        if isinstance(it, VList) and it.symbolic(): return it.as_seq()
        if hasattr(it, "vc_loop"): return it
        if hasattr(it, "vc_seq"): return it.vc_seq()
        return None

    # --- comprehensions
    def comp(self, kind, gens, elt):
        """gens: list of (iterable function, list of condition functions), each taking the elements of the previous generators"""
        def rec(j, env):
            if j == len(gens):
                yield elt(*env); return
            it, conds = gens[j]
            seq = it(*env)
            for v in self.concrete_iter(seq):
                if all(bool(c(*env, v)) for c in conds): yield from rec(j + 1, env + (v,))
        first = gens[0][0]()
        sym = self.as_symbolic(first)
        if sym is not None:
            if hasattr(sym, "vc_comp"): return sym.vc_comp(self, kind, gens, elt)
            if len(gens) == 1 and not gens[0][1] and kind in ("list", "gen", "tuple"):
                return VList(SymSeq(sym.length, lambda i: elt(sym.get(i)))) if kind == "list" else SymSeq(sym.length, lambda i: elt(sym.get(i)), "gen")
            h = getattr(self, "comp_handler", None)
            if h is not None: return h(kind, sym, gens, elt)
            raise Unsupported(f"{kind} comprehension over a symbolic collection")
        gens = [((lambda *a, f=first: f), gens[0][1])] + gens[1:]
        g = rec(0, ())
        if kind == "list": return VList(list(g))
        if kind == "set": return VSet(g)
        if kind == "dict": return VDict(list(g))
        return g

    def concrete_iter(self, it):
        if self.as_symbolic(it) is not None: raise Unsupported("nested comprehension over a symbolic collection")
        return it

    def unpack(self, v, pattern):
        """values of the names of a target pattern: None for a name, list for a tuple"""
        if pattern is None: return [v]
        vs = list(v)
        if len(vs) != len(pattern): raise ValueError("unpack")
        return [q for x, p in zip(vs, pattern) for q in self.unpack(x, p)]

    def call(self, f, args, kwargs):
        flat = []
        for star, v in args:
            if not star: flat.append(v); continue
            s = self.as_symbolic(v)
            if s is None: flat += list(v)
            else: flat.append(Star(s))
        if any(isinstance(a, Star) for a in flat):
            h = getattr(f, "vc_star", None)
            if h is None: raise Unsupported(f"call of {getattr(f, '__name__', f)} with a symbolic number of arguments")
            return h(*flat, **kwargs)
        return f(*flat, **kwargs)

    def mklist(self, l):
        v = VList(l); self.born(v); return v
    def mkdict(self, pairs):
        d = VDict()
        for p in pairs:
            if len(p) == 1: d.update(p[0])
            else: d[p[0]] = p[1]
        self.born(d)
        return d
    def mkset(self, l): return VSet(l)

    def born(self, v): pass

    def fstr(self, parts):
        if all(isinstance(p, (str, int, float)) or not isinstance(p, Proxy) for p in parts):
            return "".join(p if isinstance(p, str) else format(p) for p in parts)
        from rope import Rope
        return Rope.concat(parts)

    def strmethod(self, s, name, args, kwargs):
        if name == "join" and args:
            seq = self.as_symbolic(args[0])
            if seq is not None: raise Unsupported("join over a symbolic sequence")
            l = list(args[0])
            if any(isinstance(a, Proxy) for a in l):
                from rope import Rope
                out = []
                for i, a in enumerate(l):
                    if i: out.append(s)
                    out.append(a)
                return Rope.concat(out)
            return s.join(l)
        return getattr(s, name)(*args, **kwargs)


class FrameRestart(Restart):
    pass


def plain_objects(loc, depth=3):
    out, seen = [], set()
    def go(v, d):
        if id(v) in seen or d > depth or isinstance(v, Poison): return
        if hasattr(v, "vc_snapshot"):
            seen.add(id(v))
            for x in (list(dict.values(v)) if isinstance(v, dict) else list(list.__iter__(v)) if isinstance(v, list) else []): go(x, d + 1)
        elif hasattr(v, "__dict__") and not isinstance(v, (type, types.ModuleType, types.FunctionType, types.MethodType, Proxy)) and not getattr(v, "vc_frozen", False):
            seen.add(id(v)); out.append(v)
            for x in list(vars(v).values()): go(x, d + 1)
        elif isinstance(v, types.MethodType): go(v.__self__, d)
    for n, v in loc.items():
        if not n.startswith(("__", "_vc_")): go(v, 0)
    return out


class Star:
    def __init__(self, seq): self.seq = seq


class _Undef:
    def __repr__(self): return "<unbound>"


UNDEF = _Undef()


def short(n): return n if isinstance(n, str) else str(n)


def reachable(loc, limit=400):
    """containers (with vc_snapshot) reachable from the locals, with their access path"""
    out, seen = [], set()
    def go(path, v, depth):
        if len(out) > limit or id(v) in seen or isinstance(v, Poison): return
        if hasattr(v, "vc_snapshot"):
            seen.add(id(v)); out.append((path, v))
            if isinstance(v, dict) and depth < 4:
                for k, x in list(dict.items(v)): go(f"{path}[{str(k)[:20]}]", x, depth + 1)
            elif isinstance(v, list) and depth < 4:
                for k, x in enumerate(list(list.__iter__(v))[:50]): go(f"{path}[{k}]", x, depth + 1)
        elif hasattr(v, "__dict__") and depth < 3 and not isinstance(v, (type, types.ModuleType, types.FunctionType, Proxy)):
            seen.add(id(v))
            for k, x in sorted(vars(v).items(), key=lambda q: str(q[0])): go(f"{path}.{k}", x, depth + 1)
    for n in sorted(loc):
        if n.startswith(("__", "_vc_")): continue
        go(n, loc[n], 0)
    return out


class VSet(set):
    """set display of the code under verification (elements are concrete or structurally hashed)"""
    def __init__(self, a=()):
        super().__init__()
        self.fam = []
        if a: self.update(a)
    def update(self, *its):
        for it in its:
            if isinstance(it, VSet): super().update(set.__iter__(it)); self.fam += it.fam
            elif hasattr(it, "vc_family"): self.fam += it.vc_family()
            elif isinstance(it, (SymSeq,)): raise Unsupported("set from a symbolic sequence")
            else: super().update(it)
        CUR and CUR.touch(self)
    flip, rank = False, None
    def __iter__(self):
        """in an order chosen by the contract (symb.any_order), that of python otherwise"""
        return set.__iter__(self) if VSet.rank is None else iter(sorted(set.__iter__(self), key=VSet.rank, reverse=VSet.flip))
    def add(self, v):
        CUR and CUR.touch(self); super().add(v)
    def vc_snapshot(self): return (set(set.__iter__(self)), list(self.fam))
    def vc_restore(self, s): super().clear(); super().update(s[0]); self.fam = list(s[1])
    __hash__ = None
