"""Model of the sympy operations used by the symbolic part of sympkf: the contract is the differential algebra.

An expression is its normal form: a polynomial, with rational coefficients, in atoms
    ('j', f, index)   derivative of multi-index `index` of the function f (f: name, coordinates); f is random when omega is
                      one of its arguments
    ('s', name)       a symbol (coordinates included)
    ('E', monomial)   expectation of a product of random atoms  (linear, deterministic factors out, derivatives inside)
    ('D', nf, ((s, n), ..))  derivative that is not carried out (of an expectation, of a product before `doit`, of an opaque operator)
    ('T', name, ..)   any other operation on normal forms: exp, inverse, power, renamed expectation, and the opaque operators
                      rhs(i; u..) right-hand side i of an arbitrary system, L(i, f; a.., p) its derivative at a in the direction p
                      of field f (linear in p, coefficients deterministic with a), Q(i; a.., b..) its second-order term
Opaque functions stand for the arbitrary parts (right-hand sides of a system, their linear and quadratic parts, ..), so that
an identity of normal forms holds for all of them.
"""
import fractions, itertools, math
import engine
from engine import Unsupported
Fr = fractions.Fraction
ONE = ()


class FnSym:
    """undefined function symbol (Function('name'))"""
    def __init__(self, name, **assumptions): self.name = str(name); self.__name__ = self.name
    def __call__(self, *args, **k):
        args = [asx(a) for a in args]
        for a in args:
            if a.symbol() is None: return T("call:" + self.name, *args)
        return jet((self.name, tuple(a.symbol() for a in args)), ())
    def __str__(self): return self.name
    __repr__ = __str__
    def __eq__(self, o): return isinstance(o, FnSym) and o.name == self.name
    def __hash__(self): return hash(self.name)
    vc_frozen = True


OMEGA = "omega"


def is_random_fn(f): return OMEGA in f[1]


RANDOM_BASES = set()


def is_random(g):
    if g[0] == "j": return OMEGA in g[1][1]
    if g[0] == "E": return False
    if g[0] == "D": return is_randomx(g[1])
    if g[0] == "s": return g[1] == OMEGA
    if g[0] == "T": return any(any(is_random(h) for h, _ in m) for n in g[2:] if isinstance(n, X) for m in n.d)
    return False


def is_randomx(x): return any(is_random(h) for m in x.d for h, _ in m)


RANK, BYID = {}, {}


def rank(g):
    """canonical order of the atoms (order of first appearance)"""
    r = BYID.get(id(g))
    if r is None:
        g = intern(g)
        r = RANK.get(g)
        if r is None: r = RANK[g] = len(RANK)
        BYID[id(g)] = r                 # g is kept by INTERN: its id is not used again
    return r


def mkey(m): return tuple((rank(g), e) for g, e in m)


def mono(pairs):
    d = {}
    for g, e in pairs:
        r = BYID.get(id(g))
        if r is None: r = rank(g); g = intern(g)
        p = d.get(r)
        d[r] = (g, e) if p is None else (g, p[1] + e)
    return tuple([d[r] for r in sorted(d) if d[r][1] != 0])


class Meta(type):
    pass


class X:
    """an expression"""
    vc_frozen = True
    __slots__ = ("d", "_h", "_n", "name_")
    def __init__(self, d=None): self.d, self._h, self._n, self.name_ = d or {}, None, None, None

    # structure
    def key(self):
        if self._h is None: self._h = frozenset(self.d.items())
        return self._h
    def __hash__(self):
        if self._n is None: self._n = hash(self.key())
        return self._n
    def __eq__(self, o):
        if self is o: return True
        if isinstance(o, (int, float, Fr)): o = num(o)
        return isinstance(o, X) and not isinstance(o, Mat) and self.key() == o.key()
    def __ne__(self, o): return not self == o
    def gens(self): return {g for m in self.d for g, _ in m}
    def allgens(self):
        out = set()
        def go(x):
            for m in x.d:
                for g, _ in m:
                    out.add(g)
                    if g[0] == "E": go(X({g[1]: Fr(1)}))
                    elif g[0] == "D": go(g[1])
                    elif g[0] == "T":
                        for n in g[2:]:
                            if isinstance(n, X): go(n)
        go(self)
        return out
    def single(self):
        """the atom, when the expression is one atom"""
        if len(self.d) != 1: return None
        (m, c), = self.d.items()
        return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 else None
    def symbol(self):
        g = self.single()
        return g[1] if g is not None and g[0] == "s" else None
    def const(self):
        if not self.d: return Fr(0)
        if len(self.d) == 1 and ONE in self.d: return self.d[ONE]
        return None
    def kind(self):
        c = self.const()
        if c is not None: return "Integer" if c.denominator == 1 else "Rational"
        g = self.single()
        if g is not None:
            if g[0] == "j": return "Derivative" if sum(g[2]) else "AppliedUndef"
            if g[0] == "T" and g[1] == "sum": return "Add"
            if g[0] == "T" and g[1] == "Eraw": return "Expectation"
            return {"s": "Symbol", "E": "Expectation", "T": "Function", "D": "Derivative"}[g[0]]
        if len(self.d) > 1: return "Add"
        (m, c), = self.d.items()
        return "Mul" if c != 1 or len(m) > 1 else "Pow"
    def vc_isinstance(self, classes):
        k = self.kind()
        return any(k in kinds_of(c) for c in classes)

    # arithmetic
    def _o(self, o):
        try: return asx(o)
        except Unsupported: return None
    def __add__(self, o):
        if isinstance(o, (Mat, Equation)): return NotImplemented
        o = self._o(o)
        if o is None: return NotImplemented
        d = dict(self.d)
        for m, c in o.d.items():
            c = d.get(m, 0) + c
            if c: d[m] = c
            else: d.pop(m, None)
        return X(d)
    __radd__ = __add__
    def __neg__(self): return X({m: -c for m, c in self.d.items()})
    def __sub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if isinstance(o, (Mat, Equation)): return NotImplemented
        o = self._o(o)
        if o is None: return NotImplemented
        d = {}
        for (m1, c1), (m2, c2) in itertools.product(self.d.items(), o.d.items()):
            m = mono(m1 + m2)
            c = d.get(m, 0) + c1 * c2
            if c: d[m] = c
            else: d.pop(m, None)
        return X(d)
    __rmul__ = __mul__
    def __truediv__(self, o): return self * inverse(asx(o))
    def __rtruediv__(self, o): return asx(o) * inverse(self)
    def __pow__(self, o): return power(self, asx(o))
    def __rpow__(self, o): raise Unsupported("exponential of another base")
    def __abs__(self):
        c = self.const()
        if c is None: raise Unsupported("absolute value")
        return num(abs(c))
    def __bool__(self): return bool(self.d)
    def __int__(self):
        c = self.const()
        if c is None or c.denominator != 1: raise Unsupported("integer value of an expression")
        return int(c)
    __index__ = __int__
    def _order(self, o):
        o = self._o(o)
        a, b = self.const(), None if o is None else o.const()
        if a is None or b is None: raise Unsupported("order of expressions")
        return a - b
    def __floordiv__(self, o):
        a, b = self.const(), asx(o).const()
        if a is None or b is None: raise Unsupported("floor of an expression")
        return num(a // b)
    def __mod__(self, o):
        a, b = self.const(), asx(o).const()
        if a is None or b is None: raise Unsupported("remainder of an expression")
        return num(a % b)
    def __rfloordiv__(self, o): return asx(o) // self
    def __rmod__(self, o): return asx(o) % self
    @property
    def is_Integer(self): c = self.const(); return c is not None and c.denominator == 1
    def __lt__(self, o): return self._order(o) < 0
    def __gt__(self, o): return self._order(o) > 0
    def __le__(self, o): return self._order(o) <= 0
    def __ge__(self, o): return self._order(o) >= 0
    def __iter__(self): raise TypeError("not iterable")

    # sympy interface
    @property
    def args(self):
        g = self.single()
        if g is None:
            if len(self.d) > 1: return tuple(X({m: c}) for m, c in sorted(self.d.items(), key=lambda p: mkey(p[0])))
            raise Unsupported("arguments of a product")
        if g[0] == "j":
            f = jet(g[1], ())
            if not sum(g[2]): return tuple(sym(a) for a in g[1][1])
            return (f,) + tuple(Tup((sym(a), num(n))) for a, n in zip(g[1][1], g[2]) if n)
        if g[0] == "D": return (g[1],) + tuple(Tup((sym(a), num(n))) for a, n in g[2])
        if g[0] == "E": return (X({g[1]: Fr(1)}),)
        if g[0] == "T" and g[1] == "Eraw": return (g[2],)
        if g[0] == "s": return ()
        raise Unsupported("arguments")
    @property
    def func(self):
        g = self.single()
        if g is not None and g[0] == "j" and not sum(g[2]): return FnSym(g[1][0])
        raise Unsupported("head of an expression")
    @property
    def name(self):
        g = self.single()
        if g is not None and g[0] == "j" and not sum(g[2]): return g[1][0]
        if g is not None and g[0] == "s": return g[1]
        raise AttributeError("name")
    @property
    def derivative_count(self):
        g = self.single()
        if g is not None and g[0] == "D": return sum(n for _, n in g[2])
        if g is None or g[0] != "j" or not sum(g[2]): raise AttributeError("derivative_count")
        return sum(g[2])
    @property
    def is_positive(self): return None
    @property
    def is_number(self): return not self.allgens()
    is_constant = lambda self, *a: self.is_number
    @property
    def is_zero(self): return True if not self.d else False if self.is_number else None
    @property
    def is_nonzero(self): return None if self.is_zero is None else not self.is_zero
    @property
    def free_symbols(self): return self.atoms(Symbol)
    def atoms(self, *classes):
        out = set()
        want = set(k for c in classes for k in kinds_of(c))
        if not want and not all(isinstance(c, Kind) for c in classes): raise Unsupported("atoms")
        for g in self.allgens():
            x = X({((g, 1),): Fr(1)})
            if x.kind() in want: out.add(x)
            if g[0] == "j":
                f = jet(g[1], ())
                if "AppliedUndef" in want: out.add(f)
                if "Symbol" in want: out |= {sym(a) for a in g[1][1]}
        return out
    def has(self, *pats):
        syms = {a.name for a in self.atoms(Symbol)}
        for p in pats:
            s = asx(p).symbol()
            if s is None:
                g = asx(p).single()
                if g is None: raise Unsupported("has")
                if g in self.allgens(): return True
            elif s in syms: return True
        return False
    def expand(self, *a, force=False, **k):
        if force: raise Unsupported("expansion under assumptions on the signs")
        return self
    simplify = removeO = factor = together = cancel = collect = expand
    def doit(self, *a, **k): return doit(self)
    def copy(self): return self
    def subs(self, *a, **k):
        return subs(self, pairs_of(*a))
    def xreplace(self, d): return subs(self, pairs_of(d))
    replace = xreplace
    def diff(self, *vs): return doit(Derivative(self, *vs))
    def series(self, x, x0=0, n=6, **k):
        s = asx(x).symbol()
        if s is None or asx(x0).const() != 0: raise Unsupported("series")
        x = expand_rhs(self, s)
        return X({m: c for m, c in x.d.items() if x.degree_in(m, s) < int(n)})
    def degree_in(self, m, s):
        deg = 0
        for g, e in m:
            if g == ("s", s): deg = e
            elif g[0] in ("T", "E", "D"):
                if ("s", s) in X({((g, 1),): Fr(1)}).allgens(): raise Unsupported("expansion inside a function")
        if Fr(deg).denominator != 1 or deg < 0: raise Unsupported("expansion")
        return deg
    def coeff(self, x, n=1):
        s = asx(x).symbol()
        if s is None:
            g = asx(x).single()
            if g is None: raise Unsupported("coefficient")
        else: g = ("s", s)
        n = int(n)
        out = {}
        for m, c in self.d.items():
            e = dict(m).get(g, 0)
            if e == n: out[tuple(p for p in m if p[0] != g)] = c
        return X(out)
    def as_finite_difference(self, *a, **k): raise Unsupported("finite differences")
    def match(self, *a): raise Unsupported("match")
    def __str__(self):
        if self.name_: return self.name_
        g = self.single()
        if g is not None and g[0] == "s": return g[1]
        if g is not None and g[0] == "j" and not sum(g[2]): return f"{g[1][0]}({', '.join(g[1][1])})"
        return show(self)
    __repr__ = __str__


class Tup(tuple):
    """sympy Tuple"""
    def atoms(self, *classes): return set().union(*[asx(v).atoms(*classes) for v in self])
    def __eq__(self, o): return isinstance(o, tuple) and tuple.__eq__(self, o)
    def __ne__(self, o): return not self == o
    __hash__ = tuple.__hash__


def show(x, limit=400):
    def ga(g):
        if g[0] == "j": return g[1][0] + ("_" + "".join(a * n for a, n in zip(g[1][1], g[2])) if sum(g[2]) else "")
        if g[0] == "s": return g[1]
        if g[0] == "E": return "E[" + "*".join(ge(h, e) for h, e in g[1]) + "]"
        if g[0] == "D": return f"D({g[1]}; {', '.join(a * n for a, n in g[2])})"
        return f"{g[1]}({', '.join(map(str, g[2:]))})"
    def ge(g, e): return ga(g) + (f"**{e}" if e != 1 else "")
    out = " + ".join((f"{c}*" if c != 1 or not m else "") + "*".join(ge(g, e) for g, e in m) if m else str(c) for m, c in sorted(x.d.items(), key=lambda p: mkey(p[0]))) or "0"
    return out[:limit]


def num(v):
    if isinstance(v, float):
        f = Fr(v)
        return X({ONE: f} if f else {})
    v = Fr(v)
    return X({ONE: v} if v else {})


def sym(name): return X({((("s", str(name)), 1),): Fr(1)})
class G(tuple):
    """an atom that contains expressions: its hash is computed once"""
    def __hash__(self): return self.h
    def __reduce__(self): return (tuple, (tuple(self),))


INTERN = {}


def intern(g):
    r = INTERN.get(g)
    if r is None:
        if g[0] in ("T", "D", "E"):
            h = tuple.__hash__(g); g = G(g); g.h = h
        r = INTERN[g] = g
    return r


def atom(g): return X({((intern(g), 1),): Fr(1)})


def jet(f, idx):
    idx = tuple(idx) + (0,) * (len(f[1]) - len(idx))
    return atom(("j", f, idx))


def asx(v):
    if isinstance(v, X): return v
    if isinstance(v, bool): raise Unsupported("boolean in an expression")
    if isinstance(v, (int, Fr)): return num(v)
    if isinstance(v, float): return num(v)
    try:
        import numpy
        if isinstance(v, numpy.integer): return num(int(v))
    except ImportError: pass
    if isinstance(v, str): return sym(v)
    raise Unsupported(f"not an expression: {type(v).__name__}")


def T(name, *args): return atom(("T", name) + args)


def inverse(x):
    c = x.const()
    if c is not None:
        if c == 0: raise ZeroDivisionError
        return num(1 / c)
    if len(x.d) == 1:
        (m, c), = x.d.items()
        return X({tuple((g, -e) for g, e in m): 1 / c})
    # content taken out, so that proportional denominators have the same inverse
    c0 = min(x.d.items(), key=lambda p: mkey(p[0]))[1]
    return num(1 / c0) * atom_pow(("T", "sum", X({m: c / c0 for m, c in x.d.items()})), Fr(-1))


def power(x, n):
    e = n.const()
    if e is None: raise Unsupported("symbolic exponent")
    if e.denominator == 1 and 0 <= e <= 8:
        r = num(1)
        for _ in range(int(e)): r = r * x
        return r
    c = x.const()
    if c is not None:
        if e.denominator == 1: return num(c ** int(e))
        if c < 0: raise Unsupported("root of a negative number")
        out = num(1)
        for p, k in list(primes(c.numerator)) + [(p, -k) for p, k in primes(c.denominator)]:
            n = math.floor(k * e)
            out = out * num(Fr(p) ** n)
            if k * e != n: out = out * atom_pow(("T", "num", num(p)), k * e - n)
        return norm_num(out)
    if len(x.d) == 1:
        (m, c), = x.d.items()
        lead = num(1) if c == 1 else power(num(c), n)
        return lead * X({tuple((g, k * e) for g, k in m): Fr(1)})
    if e.denominator == 1: return power(inverse(x), num(-e))
    c0 = min(x.d.items(), key=lambda p: mkey(p[0]))[1]
    return (num(1) if c0 == 1 else power(num(c0), n)) * atom_pow(("T", "sum", X({m: c / c0 for m, c in x.d.items()})), e)


def primes(n):
    p = 2
    while n > 1:
        k = 0
        while n % p == 0: n //= p; k += 1
        if k: yield p, k
        p += 1


def norm_num(x):
    """roots of integers: exponents brought between 0 and 1"""
    if not any(g[0] == "T" and g[1] == "num" for m in x.d for g, _ in m): return x
    out = X()
    for m, c in x.d.items():
        new = []
        for g, e in m:
            if g[0] == "T" and g[1] == "num":
                n = math.floor(e); c = c * g[2].const() ** n; e = e - n
            if e: new.append((g, e))
        out = out + X({tuple(new): c})
    return out


def atom_pow(g, e): return X({((intern(g), e),): Fr(1)})


def sqrt(x): return power(asx(x), num(Fr(1, 2)))


# ---------------------------------------------------------------------- derivation
def d1(x, s):
    """derivative in the symbol named s"""
    acc = {}
    for m, c in x.d.items():
        for i, (g, e) in enumerate(m):
            dg = dgen(g, s)
            if dg.d:
                rest = m[:i] + (((g, e - 1),) if e != 1 else ()) + m[i + 1:]
                c2 = c * e
                for m1, c1 in dg.d.items():
                    k = mono(m1 + rest) if m1 else rest
                    v = acc.get(k, 0) + c1 * c2
                    if v: acc[k] = v
                    else: acc.pop(k, None)
    return X(acc)


DGEN = {}


def dgen(g, s):
    r = DGEN.get((g, s))
    if r is None: r = DGEN[(g, s)] = dgen_(g, s)
    return r


def dgen_(g, s):
    if g[0] == "j":
        if s not in g[1][1]: return X()
        k = g[1][1].index(s)
        return jet(g[1], tuple(n + (i == k) for i, n in enumerate(g[2])))
    if g[0] == "s": return num(1 if g[1] == s else 0)
    if g[0] in ("E", "D") or g[0] == "T" and g[1] in ("rhs", "L", "Q", "Eraw"):
        return deriv(atom(g), ((s, 1),)) if depends(g, s) else X()
    if g[0] == "T":
        if g[1] == "sum" or g[1] == "num": return d1(g[2], s)
        if g[1] == "exp": return atom(g) * d1(g[2], s)
        if g[1] == "at":       # chain rule for a function evaluated elsewhere
            name, idx, coords, vals = g[2], g[3], g[4], g[5:]
            out = X()
            for i, v in enumerate(vals):
                dv = d1(v, s)
                if dv.d: out = out + T("at", name, tuple(n + (i == k) for k, n in enumerate(idx)), coords, *vals) * dv
            return out
        if g[1] == "fn":       # ('T','fn', name, orders, zeroed, variables): opaque function of symbols
            name, orders, zeroed, vs = g[2:]
            if s not in vs: return X()
            k = vs.index(s)
            if zeroed[k]: return X()
            return atom(("T", "fn", name, tuple(n + (i == k) for i, n in enumerate(orders)), zeroed, vs))
        if all(not d1(n, s).d for n in g[2:] if isinstance(n, X)): return X()
    raise Unsupported(f"derivative of {g[:2]}")


def depends(g, s):
    return any(s in h[1][1] or False for h in atom(g).allgens() if h[0] == "j") or any(h == ("s", s) for h in atom(g).allgens())


def deriv(x, idx):
    """derivative that is not carried out"""
    if x.const() is not None or not idx: return X() if idx else x
    g = x.single()
    if g is not None and g[0] == "j":
        for s, n in idx:
            for _ in range(n): x = d1(x, s)
        return x
    if g is not None and g[0] == "D": x, idx = g[1], tuple(g[2]) + tuple(idx)
    elif len(x.d) == 1 and g is None:
        (m, c), = x.d.items()
        if c != 1: return num(c) * deriv(X({m: Fr(1)}), idx)
    d = {}
    for s, n in idx: d[s] = d.get(s, 0) + n
    idx = tuple(sorted((s, n) for s, n in d.items() if n))
    return atom(("D", x, idx)) if idx else x


def doit(x):
    memo = {}
    def gen(g):
        if g in memo: return memo[g]
        if g[0] == "E": r = expect(doit(X({g[1]: Fr(1)})))
        elif g[0] == "D":
            r = doit(g[1])
            for s, n in g[2]:
                for _ in range(n): r = d1(r, s)
        elif g[0] == "T":
            if g[1] == "Eraw": r = expect(doit(g[2]))
            else: r = rebuild(g, [doit(n) if isinstance(n, X) else n for n in g[2:]])
        else: r = atom(g)
        memo[g] = r
        return r
    out = X()
    for m, c in x.d.items():
        t = X({ONE: c})
        for g, e in m:
            r = gen(g)
            t = t * (power(r, num(e)) if e != 1 else r)
        out = out + t
    return out


def rebuild(g, new):
    """the operation of g on new arguments"""
    new = tuple(new)
    if g[1] in ("sum", "num"): return new[0]
    if g[1] == "exp": return exp(new[0])
    if g[1] == "L":
        a, phi = new[2:-1], new[-1]
        out = X()
        for m, c in phi.d.items():                      # linear
            out = out + num(c) * T("L", *new[:-1], X({m: Fr(1)}))
        return out
    if g[1] == "Q":
        n = (len(new) - 1) // 2
        if all(not b.d for b in new[1 + n:]): return X()
        return T("Q", *new)
    if g[1] == "rhs": return T("rhs", *new)
    if g[1] == "at":
        if all(v.symbol() is not None for v in new[3:]): return atom(("j", (new[0], tuple(v.symbol() for v in new[3:])), new[1]))
        return T("at", *new)
    if new == g[2:]: return atom(g)
    return atom(g[:2] + new)


def expand_rhs(x, s):
    """expansion of the opaque right-hand sides in the symbol s, up to second order (contract of `series`)"""
    out = X()
    ss = sym(s)
    for m, c in x.d.items():
        t = X({ONE: c})
        for g, e in m:
            r = atom(g)
            if g[0] == "T" and g[1] == "rhs":
                a, b = [], []
                for v in g[3:]:
                    if v.coeff(ss, 0) + v.coeff(ss, 1) * ss != v: raise Unsupported("expansion of an opaque function")
                    a.append(v.coeff(ss, 0)); b.append(v.coeff(ss, 1))
                if any(v.d for v in b):
                    if e != 1: raise Unsupported("power of an opaque function")
                    r = T("rhs", g[2], *a) + rebuild(("T", "Q"), (g[2], *a, *b)) * ss * ss
                    for f, v in enumerate(b):
                        if v.d: r = r + rebuild(("T", "L"), (g[2], f, *a, v)) * ss
                    r = r + T("R", g[2], *a, *b) * ss * ss * ss
            t = t * (power(r, num(e)) if e != 1 else r)
        out = out + t
    return out


def expect(x):
    out = X()
    for m, c in x.d.items():
        det = tuple(p for p in m if not is_random(p[0]))
        ran = tuple(p for p in m if is_random(p[0]))
        r = num(1)
        if ran:
            r = None
            if len(ran) == 1 and ran[0][1] == 1:
                g = ran[0][0]
                if g[0] == "j" and sum(g[2]): r = deriv(expect(jet(g[1], ())), tuple((s, n) for s, n in zip(g[1][1], g[2]) if n))
                elif g[0] == "D": r = deriv(expect(g[1]), g[2])
                elif g[0] == "T" and g[1] == "L" and not any(is_randomx(a) for a in g[4:-1]): r = rebuild(g, g[2:-1] + (expect(g[-1]),))
            if r is None: r = atom(("E", ran))
        out = out + X({det: c}) * r
    return out


# ---------------------------------------------------------------------- substitution
def pairs_of(*a):
    if len(a) == 2: return [(a[0], a[1])]
    o = a[0]
    if isinstance(o, dict): return list(dict.items(o)) if not hasattr(o, "symbolic") or not o.symbolic() else nope("symbolic substitution")
    return [tuple(p) for p in o]


def nope(s): raise Unsupported(s)


def subs(x, pairs):
    """simultaneous replacement of atoms (a derivative D^a f of a replaced f, or of a replaced D^b f with b<=a, follows)"""
    table, rename = [], []
    for k, v in pairs:
        if isinstance(k, (type, FnSym)) or hasattr(k, "vc_kinds"): rename.append((k, v)); continue
        k, v = asx(k), asx(v)
        if k == v: continue
        g = k.single()
        if g is None: table.append((k, v)); continue
        table.append((g, v))
    for k, v in rename: x = ren(x, k, v)
    return rewrite(x, table) if table else x


def ren(x, a, b):
    """replacement of a function head by another one"""
    def name(f): return "E" if "Expectation" in getattr(f, "vc_kinds", ()) else f.name if isinstance(f, FnSym) else nope("head")
    na, nb = name(a), name(b)
    out = X()
    for m, c in x.d.items():
        t = X({ONE: c})
        for g, e in m:
            if g[0] == "E" and na == "E": h = atom(("T", "head", nb, X({g[1]: Fr(1)})))
            elif g[0] == "T" and g[1] == "head" and g[2] == na: h = expect(g[3]) if nb == "E" else atom(("T", "head", nb, g[3]))
            elif g[0] == "D": h = deriv(ren(g[1], a, b), g[2])
            elif g[0] == "T": h = rebuild(g, [ren(v, a, b) if isinstance(v, X) else v for v in g[2:]])
            else: h = atom(g)
            t = t * power(h, num(e))
        out = out + t
    return out


def rewrite(x, table):
    table = sorted(table, key=lambda p: -size(p[0]))
    memo = {}
    def gen(g):
        if g in memo: return memo[g]
        memo[g] = r = gen_(g)
        return r
    def gen_(g):
        for k, v in table:
            if k == g: return v
            if not isinstance(k, X) and g[0] == "j" == k[0] and k[1] == g[1] and all(a >= b for a, b in zip(g[2], k[2])):
                r = v
                for s, n in zip(g[1][1], [a - b for a, b in zip(g[2], k[2])]):
                    for _ in range(n): r = d1(r, s)
                return r
            if not isinstance(k, X) and g[0] == "D" == k[0] and k[1] == g[1] and all(dict(g[2]).get(s, 0) >= n for s, n in k[2]):
                rest = tuple((s, n - dict(k[2]).get(s, 0)) for s, n in g[2] if n > dict(k[2]).get(s, 0))
                return deriv(v, rest) if rest else v
        if g[0] == "D": return deriv(whole(g[1]), g[2])
        if g[0] == "E": return expect(whole(X({g[1]: Fr(1)})))
        if g[0] == "j":
            # a coordinate of the function is replaced
            for k, v in table:
                if not isinstance(k, X) and k[0] == "s" and k[1] in g[1][1]: return at(g, [(kk, vv) for kk, vv in table if not isinstance(kk, X) and kk[0] == "s"])
        if g[0] == "T":
            if g[1] == "fn":
                zeroed = list(g[4]); ch = False
                for k, v in table:
                    if not isinstance(k, X) and k[0] == "s" and k[1] in g[5]:
                        if v.const() != 0: raise Unsupported("value of an opaque function")
                        zeroed[g[5].index(k[1])] = True; ch = True
                return atom(g[:4] + (tuple(zeroed), g[5])) if ch else atom(g)
            new = tuple(whole(n) if isinstance(n, X) else n for n in g[2:])
            if new == g[2:]: return atom(g)
            return rebuild(g, new)
        return atom(g)
    def whole(x):
        out = X()
        for m, c in x.d.items():
            m = dict(m); t = X({ONE: c})
            for k, v in table:
                if isinstance(k, X) and len(k.d) == 1:
                    (km, kc), = k.d.items()
                    if all(g in m and m[g] * e > 0 and abs(m[g]) >= abs(e) for g, e in km):
                        n = min(int(m[g] / e) for g, e in km)
                        if any(Fr(m[g] / e).denominator != 1 and len(km) == 1 for g, e in km) and any(Fr(m[g]).denominator == 1 and m[g] != n * e for g, e in km):
                            raise Unsupported("partial replacement of a power")
                        for g, e in km:
                            m[g] -= n * e
                            if not m[g]: del m[g]
                        t = t * power(v * num(1 / kc), num(n))
                elif isinstance(k, X): raise Unsupported("replacement of a sum")
            for g, e in m.items():
                r = gen(g)
                t = t * (power(r, num(e)) if e != 1 else r)
            out = out + t
        return out
    return whole(x)


def size(k):
    g = k if not isinstance(k, X) else None
    if g is None: return 3
    if g[0] == "j": return 1 + sum(g[2])
    if g[0] == "D": return 200 + sum(n for _, n in g[2])
    if g[0] == "E": return 100 + sum(e for _, e in g[1])
    return 0


def at(g, table):
    """function evaluated at replaced coordinates"""
    vals = []
    for s in g[1][1]:
        v = sym(s)
        for k, w in table:
            if k[1] == s: v = w
        vals.append(v)
    if all(v.symbol() is not None for v in vals): return atom(("j", (g[1][0], tuple(v.symbol() for v in vals)), g[2]))
    return T("at", g[1][0], g[2], g[1][1], *vals)


def exp(x):
    x = asx(x)
    if not x.d: return num(1)
    return T("exp", x)


# ---------------------------------------------------------------------- classes of the interface
class Kind(type):
    def __call__(cls, *a, **k):
        if "vc_kinds" not in vars(cls): raise Unsupported(f"value of the class {cls.__name__} of the code")
        return cls.make(*a, **k)


def kinds_of(c):
    """the classes of sympy that a class denotes; a class derived from them in the code denotes none of them (its values are others)"""
    return vars(c).get("vc_kinds", ()) if isinstance(c, type) else getattr(c, "vc_kinds", ())


class Symbol(metaclass=Kind):
    vc_kinds = ("Symbol",)
    make = staticmethod(lambda name, *a, **k: sym(name))
class Dummy(Symbol):
    vc_kinds = ()
    make = staticmethod(lambda *a, **k: nope("dummy symbol"))
class Function(metaclass=Kind):
    vc_kinds = ("AppliedUndef", "Function", "Expectation")
    make = staticmethod(lambda name, *a, **k: FnSym(name))
class AppliedUndef(metaclass=Kind):
    vc_kinds = ("AppliedUndef",)
    make = staticmethod(lambda *a, **k: nope("AppliedUndef"))
class Expr(metaclass=Kind):
    vc_kinds = ("AppliedUndef", "Function", "Expectation", "Derivative", "Add", "Mul", "Pow", "Symbol", "Integer", "Rational")
    make = staticmethod(lambda *a, **k: nope("Expr"))


class Derivative(metaclass=Kind):
    vc_kinds = ("Derivative",)
    @staticmethod
    def make(e, *vs, evaluate=False):
        if isinstance(e, Mat): return e.map(lambda c: Derivative.make(c, *vs))
        r = asx(e)
        last = None
        for v in vs:
            if isinstance(v, (tuple, list)): s, n = v[0], int(asx(v[1]))
            elif isinstance(v, int) or asx(v).const() is not None:
                n, s = int(asx(v)) - 1, last
                if s is None: raise ValueError("derivative")
            else: s, n = v, 1
            last = s
            s = asx(s).symbol()
            if s is None or n < 0: raise Unsupported("derivative in an expression")
            r = deriv(r, ((s, n),)) if n else r
        return doit(r) if evaluate else r


class Expectation(metaclass=Kind):
    """contract of Expectation (C05)"""
    vc_kinds = ("Expectation",)
    @staticmethod
    def make(e, evaluate=True):
        if isinstance(e, Equation): return type(e)(Expectation.make(e.args[0]), Expectation.make(e.args[1]))
        if isinstance(e, Mat): return e.map(Expectation.make)
        return expect(asx(e)) if evaluate else T("Eraw", asx(e))


class Integer(metaclass=Kind):
    vc_kinds = ("Integer",)
    make = staticmethod(lambda v: num(int(asx(v)) if isinstance(v, X) else int(v)))
class Rational(metaclass=Kind):
    vc_kinds = ("Rational", "Integer")
    make = staticmethod(lambda p, q=1: num(asx(p).const() / asx(q).const()))
class Add(metaclass=Kind):
    vc_kinds = ("Add",)
    @staticmethod
    def make(*a):
        r = num(0)
        for v in a: r = r + v
        return r
class Mul(metaclass=Kind):
    vc_kinds = ("Mul",)
    @staticmethod
    def make(*a):
        r = num(1)
        for v in a: r = r * v
        return r
class Pow(metaclass=Kind):
    vc_kinds = ("Pow",)
    make = staticmethod(lambda a, b: asx(a) ** asx(b))
class Subs(metaclass=Kind):
    vc_kinds = ("Subs",)
    make = staticmethod(lambda *a: nope("Subs"))
class Integral(metaclass=Kind):
    vc_kinds = ("Integral",)
    make = staticmethod(lambda *a: nope("Integral"))


class Equation:
    """base class of the equations (sympy.Eq): two sides; substitution, doit and expansion act on both"""
    vc_frozen = True
    vc_kinds = ("Equation",)
    def __init__(self, a, b=None):
        self.args = (a, b if b is not None else num(0))
    @property
    def lhs(self): return self.args[0]
    @property
    def rhs(self): return self.args[1]
    def atoms(self, *c): return self.args[0].atoms(*c) | self.args[1].atoms(*c)
    def has(self, *p): return self.args[0].has(*p) or self.args[1].has(*p)
    def subs(self, *a, **k): return Equation(*[v.subs(*a, **k) for v in self.args])
    def doit(self, *a, **k): return Equation(*[v.doit() for v in self.args])
    def expand(self, *a, **k): return Equation(*[v.expand(*a, **k) for v in self.args])
    simplify = expand
    def vc_isinstance(self, classes): return any("Equation" in getattr(c, "vc_kinds", ()) and (c is Equation or isinstance(self, c)) for c in classes if isinstance(c, type))
    def __eq__(self, o): return isinstance(o, Equation) and self.args == o.args
    def __hash__(self): return hash(self.args)
    def __repr__(self): return f"{self.args[0]} = {self.args[1]}"


def solve(eq, x, *more, **k):
    """contract of solve for one unknown that occurs linearly in an equation"""
    if isinstance(eq, list) and SOLUTION[0] is not None:
        # a system: the solution proposed by the contract, once checked in every equation (assumed to be the only one)
        unknowns = [asx(v) for v in (x,) + more]
        prop = SOLUTION[0](unknowns)
        for e in eq:
            r = doit(subs(asx(e.args[0]) - asx(e.args[1]) if isinstance(e, Equation) else asx(e), list(prop.items())))
            import pkfsem
            if pkfsem.clear(norm_num(r)).d: raise Unsupported("solve: the proposed solution does not satisfy the system")
        return [prop] if k.get("dict") else [tuple(prop[u] for u in unknowns)]
    if more or k: raise Unsupported("solve")
    x = asx(x)
    e = asx(eq.args[0]) - asx(eq.args[1]) if isinstance(eq, Equation) else asx(eq)
    g = x.single()
    if g is None:
        if len(x.d) == 1:
            (m, c), = x.d.items()
            # a product: occurs as a whole
            a = X({}); b = X({})
            for mm, cc in e.d.items():
                if mm == m: a = a + num(cc / c)
                else: b = b + X({mm: cc})
            if not a.d: raise IndexError("no solution")
            return [-b / a]
        raise Unsupported("solve for an expression")
    a, b = X(), X()
    for m, c in e.d.items():
        ex = dict(m).get(g, 0)
        if ex == 1: a = a + X({tuple(p for p in m if p[0] != g): c})
        elif ex == 0: b = b + X({m: c})
        else: raise Unsupported("solve: not linear")
    for part in (a, b):
        if any(derived_from(h, g) for h in part.allgens()): raise Unsupported("solve: derivatives of the unknown")
    if not a.d: raise IndexError("no solution")
    return [-b / a]


SOLUTION = [None]


def derived_from(h, g): return h == g


# ---------------------------------------------------------------------- matrices
class Mat:
    vc_frozen = True
    vc_kinds = ("Matrix",)
    def __init__(self, *a):
        if len(a) == 1:
            l = a[0]
            if isinstance(l, Mat): rows = [list(r) for r in l.rows]
            else:
                l = list(l)
                rows = [[asx(v) for v in r] for r in l] if l and isinstance(l[0], (list, tuple)) else [[asx(v)] for v in l]
        else:
            n, m, f = a
            n, m = int(n), int(m)
            if callable(f): rows = [[asx(f(i, j)) for j in range(m)] for i in range(n)]
            else:
                f = [asx(v) for v in f]
                if len(f) != n * m: raise ValueError("matrix")
                rows = [f[i * m:(i + 1) * m] for i in range(n)]
        self.rows = rows
    @property
    def shape(self): return (len(self.rows), len(self.rows[0]) if self.rows else 0)
    def map(self, f): return type(self)([[f(v) for v in r] for r in self.rows])
    def __getitem__(self, k):
        if isinstance(k, tuple): return self.rows[int(k[0])][int(k[1])]
        if isinstance(k, slice): raise Unsupported("slice of a matrix")
        return [v for r in self.rows for v in r][k]
    def __iter__(self): return iter([v for r in self.rows for v in r])
    def __len__(self): return self.shape[0] * self.shape[1]
    def __eq__(self, o): return isinstance(o, Mat) and self.rows == o.rows
    __hash__ = None
    def __add__(self, o): return type(self)([[a + b for a, b in zip(r, s)] for r, s in zip(self.rows, self._same(o).rows)])
    def __sub__(self, o): return type(self)([[a - b for a, b in zip(r, s)] for r, s in zip(self.rows, self._same(o).rows)])
    def __neg__(self): return self.map(lambda v: -v)
    def _same(self, o):
        if not isinstance(o, Mat) or o.shape != self.shape: raise Unsupported("matrices of different shapes")
        return o
    def __matmul__(self, o):
        if not isinstance(o, Mat): raise Unsupported("product of matrices")
        if self.shape[1] != o.shape[0]: raise ValueError("shapes")
        return type(self)([[Add(*[self.rows[i][k] * o.rows[k][j] for k in range(self.shape[1])]) for j in range(o.shape[1])] for i in range(self.shape[0])])
    def __mul__(self, o):
        if isinstance(o, Mat): return self @ o
        return self.map(lambda v: v * asx(o))
    def __rmul__(self, o): return self.map(lambda v: asx(o) * v)
    def __truediv__(self, o): return self.map(lambda v: v / asx(o))
    @property
    def T(self): return type(self)([list(r) for r in zip(*self.rows)])
    def det(self, *a, **k):
        n = self.shape[0]
        if n == 1: return self.rows[0][0]
        r = num(0)
        for j in range(n):
            minor = Mat([row[:j] + row[j + 1:] for row in self.rows[1:]])
            r = r + num((-1) ** j) * self.rows[0][j] * minor.det()
        return r
    def cofactor(self, i, j, *a, **k):
        if self.shape[0] == 1: return num(1)
        return num((-1) ** (i + j)) * Mat([row[:j] + row[j + 1:] for k, row in enumerate(self.rows) if k != i]).det()
    def inv(self, *a, **k):
        n = self.shape[0]
        di = inverse(self.det())
        return type(self)([[self.cofactor(j, i) * di for j in range(n)] for i in range(n)])
    def adjugate(self, *a, **k):
        n = self.shape[0]
        return type(self)([[self.cofactor(j, i) for j in range(n)] for i in range(n)])
    inverse = inv
    transpose = lambda self: self.T
    def trace(self): return Add(*[self.rows[i][i] for i in range(self.shape[0])])
    def row(self, i): return type(self)([self.rows[int(i)]])
    def col(self, j): return type(self)([[r[int(j)]] for r in self.rows])
    def tolist(self): return [list(r) for r in self.rows]
    def is_symmetric(self, *a, **k): return self == self.T
    def subs(self, *a, **k): return self.map(lambda v: v.subs(*a, **k))
    def doit(self, *a, **k): return self.map(lambda v: v.doit())
    def expand(self, *a, **k): return self.map(lambda v: v.expand(*a, **k))
    simplify = expand
    def diff(self, *v): return self.map(lambda c: c.diff(*v))
    def atoms(self, *c): return set().union(*[v.atoms(*c) for v in self])


def symbols(names, **k):
    if not isinstance(names, str): return [symbols(n) for n in names]
    l = [n for n in names.replace(",", " ").split()]
    return sym(l[0]) if len(l) == 1 and "," not in names else tuple(sym(n) for n in l)


def factorial(n): return num(math.factorial(int(asx(n))))


def sympy_model():
    from models_np import Missing
    m = Missing("sympy")
    core = Missing("sympy.core"); fn = Missing("sympy.core.function"); core.function = fn; fn.AppliedUndef = AppliedUndef
    for k, v in dict(Symbol=Symbol, Function=Function, Derivative=Derivative, Integer=Integer, Rational=Rational, Add=Add, Mul=Mul, Pow=Pow, Expr=Expr,
                     Subs=Subs, Integral=Integral, Eq=Equation, Equality=Equation, Matrix=Mat, ImmutableMatrix=type("ImmutableMatrix", (Mat,), {}), symbols=symbols, sqrt=sqrt, exp=exp,
                     factorial=factorial, solve=solve, core=core, Wild=None, Dummy=Dummy).items(): setattr(m, k, v)
    class S_: One, Zero, Half = num(1), num(0), num(Fr(1, 2))
    m.S = S_
    m.expand = lambda e, **k: e.expand()
    m.simplify = lambda e, **k: e
    m.diff = lambda e, *v: e.diff(*v)
    return m
