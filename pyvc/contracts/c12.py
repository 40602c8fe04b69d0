"""C12: the constructor and the index of a generated model; the models of abstract manifolds.

The real templates are rendered by the real builder; the constructor and `index` run for every shape (symbolic integers), lengths
(symbolic reals), values of the constants (symbolic reals), presence or absence of each keyword, and 1 to 4 coordinates.  `index` is
verified against the invariant of its memory: every array kept under (c,k) is (i+k) modulo the number of points of c; the
constructor establishes it, a request preserves it and, with it, returns the right array whatever was requested before."""
import z3
import engine
from engine import SInt, SReal, SBool, Proxy, Unsupported, VDict, VList, zterm
from .gencode import generate, load_program, WrongAxis
from . import gencode, c11, builder
from models_np import Missing, mp_model


# ---------------------------------------------------------------- numpy: one-dimensional arrays of n values
class Arr:
    """array i -> at(i) for 0 <= i < n"""
    vc_frozen = True
    __array_priority__ = 9
    def __init__(self, n, at, integer): self.n, self.at, self.integer = n, at, integer
    def _b(self, o, f, keeps=True):
        if isinstance(o, Arr): return Arr(self.n, lambda i: f(self.at(i), o.at(i)), self.integer and o.integer and keeps)
        if isinstance(o, (int, float, SInt, SReal)) and not isinstance(o, bool):
            return Arr(self.n, lambda i: f(self.at(i), o), self.integer and isinstance(o, (int, SInt)) and keeps)
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b, False)
    def __mod__(self, o):
        if isinstance(o, (int, SInt)) and not isinstance(o, bool) and engine.CUR.holds(SBool(zterm(o) > 0) if isinstance(o, SInt) else o > 0): return self._b(o, pymod)
        raise Unsupported("mod")
    def __neg__(self): return Arr(self.n, lambda i: -self.at(i), self.integer)
    def copy(self): return Arr(self.n, self.at, self.integer)
    @property
    def size(self): return self.n
    @property
    def shape(self): return (self.n,)
    def __len__(self): raise Unsupported("len of a symbolic array")
    def vc_len(self): return self.n
    def __bool__(self): raise Unsupported("truth of an array")
    def __eq__(self, o): raise Unsupported("comparison of arrays")
    __hash__ = None


def pymod(a, b):
    """a % b for b > 0"""
    a, b = zterm(a), zterm(b)
    if z3.is_int(a) and z3.is_int(b): return SInt(z3.simplify(congruent(a, b), som=True) % b)
    raise Unsupported("mod of reals")


def congruent(t, n):
    """an integer term congruent to t modulo n: the residues modulo n in sums, differences and products are replaced by what they are residues of"""
    if z3.is_app_of(t, z3.Z3_OP_MOD) and t.arg(1).eq(n): return congruent(t.arg(0), n)
    if z3.is_add(t) or z3.is_sub(t) or z3.is_mul(t) or z3.is_app_of(t, z3.Z3_OP_UMINUS): return t.decl()(*[congruent(c, n) for c in t.children()])
    return t


class Mesh:
    """array of given shape whose value only depends on the index along one axis"""
    vc_frozen = True
    def __init__(self, shape, axis, arr): self.shape_, self.axis, self.arr = shape, axis, arr
    @property
    def shape(self): return self.shape_
    def __bool__(self): raise Unsupported("truth of an array")


def grid_numpy():
    m = Missing("numpy")
    m.nan = float("nan")
    def kind(dtype):
        if dtype is None: return None
        c = getattr(dtype, "vc_class", dtype)
        if c is int: return True
        if c is float: return False
        raise Unsupported("dtype")
    def arange(*a, dtype=None):
        if len(a) == 1: lo, hi = 0, a[0]
        elif len(a) == 2: lo, hi = a
        else: raise Unsupported("arange with a step")
        if not all(isinstance(v, (int, SInt)) for v in (lo, hi)): raise Unsupported("arange of reals")
        n = hi - lo
        if not engine.CUR.holds(zterm(n) >= 0) if isinstance(n, SInt) else n < 0: raise Unsupported("arange of no value")
        k = kind(dtype)
        return Arr(n, lambda i: lo + i, True if k is None else k)
    m.arange = arange
    def meshgrid(*arrs, indexing="xy", sparse=False, copy=True):
        if indexing not in ("xy", "ij"): raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
        if not all(isinstance(a, Arr) for a in arrs): raise Unsupported("meshgrid")
        order = list(range(len(arrs)))
        if indexing == "xy" and len(arrs) > 1: order[0], order[1] = 1, 0
        shape = [arrs[k].n for k in order]
        out = []
        for k, a in enumerate(arrs):
            ax = order.index(k)
            out.append(Mesh(tuple(shape[j] if not sparse or j == ax else 1 for j in range(len(arrs))), ax, a))
        return VList(out)
    m.meshgrid = meshgrid
    def linspace(a, b, num=50, endpoint=True, dtype=None):
        if dtype is not None: raise Unsupported("linspace dtype")
        d = (b - a) / ((num - 1) if endpoint else num)
        return Arr(num, lambda i: a + i * d, False)
    m.linspace = linspace
    def mod(a, b): return a % b
    m.mod = m.remainder = mod
    def fmod(a, b):
        # the remainder of the division truncated towards zero
        if not all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in (a, b)): raise Unsupported("fmod of reals")
        if not (engine.CUR.holds(SBool(zterm(b) > 0)) if isinstance(b, SInt) else b > 0): raise Unsupported("fmod")
        a, b = zterm(a), zterm(b)
        a = a if z3.is_expr(a) else z3.IntVal(a)
        return SInt(z3.If(a >= 0, a % b, -((-a) % b)))
    m.fmod = fmod
    def roll(a, k, axis=None):
        if not isinstance(a, Arr): raise Unsupported("np.roll")
        at = a.at
        return Arr(a.n, lambda i: at(pymod(i - k, a.n)), a.integer)
    m.roll = roll
    def isnan(v):
        if isinstance(v, float): return v != v
        if isinstance(v, SReal): return False
        raise Unsupported("np.isnan")
    m.isnan = isnan
    def prod(s):
        r = 1
        for v in s: r = r * v
        return r
    m.prod = prod
    return m


class Value:
    """array given as value of a constant function"""
    vc_frozen = True
    def __init__(self, n): self.n = n
    def __bool__(self): raise ValueError("The truth value of an array with more than one element is ambiguous.")
    def __eq__(self, o): raise Unsupported("comparison of arrays")
    __hash__ = None
    def __repr__(self): return f"<value of {self.n}>"


SCHEMES = ("euler", "rk2", "rk4", "leapfrog", "splitting")


def equal(a, b):
    a, b = zterm(a), zterm(b)
    if z3.is_int(a) != z3.is_int(b):
        a, b = (z3.ToReal(a) if z3.is_int(a) else a), (z3.ToReal(b) if z3.is_int(b) else b)
    return SBool(a == b)


class SpaceDim:
    vc_frozen = True
    def __init__(self, n): self.dimension = n


def load(p):
    prog = load_program(p["code"], {"numpy": grid_numpy(), "multiprocessing": mp_model()})
    return getattr(prog, p["cls"])


def keywords(E, p):
    """any subset of the keywords of the constants, any values"""
    kw = {}
    for n in p["K"]:
        how = E.choose(["real", "integer", "absent"])
        if how != "absent": kw[n] = E.real("value_" + n) if how == "real" else E.int("value_" + n)
    for n in p["C"]:
        if E.choose([True, False]): kw[n] = Value(n)
    return kw


def constants(E, p, m, kw):
    for n in p["K"] + p["C"]:
        v = getattr(m, n, None)
        if n in kw: E.prove("each constant and constant function takes the value of its keyword", v is kw[n] or (isinstance(v, (SReal, SInt)) and isinstance(kw[n], (SReal, SInt)) and equal(v, kw[n])), detail=f"{n}: {v!r}")
        else: E.prove("it is nan without keyword", isinstance(v, float) and v != v, detail=f"{n}: {v!r}")


def scheme(E, kw):
    s = E.choose([None, *SCHEMES])
    if s is not None: kw["time_scheme"] = s
    return s or "rk4"


def has_scheme(E, m, s):
    # the methods of the model: the one selected by name must be the one integrated with (C04)
    want = {"leapfrog": "_leapfrog", "rk4": "_rk4", "rk2": "_rk2", "euler": "_euler", "splitting": "_time_splitting"}[s]
    E.prove("the time scheme given by keyword is used (rk4 by default)", m.time_scheme == m.time_schemes[s], detail=f"{m.time_scheme} for {s}")


def build(E, p, dim, kw):
    """a model and its grid: shape and lengths omitted, None, tuple or list"""
    n = [E.int(f"n{i}") for i in range(dim)]; L = [E.real(f"L{i}") for i in range(dim)]
    how = E.choose(["default", "none", "tuple", "list"])
    for v in n: E.assume(v >= 1)
    for v in L: E.assume(v > 0)
    if how in ("default", "none"): n = [100] * dim
    if how == "none": kw["shape"] = None
    if how in ("tuple", "list"): kw["shape"] = (tuple if how == "tuple" else VList)(n)
    hl = E.choose(["default", "none", "tuple", "list", "integers"]) if how == "tuple" else "tuple"
    if hl in ("default", "none"): L = [1.0] * dim
    if hl == "none": kw["lengths"] = None
    if hl == "integers":
        L = [E.int(f"L{i}") for i in range(dim)]
        for v in L: E.assume(v > 0)
        kw["lengths"] = tuple(L)
    if hl in ("tuple", "list"): kw["lengths"] = (tuple if hl == "tuple" else VList)(L)
    return n, L


def grid(E, p):
    dim = len(p["coords"])
    def run():
        cls = load(p)
        what = E.choose(["grid", "constants"])
        kw = {}
        if what == "constants": kw = keywords(E, p)
        if what == "constants":
            n, L = [E.int(f"n{i}") for i in range(dim)], [E.real(f"L{i}") for i in range(dim)]
            for v in n: E.assume(v >= 1)
            for v in L: E.assume(v > 0)
            kw["shape"], kw["lengths"] = tuple(n), tuple(L)
            s = scheme(E, kw)
        else: n, L = build(E, p, dim, kw)
        given = dict(kw)
        m = cls(**kw)
        E.prove("the keywords are left alone", kw.keys() == given.keys() and all(kw[k] is given[k] for k in kw))
        if what == "constants":
            constants(E, p, m, kw); has_scheme(E, m, s)
            return
        E.prove("the coordinates are those of the system", list(m.coordinates) == list(p["coords"]))
        sh, dx, x, X = list(m.shape), list(m.dx), list(m.x), list(m.X)
        ok = len(sh) == len(dx) == len(x) == len(X) == dim
        E.prove("shape, dx, x and X have one entry per coordinate", ok)
        if not ok: return
        i = E.int("i")
        for k in range(dim):
            E.prove("shape is the number of points", equal(sh[k], n[k]))
            E.prove("dx is length/points", SBool(zreal(dx[k]) * zreal(n[k]) == zreal(L[k])) if isinstance(dx[k], Proxy) else dx[k] == L[k] / n[k], detail=f"{dx[k]!r}")
            inside = z3.And(i.z >= 0, i.z < zterm(n[k]))
            axis(E, "the axis of a coordinate is i*dx", x[k], n[k], dx[k], i, inside)
            ok = isinstance(X[k], Mesh)
            E.prove("the mesh arrays have the shape of the fields", ok and len(X[k].shape) == dim and SBool(z3.And([equal(a, b).z if isinstance(a, Proxy) or isinstance(b, Proxy) else z3.BoolVal(a == b) for a, b in zip(X[k].shape, n)])), detail=f"{getattr(X[k], 'shape', None)}")
            if ok:
                E.prove("the mesh array of a coordinate varies along its axis", X[k].axis == k or dim == 1, detail=f"{X[k].axis} for {k}")
                axis(E, "the mesh array of a coordinate takes the values of the axis", X[k].arr, n[k], dx[k], i, inside)
    return run


def zreal(v):
    z = zterm(v)
    return z3.ToReal(z) if z3.is_int(z) else z


def axis(E, name, a, n, dx, i, inside):
    ok = isinstance(a, Arr)
    E.prove(name, ok and SBool(z3.And(equal(a.n, n).z if isinstance(a.n, Proxy) or isinstance(n, Proxy) else z3.BoolVal(a.n == n), z3.Implies(inside, zreal(a.at(i)) == z3.ToReal(i.z) * zreal(dx)))), detail="" if ok else repr(a))


def good_index(E, a, n, k, i):
    """a is (i+k) modulo n, integer, of n entries"""
    return isinstance(a, Arr) and a.integer and SBool(z3.And(zterm(a.n) == zterm(n), z3.Implies(z3.And(i.z >= 0, i.z < zterm(n)), zterm(a.at(i)) == pymod(i + k, n).z)))


class Memory:
    """content of the memory of the indices, known through its invariant only"""
    def __init__(self, E, coords, n):
        self.E, self.coords, self.n, self.kept = E, coords, n, []
    def lookup(self, key):
        if not (isinstance(key, tuple) and len(key) == 2 and key[0] in self.coords and isinstance(key[1], (int, SInt))): raise Unsupported("other keys in the memory of the indices")
        c, k = key
        for (c2, k2, present, v) in self.kept:
            if c2 == c and (k2 is k or bool(SBool(zterm(k2) == zterm(k)))): return present, v
        zero = bool(SBool(zterm(k) == 0))
        present = zero or self.E.choose([True, False])
        n = self.n[self.coords.index(c)]
        v = Arr(n, lambda i: i + 0 if zero else pymod(i + k, n), True) if present else None
        self.kept.append((c, k, present, v))
        return present, v
    def nonempty(self): return True


def indices(E, p, dim):
    def make(history):
        def run():
            cls = load(p)
            n = [E.int(f"n{i}") for i in range(dim)]
            for v in n: E.assume(v >= 1)
            m = cls(shape=tuple(n))
            i = E.int("i")
            if history is None:
                d = m.__dict__.get("_index")
                if not isinstance(d, VDict) or d.symbolic(): raise Unsupported("no memory of the indices")
                for key, v in d.items():
                    if not (isinstance(key, tuple) and len(key) == 2 and key[0] in p["coords"]): raise Unsupported("other keys")
                    E.prove("the constructor keeps the right indices", good_index(E, v, n[p["coords"].index(key[0])], key[1], i))
                if not all((c, 0) in d for c in p["coords"]): raise Unsupported("no index of the grid points")
                for k in list(dict.keys(d)): dict.pop(d, k)
                d.base = Memory(E, list(p["coords"]), n)
            else:
                for h in range(history):
                    c = E.choose(list(p["coords"])); k = E.int(f"k{h}")
                    m.index(c, k)
            c = E.choose(list(p["coords"])); k = E.int("k")
            r = m.index(c, k)
            nc = n[p["coords"].index(c)]
            E.prove("index(c,k) is (i+k) modulo the number of points, whatever was requested before", good_index(E, r, nc, k, i), detail=f"axis {p['coords'].index(c)} of {dim}")
            if history is None:
                for key, v in d.log:
                    ok = isinstance(key, tuple) and len(key) == 2 and key[0] in p["coords"]
                    if not ok: raise Unsupported("other keys")
                    E.prove("what is kept remains right", good_index(E, v, n[p["coords"].index(key[0])], key[1], i))
            E.prove("the shape is left alone", list(m.shape) == n or all(a is b for a, b in zip(m.shape, n)))
        return run
    return make


def wrong(E, p, dim):
    def run():
        cls = load(p)
        what = E.choose(["shape", "lengths", "both", "scheme"])
        kw = {}
        bad = E.choose([dim + 1, dim - 1, dim + 2])
        ints = lambda k: tuple(pos(E, E.int(f"n{i}"), 1) for i in range(k)); reals = lambda k: tuple(E.real(f"L{i}") for i in range(k))
        if what in ("shape", "both"): kw["shape"] = ints(bad)
        if what in ("lengths", "both"): kw["lengths"] = reals(bad)
        if what == "shape" and E.choose([True, False]): kw["lengths"] = reals(dim)
        if what == "lengths" and E.choose([True, False]): kw["shape"] = ints(dim)
        if what == "scheme": kw["time_scheme"] = "no such scheme"
        try: cls(**kw); r = "accepted"
        except ValueError: r = "ValueError"
        except IndexError as e: r = f"IndexError {e}"
        E.prove("a wrong number of points or lengths, or an unknown scheme, is rejected with ValueError", r == "ValueError", detail=f"{r} for {what} with {bad} entries in dimension {dim}")
    return run


def pos(E, v, lo): E.assume(v >= lo); return v


def manifold(E, p, dim):
    def run():
        cls = load(p)
        kw = keywords(E, p)
        s = scheme(E, kw)
        d = E.choose([dim, dim + 1, dim - 1])
        space = SpaceDim(d)
        try: m = cls(space, **kw)
        except AssertionError: m = None
        except ValueError: m = None
        E.prove("a manifold of another dimension is rejected, one of the right dimension accepted", (m is None) == (d != dim), detail=f"{d} for {dim} coordinates")
        if m is None: return
        E.prove("the model is on the manifold given", m.base_space is space)
        constants(E, p, m, kw); has_scheme(E, m, s)
    return run


def verify(E):
    import os
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = getattr(E, "tier", "quick") == "thorough"
    E.trusted += ["numpy: arange, element-wise arithmetic, meshgrid; jinja2 and the interpreter of the repository render the programs", "finite_difference and the numpy printer (manifold trends: as in C11)"]
    E.assumptions += ["1 to 4 coordinates, up to 2 constants and constant functions; floats are real numbers"]
    builder.verify(E, True)
    progs = generate(E, seed, (40, 20, 5) if thorough else (8, 5, 1), "grids", "stubs", "systems")
    for p in progs:
        if p["kind"] == "error": E.undecided.append(f"{p['label']}: {p['error']}")
    fn = "templates of FDModelBuilder (constructor, index)"
    for p in progs:
        if not p["label"].startswith("grid"): continue
        dim = len(p["coords"])
        if p["builder"] == "FD":
            E.explore(f"{p['label']}: constructor", grid(E, p), fn)
            if not p["K"]:
                E.explore_n(f"{p['label']}: index", indices(E, p, dim), fn, sizes=(0, 1, 2) if dim < 3 else (0, 1))
                E.explore(f"{p['label']}: wrong arguments", wrong(E, p, dim), fn)
        else: E.explore(f"{p['label']}: constructor", manifold(E, p, dim), "templates of ManifoldModelBuilder (constructor)")
    for nP in (1, 2, 3):
        l = [p for p in progs if p["kind"] == "stub" and p["builder"] == "M" and len(p["P"]) == nP and p["label"].startswith("stub")]
        def one(l=l): c11.stub(E, E.choose(l))()
        if l: E.explore(f"ManifoldModelBuilder: trend of {nP} equation{'s' if nP > 1 else ''}, arbitrary right-hand sides", one, "templates of ManifoldModelBuilder (trend)")
    for p in progs:
        if p["kind"] == "system" and p["builder"] == "M": E.explore(f"ManifoldModelBuilder: {p['label']}", c11.program(E, p), "sympkf.symbolic.ManifoldModelBuilder.code")
