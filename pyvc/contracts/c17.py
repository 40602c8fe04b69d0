"""C17: names of the code, displaced fields rendered to their grid shift.

clean_latex_name: an arbitrary string is followed through one arbitrary character of it: every operation used is a homomorphism of
strings (replace of one character, translate, filtering by characters), so that the result is the concatenation of the images of
the characters; the image is compared with that of the property.
Rendering: fields with arbitrary names (symbolic strings) of 1 to 4 coordinates with arbitrary names, arbitrary integer steps (symbolic
integers); the code is a string with symbolic parts.  clean_latex_name is a callee (its contract: an unknown function of the name).
code_finite_difference works on the text of an expression: enumerated texts only (bounded)."""
import ast, itertools, re
import engine, cas
from engine import SInt, SBool, SReal, Proxy, Unsupported, VSet, VList
from rope import Rope, Name
from . import symb
import z3

SPECIAL = "\\{}^,_"


class Char(Proxy):
    """an arbitrary character: one of the special ones, or any other"""
    def __init__(self, z): self.z = z
    def __eq__(self, o):
        if isinstance(o, Char): return SBool(self.z == o.z)
        if isinstance(o, str): return SBool(self.z == z3.StringVal(zlit(o))) if len(o) == 1 else False
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.z))
    def __hash__(self): return 3
    def vc_str(self): return self
    def vc_isinstance(self, classes): return str in classes or object in classes
    def vc_type(self): return str
    def vc_in_str(self, s): return SBool(z3.Or([self.z == z3.StringVal(zlit(c)) for c in s]))


def zlit(s): return "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)


class Arbitrary(Proxy):
    """an arbitrary string, known through the image of one arbitrary character of it (the strings of the path are homomorphic)"""
    def __init__(self, image): self.image = tuple(image)          # str and Char
    def map(self, f):
        out = []
        for p in self.image:
            for c in (p if isinstance(p, str) else [p]): out.append(f(c))
        return Arbitrary([v for v in out if not (isinstance(v, str) and v == "")])
    def replace(self, old, new, *count):
        if count or not isinstance(old, str) or len(old) != 1 or not isinstance(new, str): raise Unsupported("replace that is not a homomorphism of strings")
        return self.map(lambda c: new if bool(c == old) else c)
    def translate(self, table):
        def f(c):
            for k, v in dict(table).items():
                if bool(c == chr(k)): return "" if v is None else chr(v) if isinstance(v, int) else v
            return c
        return self.map(f)
    def vc_comp(self, vc, kind, gens, elt):
        if len(gens) != 1 or kind == "set" or kind == "dict": raise Unsupported("comprehension over an arbitrary string")
        def f(c):
            for cond in gens[0][1]:
                if not bool(cond(c)): return ""
            r = elt(c)
            if not isinstance(r, (str, Char)): raise Unsupported("characters of an arbitrary string")
            return r
        return Chars(self.map(f).image)
    def vc_str(self): return self
    def vc_isinstance(self, classes): return str in classes or object in classes
    def vc_type(self): return str
    def __eq__(self, o): raise Unsupported("comparison of arbitrary strings")
    def __hash__(self): raise Unsupported("hash of an arbitrary string")
    def _no(self, *a, **k): raise Unsupported("operation on an arbitrary string")
    __len__ = __iter__ = __getitem__ = __add__ = __radd__ = __contains__ = strip = split = lower = upper = startswith = endswith = lstrip = rstrip = _no


class Chars(Proxy):
    """the characters of an arbitrary string, or strings to be joined"""
    def __init__(self, image): self.image = image
    def __iter__(self): raise Unsupported("iteration over an arbitrary string")
    def vc_joined(self, sep):
        if sep != "": raise Unsupported("join of the characters of an arbitrary string with a separator")
        return Arbitrary(self.image)


class Label:
    """something whose text is an arbitrary string"""
    def __init__(self, text): self.text = text
    def vc_str(self): return self.text
    def vc_isinstance(self, classes): return object in classes
    def vc_type(self): return Label


def spec_image(c):
    if any(bool(c == q) for q in "\\{}"): return []
    if any(bool(c == q) for q in "^,"): return ["_"]
    return [c]


def norm(image):
    return [q for p in image for q in (p if isinstance(p, str) else [p])]


def same_image(a, b):
    a, b = norm(a), norm(b)
    return len(a) == len(b) and all(x is y or (isinstance(x, str) and isinstance(y, str) and x == y) or bool(x == y) for x, y in zip(a, b))


def names(E):
    def run():
        W = symb.world()
        clean = W.load("vsympkf.symbolic.tool").clean_latex_name
        c = Char(z3.String("character"))
        E.assume(z3.Length(c.z) == 1)
        s = Arbitrary([c])
        r = clean(E.choose([s, Label(s)]))
        ok = isinstance(r, Arbitrary) and same_image(r.image, spec_image(c))
        E.prove("each character is removed, replaced or kept as stated, in order", ok, detail=f"image {getattr(r, 'image', r)} on the path {E.pathdesc()}"[:300])
        if ok:
            q = clean(r)
            E.prove("cleaning is idempotent", same_image(q.image, r.image))
    return run


def clean_py(s): return "".join("_" if c in "^," else c for c in s if c not in "\\{}")


def short_names(E):
    def run():
        clean = symb.world().load("vsympkf.symbolic.tool").clean_latex_name
        for n in range(0, 5):
            for t in itertools.product("\\{^,_aB" if n == 4 else "\\{}^,_ aB1", repeat=n):
                s = "".join(t)
                r = clean(s)
                if r != clean_py(s) or clean(r) != r: E.prove("strings up to 4 characters", False, detail=f"{s!r} -> {r!r}"); return
        E.prove("strings up to 4 characters", True)
    return run


# ---------------------------------------------------------------------- displaced fields
class Nm(Name):
    """an arbitrary name"""
    def __add__(self, o): return Nm(z3.Concat(self.z, z3.StringVal(o))) if isinstance(o, str) else Rope.concat([self, o])
    def __radd__(self, o): return Nm(z3.Concat(z3.StringVal(o), self.z)) if isinstance(o, str) else Rope.concat([o, self])
    def __getitem__(self, k):
        if isinstance(k, slice) and k.stop is None and k.step is None and isinstance(k.start, int) and k.start >= 0: return Nm(z3.SubString(self.z, k.start, z3.Length(self.z) - k.start))
        if isinstance(k, int) and k >= 0: return Nm(z3.SubString(self.z, k, 1))
        raise Unsupported("slice of an arbitrary name")
    def startswith(self, p): return SBool(z3.PrefixOf(z3.StringVal(p), self.z))
    def __hash__(self): return 7


class Cleaned(Proxy):
    """clean_latex_name(name)"""
    def __init__(self, z): self.z = z
    def __add__(self, o): return Rope.concat([self, o])
    def __radd__(self, o): return Rope.concat([o, self])
    def vc_isinstance(self, classes): return str in classes or object in classes
    def vc_type(self): return str
    def vc_str(self): return self
    def __eq__(self, o): return SBool(self.z == o.z) if isinstance(o, Cleaned) else False
    def __hash__(self): return 11


class Expr_:
    vc_frozen = True
    kinds = ("Expr", "Basic")
    def vc_isinstance(self, classes):
        return any(k in self.kinds for c in classes for k in cas.kinds_of(c)) or object in classes


class Sy(Expr_):
    """symbol with an arbitrary name"""
    kinds = ("Symbol", "Expr", "Basic")
    def __init__(self, name): self.nm = Nm(z3.StringVal(name)) if isinstance(name, str) else name
    @property
    def name(self): return self.nm
    def vc_str(self): return self.nm
    def __eq__(self, o): return SBool(self.nm.z == o.nm.z) if isinstance(o, Sy) else False
    def __ne__(self, o): return SBool(self.nm.z != o.nm.z) if isinstance(o, Sy) else True
    def __hash__(self): return 5
    def __repr__(self): return f"<{self.nm.z}>"


class SymbolClass:
    vc_kinds = ("Symbol",)
    def __new__(cls, name, **k): return Sy(name)


class Step(SInt):
    """sympy Integer with an arbitrary value"""
    __slots__ = ()
    kinds = ("Integer", "Rational", "Number", "Expr", "Basic")
    def vc_isinstance(self, classes): return any(k in self.kinds for c in classes for k in cas.kinds_of(c)) or object in classes
    def _bin(self, o, f, rev=False):
        r = SInt._bin(self, o, f, rev)
        return Step(r.z) if type(r) is SInt else Frac(r.z) if type(r) is SReal else r
    def __neg__(self): return Step(-self.z)
    def __abs__(self): return Step(z3.If(self.z >= 0, self.z, -self.z))
    is_integer = is_Integer = is_Rational = is_number = is_real = is_Number = True
    @property
    def is_zero(self): return bool(SBool(self.z == 0))
    @property
    def is_negative(self): return bool(SBool(self.z < 0))
    @property
    def is_positive(self): return bool(SBool(self.z > 0))
    p = property(lambda s: s)
    q = 1


class Frac(SReal):
    """sympy Rational with an arbitrary value"""
    __slots__ = ()
    def vc_isinstance(self, classes):
        for c in classes:
            for k in cas.kinds_of(c):
                if k == "Integer" and bool(SBool(z3.IsInt(self.z))): return True
                if k in ("Rational", "Number", "Expr", "Basic"): return True
        return object in classes
    def _bin(self, o, f, rev=False):
        r = SReal._bin(self, o, f, rev)
        return Frac(r.z) if type(r) is SReal else r
    @property
    def is_integer(self): return bool(SBool(z3.IsInt(self.z)))
    is_Integer = is_integer
    is_Rational = is_number = is_real = True
    def vc_str(self): return Rope.concat([Proxy1(self.z)])


class Proxy1(Proxy):
    def __init__(self, z): self.z = z


class Arg(Expr_):
    """coordinate + step * increment"""
    def __init__(self, x, dx, k): self.x, self.dx, self.k = x, dx, k
    @property
    def free_symbols(self):
        if bool(self.k == 0): return VSet([self.x])
        return VSet([self.x, self.dx] if engine.CUR.choose([0, 1]) else [self.dx, self.x])
    def atoms(self, *types):
        if len(types) != 1 or "Symbol" not in cas.kinds_of(types[0]): raise Unsupported("atoms of an argument")
        return self.free_symbols
    def coeff(self, s, *a):
        if a: raise Unsupported("coeff")
        if bool(s == self.dx): return self.k
        return Step(z3.IntVal(1)) if bool(s == self.x) else Step(z3.IntVal(0))
    def vc_str(self): return Rope.concat([Proxy1(self.k.z)])
    @property
    def is_Symbol(self): return bool(self.k == 0)
    def vc_isinstance(self, classes):
        if any("Symbol" in cas.kinds_of(c) for c in classes): return bool(self.k == 0)
        return Expr_.vc_isinstance(self, classes)


class Func:
    vc_frozen = True
    def __init__(self, name): self.nm = name
    @property
    def name(self): return self.nm
    __name__ = name
    def vc_str(self): return self.nm
    def vc_isinstance(self, classes): return object in classes
    def __call__(self, *a): raise Unsupported("another value of a field")


class Field(Expr_):
    kinds = ("AppliedUndef", "Function", "Expr", "Basic")
    is_Function = True
    def __init__(self, name, args): self.func, self.args = Func(name), tuple(args)
    def atoms(self, *types):
        if len(types) == 1 and "AppliedUndef" in cas.kinds_of(types[0]): return VSet([self])
        raise Unsupported("atoms of a field")
    def vc_str(self): return Rope.concat([Proxy1(z3.StringVal("a field"))])
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o


class SomeExpr(Expr_):
    """an expression that is no function"""
    args = ()
    def vc_str(self): return "an expression"


class Sum3(Expr_):
    """an argument with three symbols, or none"""
    def __init__(self, names): self.names = names
    @property
    def free_symbols(self): return VSet([Sy(n) for n in self.names])
    def atoms(self, *types): return self.free_symbols
    def coeff(self, s): return Step(z3.IntVal(1))
    def vc_str(self): return "an argument"


CLEAN = z3.Function("clean_latex_name", z3.StringSort(), z3.StringSort())


def finite_difference_module():
    W = symb.world()
    FD = W.load("vsympkf.symbolic.finite_difference")
    U = W.load("vsympkf.symbolic.util"); tool = W.load("vsympkf.symbolic.tool")
    W.models["sympy"].Symbol = SymbolClass
    for m in (FD, U):
        if "Symbol" in vars(m): m.Symbol = SymbolClass
    def clean(label):
        if isinstance(label, str): return clean_py(label)
        s = label.vc_str() if hasattr(label, "vc_str") else label
        if isinstance(s, (Cleaned, Rope)): raise Unsupported("cleaning of a name that is clean")
        return Cleaned(CLEAN(s.z))
    for m in (FD, U, tool):
        if "clean_latex_name" in vars(m): m.clean_latex_name = clean
    return W, FD, U


def arbitrary_field(E, d, time, off=None, whole=False):
    """u(t + k0*dt, c1 + k1*dc1, ..) with arbitrary names; off: index of a step that is no integer"""
    x, k = [], []
    for j in range(d + bool(time)):
        if time and j == 0: n = Nm(z3.StringVal("t"))
        else:
            n = Nm(z3.String(f"coordinate{j}"))
            E.assume(z3.And(n.z != z3.StringVal("t"), z3.Length(n.z) > 0))
            for o in x: E.assume(n.z != o.nm.z)
        x.append(Sy(n))
        if off == j:
            s = Frac(z3.Real(f"step{j}")); E.assume(z3.Not(z3.IsInt(s.z)))
        else: s = Step(z3.Int(f"step{j}"))
        k.append(s)
    dx = [Sy("d" + s.nm) for s in x]
    return Field(Nm(z3.String("field")), [Arg(a, b, c) for a, b, c in zip(x, dx, k)]), x, dx, k


def same_code(E, name, got, want):
    def layout(r):          # (blanks and the kind of quotes are left to the writer)
        return Rope([p.replace(" ", "").replace('"', "'") if isinstance(p, str) else p for p in (r.parts if isinstance(r, Rope) else (r,))]).parts
    g, w = layout(got), layout(want)
    conds = []
    ok = len(g) == len(w)
    for a, b in zip(g, w):
        if isinstance(a, str) or isinstance(b, str): ok = ok and isinstance(a, str) and isinstance(b, str) and a == b
        else: conds.append(a.z == b.z if getattr(a, "z", None) is not None and a.z.sort() == b.z.sort() else z3.BoolVal(False))
    E.prove(name, z3.And(conds) if ok and conds else ok, detail=f"{show(got)} for {show(want)}"[:600])


def show(r): return "".join(p if isinstance(p, str) else f"<{getattr(p, 'z', p)}>" for p in (r.parts if isinstance(r, Rope) else (r,)))


def expected(E, x, k, time, rule):
    parts = [Cleaned(CLEAN(z3.String("field")))]
    if time:
        if bool(k[0] > 0): parts += ["p", k[0]]
        elif bool(k[0] < 0): parts += ["m", -k[0]]
        x, k = x[1:], k[1:]
    if any(bool(v != 0) for v in k):
        parts.append("[np.ix_(")
        for j, (c, v) in enumerate(zip(x, k)):
            if j: parts.append(",")
            parts.append(rule(Rope.concat(["'", Cleaned(CLEAN(c.nm.z)), "'"]), v))
        parts.append(")]")
    return Rope.concat(parts)


def rule(c, step): return Rope.concat(["self.index(", c, ",", step, ")"])
def other_rule(c, step): return Rope.concat(["<", step, "|", c, ">"])


def coordinates(E, d, time):
    def run():
        W, FD, U = finite_difference_module()
        off = E.choose([None] + list(range(d + time)))
        F, x, dx, k = arbitrary_field(E, d, time, off)
        gx, gdx = U.get_function_coordinates(F)
        ok = len(gx) == len(x) and len(gdx) == len(dx)
        E.prove("the coordinates, in order", z3.And([a.nm.z == b.nm.z for a, b in zip(gx, x)]) if ok else False)
        E.prove("the increments are 'd' followed by the name of their coordinate", z3.And([a.nm.z == b.nm.z for a, b in zip(gdx, dx)]) if ok else False)
        D = E.choose([lambda: FD.get_displacement(F), lambda: FD.get_displacement(F, dx)])()
        E.prove("the displacement gives the number of increments of each coordinate", z3.And([engine.zterm(a) == b.z for a, b in zip(D, k)]) if len(D) == len(k) else False, detail=str(D))
    return run


def rejects(E):
    def run():
        W, FD, U = finite_difference_module()
        case = E.choose(["no function", "three symbols"])
        f = SomeExpr() if case == "no function" else Field(Nm(z3.StringVal("u")), [Sum3(["a", "b", "c"])])
        try:
            U.get_function_coordinates(f)
            E.prove("ValueError for something that is no function of coordinates", False, detail=case)
        except ValueError: E.prove("ValueError for something that is no function of coordinates", True)
    return run


def callees(FD, F, x, dx, k):
    """the coordinates and the displacement of a field: the contracts proved for them, not their bodies"""
    def get_function_coordinates(f):
        if f is not F: raise Unsupported("another field")
        return VList(list(x)), VList(list(dx))
    def get_displacement(f, increments=None):
        if f is not F: raise Unsupported("another field")
        if increments is not None and not (len(increments) == len(dx) and all(a is b for a, b in zip(increments, dx))): raise Unsupported("other increments")
        return tuple(k)
    for n in ("get_function_coordinates", "get_displacement"):
        if n in vars(FD): setattr(FD, n, locals()[n])


def render(E, d, time, how):
    def run():
        W, FD, U = finite_difference_module()
        F, x, dx, k = arbitrary_field(E, d, time)
        callees(FD, F, x, dx, k)
        if how == "function":
            r = E.choose([rule, other_rule])
            code = FD.code_regular_function(F, r)
        else:
            r = rule
            code = FD.Code(F)._render_function(F)
        same_code(E, "name, tag of the time shift, index expression of the spatial shift", code, expected(E, x, k, time, r))
    return run


def offgrid(E, d, time, how):
    def run():
        W, FD, U = finite_difference_module()
        off = E.choose(list(range(d + time)))
        F, x, dx, k = arbitrary_field(E, d, time, off)
        callees(FD, F, x, dx, k)
        try:
            code = FD.code_regular_function(F, rule) if how == "function" else FD.Code(F)._render_function(F)
            E.prove("a displacement off the regular grid is rejected", False, detail=f"step {off} of {d} coordinates: {show(code)}"[:300])
        except Exception as e: E.prove("a displacement off the regular grid is rejected", True)
    return run


# ---------------------------------------------------------------------- text of expressions (bounded)
class Txt(Expr_):
    """an expression known by its text and its fields"""
    def __init__(self, text, fields): self.text, self.fields = text, fields
    def atoms(self, *types):
        if len(types) == 1 and "AppliedUndef" in cas.kinds_of(types[0]):
            return VSet(self.fields if engine.CUR.choose([0, 1]) else self.fields[::-1])
        raise Unsupported("atoms of an expression")
    def vc_str(self): return self.text
    def __str__(self): return self.text


def concrete_field(FnText, name, coords, steps):
    from fractions import Fraction
    args, txt = [], []
    for c, k in zip(coords, steps):
        args.append(cas.sym(c) + cas.num(k) * cas.sym("d" + c))
        txt.append(c if not k else ("" if k == 1 else "-" if k == -1 else f"{k}*") + f"d{c} + {c}")
    return Applied(name, args, f"{name}({', '.join(txt)})")


class Applied(Expr_):
    kinds = ("AppliedUndef", "Function", "Expr", "Basic")
    def __init__(self, name, args, text): self.func, self.args, self.text = cas.FnSym(name), tuple(args), text
    def vc_str(self): return self.text
    def __str__(self): return self.text
    def __hash__(self): return hash(self.text)
    def __eq__(self, o): return isinstance(o, Applied) and o.text == self.text


def texts(E):
    GRIDS = [(("t", "x"), [(0, 1), (0, 0), (0, -2)]), (("x",), [(1,), (0,), (-1,)]), (("x", "d"), [(1, -1), (0, 0), (0, 2)]), (("t", "\\lambda", "s"), [(1, 0, 1), (-2, 0, 0), (0, 0, 0)])]
    FIELDS = [("u", "\\mu"), ("u", "uu"), ("h", "\\rho_{h}"), ("{V_{u}}", "u")]
    FORMS = ["{0} + {1}", "-{0}*{1}**2/d{c} + width/(2*d{c}**2)", "k_d{c}*({1} - {0})/(2*d{c}) + sin({0})*d{c}w", "({2}*{1} + {0})*exp(-{2})/d{c}"]
    def run():
        W = symb.world()
        FD = W.load("vsympkf.symbolic.finite_difference")
        coords, steps = E.choose(GRIDS)
        a, b = E.choose(FIELDS)
        k1, k2 = E.choose(steps), E.choose(steps)
        form = E.choose(FORMS)
        f, g, h = concrete_field(None, a, coords, k1), concrete_field(None, b, coords, k2), concrete_field(None, b, coords, k1)
        c = coords[-1]
        fields = list(dict.fromkeys([f, g] + ([h] if "{2}" in form else [])))
        text = form.replace("{0}", f.text).replace("{1}", g.text).replace("{2}", h.text).replace("{c}", c)
        def code(F, ks):
            s, xs = clean_py(F.func.name), coords
            if coords[0] == "t":
                s += f"p{ks[0]}" if ks[0] > 0 else f"m{-ks[0]}" if ks[0] < 0 else ""
                ks, xs = ks[1:], coords[1:]
            return s + ("[np.ix_(" + ",".join(f"S('{clean_py(q)}',{v})" for q, v in zip(xs, ks)) + ")]" if any(ks) else "")
        FORM = re.sub(r"(?<!\w)d\{c\}(?!\w)", "{D}", form)
        want = FORM.replace("{0}", code(f, k1)).replace("{1}", code(g, k2)).replace("{2}", code(h, k1)).replace("{D}", f"DX('{clean_py(c)}')").replace("{c}", clean_py(c))
        if c == "\\lambda" or "\\" in text.replace(f.text, "").replace(g.text, "").replace(h.text, ""): raise engine.PathDone()
        e = Txt(text, fields)
        got = FD.code_finite_difference(e, lambda q, v: f"S({q},{v})", lambda q: f"DX('{clean_py(str(q))}')")
        try: ok = ast.dump(ast.parse(got)) == ast.dump(ast.parse(want))
        except SyntaxError: ok = False
        E.prove("the code of an expression replaces exactly the fields and the increments", ok, detail=f"{got} instead of {want} for {text}"[:600])
    return run


def verify(E):
    E.trusted += ["str.replace of one character, translate, join (homomorphisms of strings)", "sympy: atoms(Symbol), coeff, the text of symbols", "z3: theory of strings and integers"]
    E.assumptions += ["coordinates and fields have arbitrary distinct names, 1 to 8 coordinates (get_function_coordinates: up to 3 arguments, 6 in the thorough tier), time first when there is time (shape bound)",
                      "the text of expressions is followed on enumerated texts only (bounded, and by the oracle)"]
    m = "sympkf.symbolic."
    if not E.explore("clean_latex_name [arbitrary strings]", names(E), m + "tool.clean_latex_name"):
        E.explore_bounded("clean_latex_name [bounded: strings up to 4 characters]", short_names(E), m + "tool.clean_latex_name")
    E.explore("get_function_coordinates [rejections]", rejects(E), m + "util.get_function_coordinates")
    for d in range(1, 9):
        for time in (0, 1):
            tag = f"[{d} coordinates{' and time' if time else ''}]"
            if d + time <= 3 or E.tier != "quick" and d <= 5: E.explore(f"get_function_coordinates, get_displacement {tag}", coordinates(E, d, time), m + "util.get_function_coordinates")
            for how, fn in (("function", "finite_difference.code_regular_function"), ("Code", "finite_difference.Code._render_function")):
                E.explore(f"{fn} {tag}", render(E, d, time, how), m + fn)
                E.explore(f"{fn} off the grid {tag}", offgrid(E, d, time, how), m + fn)
    E.functions.append(m + "finite_difference.get_displacement")
    E.explore_bounded("code_finite_difference [bounded: enumerated texts]", texts(E), m + "finite_difference.code_finite_difference")
