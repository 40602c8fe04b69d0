"""Loads the modules of /repo/src under the package name `vsympkf`, instrumented mechanically from their current source.

What is rewritten (nothing else is touched):
  for T in IT: B         ->  for tok in _vc_.loop(id, IT): names = _vc_.head(..) when the loop is cut; T = tok.value; B
                             (concrete iterables: plain iteration; symbolic ones: an arbitrary iteration, or the exit)
  while C: B             ->  for tok in _vc_.wloop(id): [names = _vc_.head(..)]; if not C: break; B   (only in functions
                             whose contract cuts while loops; unrolled otherwise)
  comprehensions         ->  _vc_.comp(kind, [(iterable, conditions)], element) with the same parts as lambdas
  {} [] set displays, f-strings, 'sep'.join, calls with *args, `in` -> _vc_.mkdict/mklist/mkset/fstr/strmethod/call/contains,
                             the same operation on containers that may hold symbolic parts
  except:                ->  except Exception:  (the control exceptions of the verifier are no exceptions of the program)
  and/or/not, if, assert, arithmetic, attribute access, calls, try/raise/return ... are executed as they are by Python
  (truth values of symbolic conditions are decided path by path by the engine).
Dropped: nothing of the function bodies.  Import statements are resolved to the trusted models of sympy/numpy/... given by
the contract, annotations and docstrings are kept.
"""
import ast, builtins, importlib, os, sys, types
from engine import SRC, Loops, Proxy, SInt, SReal, SBool, SNum, SVal, SymSeq, VDict, VList, VSet, Unsupported, Poison, UNDEF
import engine, z3

PKG = os.path.join(SRC, "sympkf")


def stores(nodes):
    names = []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names: names.append(n.id)
        def visit_FunctionDef(self, n):
            if n.name not in names: names.append(n.name)
        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Import(self, n):
            for a in n.names:
                x = (a.asname or a.name).split(".")[0]
                if x not in names: names.append(x)
        visit_ImportFrom = visit_Import
        def visit_ExceptHandler(self, n):
            if n.name and n.name not in names: names.append(n.name)
            self.generic_visit(n)
    v = V()
    for n in nodes: v.visit(n)
    return [n for n in names if not n.startswith("_vc_")]


def N(id, ctx=None): return ast.Name(id=id, ctx=ctx or ast.Load())
def call(attr, *args): return ast.Call(func=ast.Attribute(value=N("_vc_"), attr=attr, ctx=ast.Load()), args=list(args), keywords=[])
def lam(params, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body)


class Instrument(ast.NodeTransformer):
    def __init__(self, module, whiles=()):
        self.module, self.fn, self.whiles = module, [], set(whiles)
        self.count = {}

    def ident(self, kind):
        q = ".".join(self.fn) or "<module>"
        k = self.count.get((q, kind), 0); self.count[(q, kind)] = k + 1
        return f"{q}:{kind}{k}"

    def visit_ClassDef(self, n):
        self.fn.append(n.name); self.generic_visit(n); self.fn.pop(); return n
    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        # defaults and decorators are evaluated outside, harmless to instrument the same way
        self.generic_visit(n); self.fn.pop()
        return n
    def visit_AnnAssign(self, n): self.generic_visit(n); return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None: n.type = N("Exception")          # (bare except: the exceptions of the verifier itself pass through)
        return n

    def visit_For(self, n):
        ident = self.ident("for")
        names = stores(n.body)
        tnames = stores([n.target])
        self.generic_visit(n)
        tok = f"_vc_tok{self.count.setdefault('tok', 0)}"; self.count["tok"] += 1
        pre = []
        pre.append(ast.If(test=ast.Attribute(value=N(tok), attr="loop", ctx=ast.Load()), body=
            ([ast.Assign(targets=[ast.Tuple(elts=[N(x, ast.Store()) for x in names], ctx=ast.Store())],
                         value=call("head", N(tok), ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load()), ast.Call(func=N("locals"), args=[], keywords=[])))]
             if names else [ast.Expr(call("head", N(tok), ast.Tuple(elts=[], ctx=ast.Load()), ast.Call(func=N("locals"), args=[], keywords=[])))])
            + [ast.If(test=ast.Attribute(value=N(tok), attr="exit", ctx=ast.Load()), body=[ast.Continue()], orelse=[])], orelse=[]))
        pre.append(ast.Assign(targets=[n.target], value=ast.Attribute(value=N(tok), attr="value", ctx=ast.Load())))
        return ast.For(target=N(tok, ast.Store()), iter=call("loop", ast.Constant(ident), n.iter), body=pre + n.body, orelse=n.orelse, type_comment=None)

    def visit_While(self, n):
        ident = self.ident("while")
        names = stores(n.body)
        self.generic_visit(n)
        if n.orelse: return n
        tok = f"_vc_tok{self.count.setdefault('tok', 0)}"; self.count["tok"] += 1
        head = ast.If(test=ast.Attribute(value=N(tok), attr="loop", ctx=ast.Load()), body=
            [ast.Assign(targets=[ast.Tuple(elts=[N(x, ast.Store()) for x in names], ctx=ast.Store())],
                         value=call("head", N(tok), ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load()), ast.Call(func=N("locals"), args=[], keywords=[])))
             if names else ast.Expr(call("head", N(tok), ast.Tuple(elts=[], ctx=ast.Load()), ast.Call(func=N("locals"), args=[], keywords=[])))], orelse=[])
        guard = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        return ast.For(target=N(tok, ast.Store()), iter=call("wloop", ast.Constant(ident)), body=[head, guard] + n.body, orelse=[], type_comment=None)

    # comprehensions
    def _comp(self, n, kind, elt):
        gens, params, unpack = [], [], []
        # every target is bound to one parameter and unpacked by an inner lambda
        def bind(body, upto):
            """lambda over raw elements -> named variables"""
            # nested: (lambda names: body)(*unpack(raw, pattern))
            b = body
            for p, t in reversed(list(zip(params[:upto], unpack[:upto]))):
                names, pattern = t
                b = ast.Call(func=lam(names, b), args=[ast.Starred(value=call("unpack", N(p), pattern), ctx=ast.Load())], keywords=[])
            return lam(params[:upto], b)
        for j, g in enumerate(n.generators):
            if g.is_async: return n
            it = bind(g.iter, j)
            p = f"_vc_c{len(params)}_{n.lineno}_{n.col_offset}"
            names = []
            def pat(t):
                if isinstance(t, ast.Name): names.append(t.id); return ast.Constant(None)
                if isinstance(t, (ast.Tuple, ast.List)): return ast.Tuple(elts=[pat(x) for x in t.elts], ctx=ast.Load())
                raise NotImplementedError
            try: pattern = pat(g.target)
            except NotImplementedError: return n
            params.append(p); unpack.append((names, pattern))
            conds = [bind(c, j + 1) for c in g.ifs]
            gens.append(ast.Tuple(elts=[it, ast.List(elts=conds, ctx=ast.Load())], ctx=ast.Load()))
        return call("comp", ast.Constant(kind), ast.List(elts=gens, ctx=ast.Load()), bind(elt, len(params)))

    def visit_ListComp(self, n): self.generic_visit(n); return ast.copy_location(self._comp(n, "list", n.elt), n)
    def visit_SetComp(self, n): self.generic_visit(n); return ast.copy_location(self._comp(n, "set", n.elt), n)
    def visit_GeneratorExp(self, n): self.generic_visit(n); return ast.copy_location(self._comp(n, "gen", n.elt), n)
    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._comp(n, "dict", ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())), n)

    # displays
    def visit_Dict(self, n):
        self.generic_visit(n)
        pairs = [ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)]
        return call("mkdict", ast.List(elts=pairs, ctx=ast.Load()))
    def visit_List(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load): return n
        return call("mklist", n)
    def visit_Set(self, n):
        self.generic_visit(n)
        return call("mkset", ast.List(elts=n.elts, ctx=ast.Load()))

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            return call("strmethod", n.func.value, ast.Constant(n.func.attr), ast.List(elts=n.args, ctx=ast.Load()),
                        ast.Dict(keys=[ast.Constant(k.arg) for k in n.keywords], values=[k.value for k in n.keywords]))
        if any(isinstance(a, ast.Starred) for a in n.args):
            args = ast.List(elts=[ast.Tuple(elts=[ast.Constant(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a], ctx=ast.Load()) for a in n.args], ctx=ast.Load())
            kw = ast.Dict(keys=[ast.Constant(k.arg) if k.arg else None for k in n.keywords], values=[k.value for k in n.keywords])
            return call("call", n.func, args, kw)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = call("contains", n.left, n.comparators[0])
            return ast.UnaryOp(op=ast.Not(), operand=c) if isinstance(n.ops[0], ast.NotIn) else c
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            if any(isinstance(v, ast.Constant) for v in (n.left, n.comparators[0])): return n
            c = call("same", n.left, n.comparators[0])
            return ast.UnaryOp(op=ast.Not(), operand=c) if isinstance(n.ops[0], ast.IsNot) else c
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if v.conversion not in (-1, 115) or v.format_spec is not None: return n
                parts.append(v.value)
            else: parts.append(v)
        return call("fstr", ast.List(elts=parts, ctx=ast.Load()))


CODE = {}       # instrumented code of the sources met (same source, same code)


class World:
    """a set of instrumented modules with given models for the external libraries"""
    def __init__(self, models, overrides=None, inplace=None):
        self.vc = Loops()
        self.models = dict(models)            # top-level name -> module-like object
        self.modules = {}
        self.overrides = overrides or {}      # builtins overrides
        self.functions = {}

    def builtins(self):
        b = dict(vars(builtins))
        b.update(vc_builtins(self))
        b.update(self.overrides)
        b["__import__"] = self.do_import
        return b

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals["__package__"].split(".")
            base = pk[:len(pk) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.exists(full + "." + f): setattr(m, f, self.load(full + "." + f))
            return m
        top = name.split(".")[0]
        if top == "sympkf":
            m = self.load("v" + name)
            return m if fromlist else self.load("vsympkf")
        if top in self.models:
            m = self.models[top]
            if fromlist:
                for part in name.split(".")[1:]: m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def path(self, full):
        parts = full.split(".")[1:]
        p = os.path.join(PKG, *parts)
        return (os.path.join(p, "__init__.py"), True) if os.path.isdir(p) else (p + ".py", False)
    def exists(self, full): return os.path.exists(self.path(full)[0])

    def load(self, full):
        if full in self.modules: return self.modules[full]
        path, pkg = self.path(full)
        m = types.ModuleType(full)
        m.__file__, m.__package__ = path, full if pkg else full.rsplit(".", 1)[0]
        m.__dict__["__builtins__"] = self.builtins()
        m.__dict__["_vc_"] = self.vc
        self.modules[full] = m
        if pkg and os.path.basename(path) == "__init__.py":
            # packages are namespaces here: their re-exports are resolved on demand
            m.__path__ = []
            world = self
            src = open(path).read()
            class Lazy(types.ModuleType):
                def __getattr__(s, k):
                    for node in ast.parse(src).body:
                        if isinstance(node, ast.ImportFrom) and node.level:
                            for a in node.names:
                                if (a.asname or a.name) == k or a.name == "*":
                                    sub = world.load(full + "." + node.module if node.module else full + "." + a.name)
                                    if hasattr(sub, k): return getattr(sub, k)
                    if world.exists(full + "." + k): return world.load(full + "." + k)
                    raise AttributeError(k)
            m.__class__ = Lazy
            return m
        src = open(path).read()
        code = CODE.get((full, path, src))
        if code is None:
            tree = ast.parse(src, path)
            tree = Instrument(full).visit(tree)
            ast.fix_missing_locations(tree)
            code = CODE[full, path, src] = compile(tree, path, "exec")
        exec(code, m.__dict__)
        return m


# ---------------------------------------------------------------------- builtins that know symbolic values
def vc_builtins(world):
    vc = world.vc
    def sym(x): return vc.as_symbolic(x)

    def vlen(x):
        if isinstance(x, (SymSeq,)): return x.length
        if isinstance(x, VList) and x.symbolic(): return x.slen()
        if hasattr(x, "vc_len"): return x.vc_len()
        return len(x)

    def vrange(*a):
        if any(isinstance(v, SInt) for v in a):
            if len(a) == 1: lo, hi, st = 0, a[0], 1
            elif len(a) == 2: (lo, hi), st = a, 1
            else: lo, hi, st = a
            if st != 1: raise Unsupported("symbolic range with a step")
            n = hi - lo
            if isinstance(n, SInt): n = SInt(z3.simplify(z3.If(n.z > 0, n.z, z3.IntVal(0))))
            return SymSeq(n, lambda i: lo + i, "range")
        return range(*a)

    def vzip(*its):
        ss = [sym(i) for i in its]
        if all(s is None for s in ss): return zip(*its)
        seqs = [s if s is not None else lift(i) for s, i in zip(ss, its)]
        n = seqs[0].length
        for s in seqs[1:]:
            a, b = engine.zterm(n), engine.zterm(s.length)
            if engine.CUR is not None and engine.CUR.holds(a == b): continue
            n = SInt(z3.simplify(z3.If(a < b, a, b)))
        return SymSeq(n, lambda i: tuple(s.get(i) for s in seqs), "zip")

    def lift(i):
        l = list(i)
        def get(k):
            if isinstance(k, int): return l[k]
            for j, v in enumerate(l):
                if bool(k == j): return v
            raise IndexError
        return SymSeq(SInt(z3.IntVal(len(l))), get)

    def venumerate(it, start=0):
        s = sym(it)
        if s is None: return enumerate(it, start)
        return SymSeq(s.length, lambda i: (i + start, s.get(i)), "enumerate")

    def visinstance(x, c):
        cs = c if isinstance(c, tuple) else (c,)
        cs = [getattr(k, "vc_class", k) for k in cs]
        flat = []
        for k in cs: flat += list(k) if isinstance(k, tuple) else [k]
        if hasattr(type(x), "vc_isinstance"): return x.vc_isinstance(tuple(flat))
        if isinstance(x, SymSeq): return any(k is {"list": list, "tuple": tuple}.get(x.kind) for k in flat)
        if isinstance(x, SInt): return any(k in (int, object) for k in flat)
        if isinstance(x, SReal): return any(k in (float, object) for k in flat)
        if isinstance(x, SBool): return any(k in (bool, int, object) for k in flat)
        return any(isinstance(k, type) and isinstance(x, k) for k in flat)

    def vtype(x, *a):
        if a: return type(x, *a)
        r = vtype1(x)
        return types_.get(r, r) if isinstance(r, type) else r
    types_ = {}
    def vtype1(x):
        if hasattr(type(x), "vc_type"): return x.vc_type()
        if isinstance(x, SReal): return float
        if isinstance(x, SInt): return int
        if isinstance(x, VDict): return dict
        if isinstance(x, VList): return list
        if isinstance(x, VSet): return set
        if isinstance(x, SymSeq): return {"list": list, "tuple": tuple}.get(x.kind, SymSeq)
        return type(x)

    def vany(it):
        s = sym(it)
        if s is None: return any(it)
        return vc.quantified(s, True)
    def vall(it):
        s = sym(it)
        if s is None: return all(it)
        return vc.quantified(s, False)
    def vsum(it, start=0):
        s = sym(it)
        if s is None:
            r = start
            for v in it: r = r + v
            return r
        if hasattr(s, "vc_sum"): return s.vc_sum(start)
        raise Unsupported("sum over a symbolic sequence")

    def vmax(*a, **k): return vextreme(max, a, k, lambda x, y: x > y)
    def vmin(*a, **k): return vextreme(min, a, k, lambda x, y: x < y)
    def vextreme(f, a, k, better):
        if len(a) == 1:
            if hasattr(a[0], "vc_extreme"): return a[0].vc_extreme(f, k)
            if sym(a[0]) is not None: raise Unsupported("max/min of a symbolic sequence")
            l = list(a[0])
        else: l = list(a)
        if any(isinstance(v, SNum) for v in l) and not k:
            r = l[0]
            for v in l[1:]:
                if bool(better(v, r)): r = v
            return r
        return f(l, **k) if len(a) == 1 else f(*a, **k)

    class Meta(type):
        def __instancecheck__(cls, x): return visinstance(x, cls.vc_class)
        def __eq__(cls, o): return o is cls or o is cls.vc_class
        def __hash__(cls): return hash(cls.vc_class)

    def typed(name, real, make):
        m = Meta(name, (), {"vc_class": real, "__new__": lambda cls, *a, **k: make(*a, **k)})
        types_[real] = m
        return m

    def mk_list(*a):
        if a and sym(a[0]) is not None: return VList(sym(a[0]))
        return VList(*[list(x) if not isinstance(x, (VList, SymSeq)) else x for x in a])
    def mk_tuple(*a):
        if a:
            s = sym(a[0])
            if s is not None: return SymSeq(s.length, s.get, "tuple")
        return tuple(*a)
    def mk_dict(*a, **k): return VDict(*a, **k)
    def mk_set(*a): return VSet(*a)
    def mk_int(x=0, *a):
        if isinstance(x, SInt): return x
        if isinstance(x, SReal): return SInt(z3.If(x.z >= 0, z3.ToInt(x.z), -z3.ToInt(-x.z)))
        return int(x, *a)
    def mk_float(x=0.):
        if isinstance(x, SReal): return x
        if isinstance(x, SInt): return SReal(z3.ToReal(x.z))
        return float(x)
    def mk_str(x="", *a):
        if hasattr(x, "vc_str"): return x.vc_str()
        if isinstance(x, Proxy): raise Unsupported("str of a symbolic value")
        return str(x, *a)
    def vsorted(it, **k):
        if sym(it) is not None: raise Unsupported("sorted of a symbolic sequence")
        return VList(sorted(it, **k))
    def viter(x, *a):
        if sym(x) is not None: raise Unsupported("iter of a symbolic sequence")
        return iter(x, *a)
    def vlocals(): 
        f = sys._getframe(1); return dict(f.f_locals)
    def vprint(*a, **k): pass
    return {"len": vlen, "range": vrange, "zip": vzip, "enumerate": venumerate, "isinstance": visinstance, "type": typeproxy(vtype),
            "any": vany, "all": vall, "sum": vsum, "max": vmax, "min": vmin, "sorted": vsorted, "iter": viter,
            "list": typed("list", list, mk_list), "tuple": typed("tuple", tuple, mk_tuple), "dict": typed("dict", dict, mk_dict),
            "set": typed("set", set, mk_set), "int": typed("int", int, mk_int), "float": typed("float", float, mk_float),
            "str": typed("str", str, mk_str), "print": vprint}


def typeproxy(vtype):
    class T(type):
        def __call__(cls, *a): return vtype(*a)
        def __instancecheck__(cls, x): return isinstance(x, type)
    class typ(metaclass=T):
        vc_class = type
    return typ
