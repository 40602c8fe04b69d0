"""strings with symbolic parts"""
import engine
from engine import Proxy, Unsupported, SBool
import z3


LITERALS = []                # strings of interest, set by the contracts


class Name(Proxy):
    """an arbitrary string"""
    def __init__(self, z): self.z = z
    def __eq__(self, o):
        if isinstance(o, Name): return SBool(self.z == o.z)
        if isinstance(o, str): return SBool(self.z == z3.StringVal(o))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.z))
    def __hash__(self): raise Unsupported("hash of an arbitrary string")
    def __str__(self): return "<arbitrary string>"
    def __repr__(self): return "<arbitrary string>"
    def vc_isinstance(self, classes): return str in classes or object in classes
    def vc_type(self): return str
    def vc_str(self): return self
    def _no(self, *a, **k): raise Unsupported("operation on an arbitrary string")
    replace = split = __len__ = __iter__ = __getitem__ = __add__ = __radd__ = startswith = endswith = _no
    def _mapped(self, op):
        """string of the method op: a function of the string, known on the literals of the program (and their variants), of no greater length"""
        f = z3.Function("str." + op, z3.StringSort(), z3.StringSort())
        r = f(self.z)
        for s in LITERALS:
            for v in {s, s.upper(), s.lower(), s.capitalize(), s.title(), " " + s, s + " "}:
                engine.CUR.assume(f(z3.StringVal(v)) == z3.StringVal(getattr(v, op)()))
        engine.CUR.assume(z3.Length(r) <= z3.Length(self.z) if "strip" in op else z3.Length(r) == z3.Length(self.z))
        return Name(r)
    def lower(self): return self._mapped("lower")
    def upper(self): return self._mapped("upper")
    def casefold(self): return self._mapped("casefold")
    def strip(self): return self._mapped("strip")
    def lstrip(self): return self._mapped("lstrip")
    def rstrip(self): return self._mapped("rstrip")
    def capitalize(self): return self._mapped("capitalize")
    def title(self): return self._mapped("title")


class Rope(Proxy):
    """concatenation, in order, of strings and symbolic parts"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Rope): ps = p.parts
            else: ps = (p,)
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
                elif q != "" or not isinstance(q, str): out.append(q)
        self.parts = tuple(out)
    @staticmethod
    def concat(parts):
        parts = [p if isinstance(p, (str, Rope, Proxy)) or hasattr(p, "vc_str") else format(p) for p in parts]
        parts = [p.vc_str() if hasattr(p, "vc_str") else p for p in parts]
        r = Rope(parts)
        if len(r.parts) == 0: return ""
        if len(r.parts) == 1 and isinstance(r.parts[0], str): return r.parts[0]
        return r
    def __add__(self, o): return Rope.concat([self, o])
    def __radd__(self, o): return Rope.concat([o, self])
    def __getitem__(self, k):
        last = self.parts[-1]
        if isinstance(k, slice) and k.start is None and k.step is None and isinstance(k.stop, int) and k.stop < 0 and isinstance(last, str) and len(last) >= -k.stop:
            return Rope.concat(self.parts[:-1] + (last[:k.stop],))
        raise Unsupported("slice of a string with symbolic parts")
    def endswith(self, t):
        if isinstance(self.parts[-1], str) and len(self.parts[-1]) >= len(t): return self.parts[-1].endswith(t)
        raise Unsupported("end of a string with symbolic parts")
    def rstrip(self, *a):
        if isinstance(self.parts[-1], str):
            r = self.parts[-1].rstrip(*a)
            if r: return Rope.concat(self.parts[:-1] + (r,))
        raise Unsupported("end of a string with symbolic parts")
    def __bool__(self):
        if any(isinstance(p, str) and p for p in self.parts): return True
        raise Unsupported("emptiness of a string with symbolic parts")
    def __format__(self, spec): raise Unsupported("format of a string with symbolic parts")
    def __str__(self): return "".join(map(str, self.parts))
    __repr__ = __str__
    def __eq__(self, o):
        if isinstance(o, Rope): return self.parts == o.parts
        if isinstance(o, str): return self.parts == (o,)
        return False
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.parts)
    def vc_isinstance(self, classes): return str in classes or object in classes
    def vc_type(self): return str
    def vc_str(self): return self
