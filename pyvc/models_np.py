"""trusted models of the external modules used by model.py"""
import types
import engine, z3
from engine import SReal, SInt, SymSeq, SVal, SBool, Unsupported, zterm, VList


class float64: pass


class Missing(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith(("__", "vc_")): raise AttributeError(k)
        raise Unsupported(f"{self.__name__}.{k} has no contract")


def array_equal(a, b, equal_nan=False):
    """equality of two opaque states"""
    if isinstance(a, SVal) and isinstance(b, SVal) and a.z.sort() == b.z.sort(): return SBool(a.z == b.z)
    raise Unsupported("np.array_equal")


def numpy_model(**extra):
    m = Missing("numpy")
    m.array_equal = array_equal
    m.float64 = float64
    m.ndarray = type("ndarray", (), {})
    m.nan = float("nan")
    m.pi = 3.141592653589793
    def zeros(*a, **k): raise Unsupported("np.zeros")
    for k, v in extra.items(): setattr(m, k, v)
    return m


def mp_model(Pool=None):
    m = Missing("multiprocessing")
    if Pool is not None: m.Pool = Pool
    return m
