"""`Basic.atoms` is specified to return a set: its iteration order is arbitrary.  `shuffled(rng)` makes it really arbitrary
(and reproducible), so that a dependence of the code under test on that order shows up."""
import contextlib
import sympy


class ASet(set):
    rng = None

    def _list(self):
        l = sorted(set.__iter__(self), key=lambda e: sympy.default_sort_key(e) if isinstance(e, sympy.Basic) else str(e))
        if ASet.rng is not None: ASet.rng.shuffle(l)
        return l

    def __iter__(self):
        return iter(self._list())

    def pop(self):
        e = self._list()[0]
        self.discard(e)
        return e


@contextlib.contextmanager
def shuffled(rng):
    original = sympy.Basic.atoms
    mat = sympy.MatrixBase.atoms if hasattr(sympy, "MatrixBase") else None

    def atoms(self, *types):
        return ASet(original(self, *types))
    sympy.Basic.atoms = atoms
    ASet.rng = rng
    try:
        yield
    finally:
        sympy.Basic.atoms = original
        ASet.rng = None
