"""level and note of every check (mkmanifest.py writes MANIFEST.json from it)"""
T = ("contract-based deductive verification: path-complete symbolic execution of the real functions of /repo (instrumented from their "
     "current source on every run) against pre/postconditions and loop invariants, obligations discharged by z3 or exact normal forms")
B = "; a bounded concrete oracle evaluates the same postcondition on the real code (replay source, never counted as proved)"
SYM = "Trusted: the contract of sympy (an executable model of its algebra, cas.py). "
NUM = "Trusted: the contracts of numpy (element-wise arithmetic over mathematical reals, arange) and of multiprocessing. "
LEVELS = {
 "C01": ("proof", T + B, NUM + "Proved for all trends (uninterpreted), times, states and steps; splitting lists of any length, for an arbitrary mix of entries; floats are real numbers."),
 "C02": ("proof", T + B, NUM + "Proved for windows and saved times of any length (invariant over the iterates of an uninterpreted one-step map), with frame conditions on states."),
 "C03": ("proof", T + B, NUM + "Proved for ensembles, perturbations and windows of any size; Pool.map has the contract of map."),
 "C04": ("proof", T + B, NUM + "Proved over the reals for all start, end, dt; the floating-point end point is left to the oracle."),
 "C05": ("proof", T + B, SYM + "Proved by structural induction: every kind of node with arbitrary children (recursive calls replaced by the contract); nodes of at most 4 children."),
 "C06": ("proof", T + B, SYM + "Proved for 1 to 4 coordinates (shape bound), all degrees, orders and lengths of sequences and couples (loops cut by invariants)."),
 "C07": ("other", T + B, SYM + "Bounded: trees up to the stated degree, with the identities exact for every random field; never counted as unbounded proof."),
 "C08": ("proof", T + B, SYM + "Proved for arbitrary sides; isolate for linear occurrences with arbitrary coefficients."),
 "C09": ("proof", T + B, SYM + "Proved for equations known through their atoms (arbitrary elements, orders and enumeration order); shapes bounded: 1 to 3 equations, 0 to 3 spatial coordinates."),
 "C10": ("proof", T + B, SYM + "get_subs_derivative proved for all orders and names; combined expressions of opaque nonlinear form for orders up to 5/3/2 in 1/2/3 dimensions; the weights of sympy (as_finite_difference) are trusted."),
 "C11": ("proof", T + B, NUM + "The generated programs are verified: the templates for arbitrary right-hand sides (calls with contracts stand for them; 1 to 3 equations, 1 to 3 coordinates), and, for a finite set of systems, each whole program for all states, grids, constants and supplied fields; jinja2, the printers of sympy and the systems not in the set are left to the oracle."),
 "C12": ("proof", T + B, NUM + "Constructors and index of the generated programs, for all shapes, lengths, constants and any history of requests (invariant of the memory of the indices); 1 to 4 coordinates."),
 "C13": ("proof", T + B, SYM + "Each equation derived by the real code is proved to be an identity for every random field following the dynamics, for opaque right-hand sides (any smooth differential operator); shapes bounded: 1 to 3 fields, 1 to 3 dimensions."),
 "C14": ("proof", T + B, SYM + "As C13, for opaque and for linear/quadratic systems, with arbitrary closures; shapes bounded: dimensions 1 to 3."),
 "C15": ("proof", T + B, SYM + "The state machine of the object is explored to its fixed point, so histories of any length over the given (opaque) closures are covered; frames on the caller's dictionary and other instances."),
 "C16": ("proof", T + B, SYM + "Closures of arbitrary (opaque) correlation and tensor functions; orders up to a stated bound, histories of requests of any length (fixed point of the caches)."),
 "C17": ("proof", T + B, SYM + "Proved for arbitrary strings, names and (symbolic) integer steps, 1 to 4 coordinates; code_finite_difference on enumerated texts only (bounded, not counted)."),
 "C18": ("proof", T + B, SYM + "Arbitrary expressions and orders; shapes bounded: 1 to 4 coordinates, fields on every subset of them, matrices up to 5 rows."),
}
