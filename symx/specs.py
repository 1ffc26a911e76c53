import importlib


def load(modname):
    m = importlib.import_module(modname)
    return dict(tasks=m.tasks, covers=getattr(m, "COVERS", ()), bounds=m.BOUNDS, outside=m.OUTSIDE,
                assumptions=list(getattr(m, "ASSUMPTIONS", ())) + COMMON)


COMMON = [
    "Python ints are mathematical integers; IEEE doubles are reals under an uninterpreted rounding function constrained by |fl(x)-x| <= 2^-53|x| (exact where provably exact; magnitudes stay inside the normal range)",
    "CPython, numpy object-array loops, z3 and the proxy layer (symx/) are trusted; every counterexample and a sample of path models is re-run on the unpatched code in the repository's own interpreter",
]
