"""Deviation-bounded enumeration: every way of departing from a default history in at most k of its
choices, fewest departures first (cf. context bounding)."""
import itertools


def deviations(menu, k, compatible=None):
    """menu: {dimension: [alternative values]}.  Yields dicts of the dimensions that deviate."""
    dims = list(menu)
    for n in range(k + 1):
        for ds in itertools.combinations(dims, n):
            for vals in itertools.product(*(menu[d] for d in ds)):
                c = dict(zip(ds, vals))
                if compatible is None or compatible(c):
                    yield c


def product(**dims):
    names = list(dims)
    for vals in itertools.product(*dims.values()):
        yield dict(zip(names, vals))
