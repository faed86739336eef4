"""C08: minimality; the units of c07.py with the obligations about weights, and the lemmas of lemmas/matching.lean."""
from pv.prove import Unit
from contracts import c07

ASSUMPTIONS = c07.LIBRARY + ["rustworkx gets weights times 2^32 rounded, lemon weights in single precision: least up to that precision (ε in lemmas/matching.lean, optimal)"]


def units():
    out = c07.common("C08")
    for b in c07.BACKENDS:
        out.append(Unit(f"total weight {b}", c07.total, (b,)))
    return out + [Unit("lemmas", c07.lemmas, ("boundary, passing, triangle, below, along, optimal: least matchings give least corrections",))]
