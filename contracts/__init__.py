"""The contract modules, merged."""
import importlib

MODULES = ["movement", "network", "choice", "places", "graph", "data", "spawn", "settings", "geography", "crawl"]


def load():
    from contracts import schema
    C, M = {}, {}
    for m in MODULES:
        mod = importlib.import_module("contracts." + m)
        for k in mod.C:
            assert k.qual not in C, "two contracts for " + k.qual
            C[k.qual] = k
        for k in mod.MACROS:
            assert k not in M, "two macros " + k
            M[k] = mod.MACROS[k]
    return C, M, schema


def roots(prop, C):
    """Functions that carry a clause of the property."""
    return [q for q, k in C.items() if not k.trusted and (prop in k.safety or any(pr is not None and prop in pr for _, pr, _ in k.ensures + k.bounded))]


def closure(prop, C):
    return set(C)


def project(prop, k):
    """The contract as far as the property is concerned."""
    import copy
    p = copy.copy(k)
    p.ensures = [e for e in k.ensures if e[1] is None or prop in e[1]]
    p.requires = [r for r, (pr, _) in zip(k.requires, k.requires_for) if pr is None or prop in pr]
    p.bounded = [e for e in k.bounded if e[1] is None or prop in e[1]]
    if not any(e[1] is not None for e in p.ensures):
        p.effort = 0
    return p
