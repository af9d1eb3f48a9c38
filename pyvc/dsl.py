"""Contract vocabulary (no solver needed: the run-time monitor reads the same objects)."""
import ast


class Contract:
    def __init__(self, qual, types=None, ret=None, requires=(), ensures=(), modifies=(), loops=(),
                 exits=None, trusted=False, note="", raises=(), pure=False, props=(), lemmas=(), inline=False,
                 unroll=None, timeout=None, axioms=(), nocheck=(), allocs=False, cls=None, safety=(), norun=False, beyond=None, effort=0, cases=()):
        # verified separately under each of these conditions, and where none of them holds
        self.cases = list(cases) + ["not (%s)" % ") and not (".join(cases)] if cases else [None]
        self.effort = effort             # where to start: 0 quick loop-invariant search, 1 thorough
        self.qual = qual
        self.types = types or {}
        self.ret = ret
        # requires: expr, or (props, expr) when only these properties need it
        self.requires_for = [c if isinstance(c, tuple) else (None, c) for c in requires]
        self.requires = [("pre%d" % i, c) for i, (_, c) in enumerate(self.requires_for)]
        # ensures: (name, props, expr)
        self.ensures = [e if len(e) == 3 else (e[0], None, e[1]) for e in ensures]
        # a clause named ~x is only checked at run time (bounded), never counted as proved nor assumed
        self.bounded = [(n[1:], p, e) for n, p, e in self.ensures if n.startswith("~")]
        self.ensures = [x for x in self.ensures if not x[0].startswith("~")]
        self.modifies = list(modifies)
        self.loops = list(loops)
        self.exits = exits
        self.trusted = trusted
        self.note = note
        self.raises = raises
        self.pure = pure
        self.props = props
        self.axioms = axioms
        self.timeout = timeout
        self.nocheck = nocheck
        self.allocs = allocs
        self.inline = inline
        self.cls = cls
        self.beyond = beyond             # why the verifier is not asked: the contract is only read at run time (bounded)
        self.norun = norun               # not read at run time (bounded search)
        self.safety = tuple(safety)     # properties that need the function not to go wrong


class Hint:
    """Candidate loop invariant. vars: pattern variable -> type string."""

    def __init__(self, inv, on=None, **vars):
        # on: numbers of the contract's cases the candidate is meant for
        self.inv, self.vars, self.on = inv, vars, on
        self.tree = ast.parse(inv.strip(), mode="eval").body


