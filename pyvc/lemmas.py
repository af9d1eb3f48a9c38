"""The lemmas about sums and counts that the engine hands to the solvers, proved by induction.

A sum (SumR, SumI: calls.sumfun) and a count (AtPlace: spec.atplace) are known by their recursion over prefixes only. Everything
else said about them is a lemma; here each one is reduced to a base case and a step, both decided by z3 from the recursion."""
import z3

I = z3.IntSort()
k, j, n = z3.Ints("k j n")


def _sum(real):
    s = z3.RealSort() if real else I
    A = z3.ArraySort(I, s)
    S = z3.Function("S", A, I, s)
    a, b = z3.Consts("a b", A)
    rec = lambda x: [S(x, 0) == 0, S(x, n + 1) == S(x, n) + x[n]]
    upto = lambda m, f: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), f(k)))
    nm = "real" if real else "int"
    ge, le = lambda i: a[i] >= 0, lambda i: a[i] <= 0
    jj = lambda m: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), S(a, m) >= a[j]))
    same = lambda i: a[i] == b[i]
    # name, facts, P(m)
    yield "sum-%s/nonneg" % nm, rec(a), lambda m: z3.Implies(upto(m, ge), S(a, m) >= 0)
    yield "sum-%s/nonpos" % nm, rec(a), lambda m: z3.Implies(upto(m, le), S(a, m) <= 0)
    yield "sum-%s/part" % nm, rec(a), lambda m: z3.Implies(upto(m, ge), z3.And(S(a, m) >= 0, jj(m)))
    yield "sum-%s/same" % nm, rec(a) + rec(b), lambda m: z3.Implies(upto(m, same), S(a, m) == S(b, m))


def _at():
    A = z3.ArraySort(I, I)
    C = z3.Function("C", A, A, I, I, I)
    l1, l2, x1, x2 = z3.Consts("l1 l2 x1 x2", A)
    L = z3.Int("L")
    rec = lambda l, x: [C(l, x, 0, L) == 0, C(l, x, n + 1, L) == C(l, x, n, L) + z3.If(l[x[n]] == L, 1, 0)]
    yield "at-place/same", rec(l1, x1) + rec(l2, x2), lambda m: z3.Implies(
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), l1[x1[k]] == l2[x2[k]])), C(l1, x1, m, L) == C(l2, x2, m, L))


def prove():
    """[(name, holds)] for the base case and the step of every lemma."""
    out = []
    for name, facts, P in [*_sum(True), *_sum(False), *_at()]:
        for part, hyp, goal in (("base", facts, P(z3.IntVal(0))), ("step", facts + [n >= 0, P(n)], P(n + 1))):
            s = z3.Solver()
            s.set("timeout", 20000)
            s.add(*hyp, z3.Not(goal))
            out.append((name + "/" + part, s.check() == z3.unsat))
    return out


if __name__ == "__main__":
    for nm, ok in prove():
        print(nm, "proved" if ok else "NOT PROVED")
