"""Lemmas on counting the contracts rely on, each proved by induction on the bound (base and step are obligations).

cnt(P, 0) = 0, cnt(P, n + 1) = cnt(P, n) + (1 if P(n) else 0), for an arbitrary predicate P."""
import z3

from .base import *

Int, Bool = th.Int, th.Bool
n, m, j, k, d, i0 = z3.Ints('n m j k d i0')
P, Q = z3.Function('P', Int, Bool), z3.Function('Q', Int, Bool)
cp, cq = z3.Function('cntP', Int, Int), z3.Function('cntQ', Int, Int)
w = z3.Function('w', Int, Int)          # witnesses


def step(c, p, t):
    return c(t + 1) == c(t) + z3.If(p(t), z3.IntVal(1), z3.IntVal(0))


def all_(t, body):
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), body(j)))


def ex(t, body):
    return z3.Exists([j], z3.And(0 <= j, j < t, body(j)))


PROPS = {
    'a count is between zero and the bound': lambda t: z3.And(0 <= cp(t), cp(t) <= t),
    'a positive count has a witness': lambda t: z3.Implies(cp(t) > 0, ex(t, P)),
    'a count of zero has none': lambda t: z3.Implies(cp(t) == 0, all_(t, lambda x: z3.Not(P(x)))),
    'a count of one has one witness': lambda t: z3.Implies(cp(t) == 1, z3.Exists([k], z3.And(0 <= k, k < t, P(k), all_(t, lambda x: z3.Implies(P(x), x == k))))),
    'a larger count has two': lambda t: z3.Implies(cp(t) >= 2, z3.Exists([k, m], z3.And(0 <= k, k < m, m < t, P(k), P(m)))),
    'a full count has no exception': lambda t: z3.Implies(cp(t) == t, all_(t, P)),
    'a count that is not full has one': lambda t: z3.Implies(cp(t) < t, ex(t, lambda x: z3.Not(P(x)))),
    'equal predicates have equal counts': lambda t: z3.Implies(all_(t, lambda x: P(x) == Q(x)), cp(t) == cq(t)),
    'indices where the predicate is false do not count': lambda t: z3.Implies(z3.And(0 <= d, d <= t, z3.ForAll([j], z3.Implies(z3.And(d <= j, j < t), z3.Not(P(j))))), cp(t) == cp(d)),
    'one more index counts one more': lambda t: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t, j != i0), P(j) == Q(j))),
                                                            z3.Implies(z3.And(0 <= i0, P(i0), z3.Not(Q(i0))), cp(t) == cq(t) + z3.If(i0 < t, z3.IntVal(1), z3.IntVal(0)))),
}
NEEDS = {'a full count has no exception': ['a count is between zero and the bound'],
         'a count of zero has none': ['a count is between zero and the bound'],
         'a count of one has one witness': ['a count is between zero and the bound', 'a count of zero has none'],
         'a larger count has two': ['a count is between zero and the bound', 'a count of one has one witness', 'a positive count has a witness'],
         'a count that is not full has one': ['a count is between zero and the bound']}


def bijection(Pr):
    """If pos maps the indices with P one to one onto [0, d), with inverse inv, their number is d: by induction on the bound,
    the count below n is the number of positions whose index is below n; the lemmas above give the step."""
    pos, inv = z3.Function('pos', Int, Int), z3.Function('inv', Int, Int)
    c2 = z3.Function('cntinv', Int, Int)        # c2(t) = number of positions i < d with inv(i) < t
    facts = [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, P(j)), z3.And(0 <= pos(j), pos(j) < d, inv(pos(j)) == j)), patterns=[pos(j)]),
             z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), z3.And(0 <= inv(j), inv(j) < n, P(inv(j)), pos(inv(j)) == j)), patterns=[inv(j)]), d >= 0]
    t = z3.Int('t')
    # c2(0) = 0: no inv(i) is below zero
    Pr.oblige('lemma bijection: base', facts, z3.Implies(z3.And(0 <= j, j < d), z3.Not(inv(j) < 0)))
    # step, t < n: the sets {i < d: inv(i) < t + 1} and {i < d: inv(i) < t} differ exactly at pos(t) if P(t), else not at all
    rng = z3.And(0 <= t, t < n, 0 <= j, j < d)
    Pr.oblige('lemma bijection: step with P', facts + [P(t), rng, pos(t) == pos(t)],
              z3.And(0 <= pos(t), pos(t) < d, inv(pos(t)) < t + 1, z3.Not(inv(pos(t)) < t), z3.Implies(j != pos(t), (inv(j) < t + 1) == (inv(j) < t))))
    Pr.oblige('lemma bijection: step without P', facts + [z3.Not(P(t)), rng], (inv(j) < t + 1) == (inv(j) < t))
    Pr.oblige('lemma bijection: end', facts + [0 <= j, j < d], inv(j) < n)


def run(Pr):
    base = [cp(0) == 0, cq(0) == 0]
    for name, prop in PROPS.items():
        Pr.oblige(f'lemma {name}: base', base, prop(z3.IntVal(0)))
        given = [z3.ForAll([j], z3.Implies(j >= 0, PROPS[x](j))) if x != name else None for x in NEEDS.get(name, [])]
        Pr.oblige(f'lemma {name}: step', [n >= 0, prop(n), step(cp, P, n), step(cq, Q, n)] + [PROPS[x](n) for x in NEEDS.get(name, [])] +
                  ([cp(d) == cp(d)]), prop(n + 1))
    bijection(Pr)


def parts(pid, tier):
    return [('lemmas', run)]
