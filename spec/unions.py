"""C05: untagged unions."""
from .codec import *


def union(op, how):
    ok_, val_ = (encok, encV) if op == 'enc' else (decok, decV)
    j, i = z3.Ints('j i')

    def good(c, j):
        return ok_(ftype(j), c.v)

    def opts(m, c):
        m.inst(NF >= 1)     # a union of no alternatives is outside the claim
        return [K('C' + how)]

    def ok(m, c):
        if how == 'A':
            return forall([j], z3.Implies(rng(j), good(c, j)), ftype(j))
        if how == 'O':
            return z3.Exists([j], z3.And(rng(j), good(c, j)))
        return z3.Exists([j], z3.And(rng(j), good(c, j), forall([i], z3.Implies(z3.And(rng(i), good(c, i)), i == j), ftype(i))))

    def res(m, c, r):
        b = m.box(r)
        if how == 'O':
            return [('the result is that of the first alternative that accepts',
                     z3.Exists([j], z3.And(rng(j), good(c, j), b == val_(ftype(j), c.v),
                                           forall([i], z3.Implies(z3.And(0 <= i, i < j), z3.Not(good(c, i))), ftype(i)))))]
        return [('the result is that of an alternative that accepts', z3.Exists([j], z3.And(rng(j), good(c, j), b == val_(ftype(j), c.v))))]

    def run(P):
        P.assumptions.append('a union has at least one alternative')
        P.contract(f'Choice {how} {op}', lambda m: codec_body(m, 'Choice', op, opts, tagged=False), post(ok, res, (ValueError,)))
    return (f'Choice {how} {op}', run)


def parts(pid, tier):
    return [union(op, how) for op in ('enc', 'dec') for how in 'OAX']
