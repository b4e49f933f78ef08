"""C02: Map and Record types."""
from .codec import *

lastd = F('lastd', Int, Int)        # the last entry of the value whose key denotes the id of field j


def enc(pid, base, idopt, form):
    d, fn = Val.dv(z3.Const('v', Val)), lambda j: S_(fname(j))
    there = lambda j: has(d, fn(j))
    value = lambda j: comp_enc(None, j, get(d, fn(j)), get(d, fn(tx(j))))[1]

    def res(m, c, r):
        if form == 'list':
            return positions(m, r, there, value)
        key, iskey = (lambda j: S(fname(j)), isfname) if form == 'name' else (lambda j: I(c.fid(j)), lambda k: isfid(c, k))
        return entries(m, r, key, there, value, iskey)

    def opts(m, c):
        if form:
            the_form(m, base, idopt, form)
        return both_sizes(m, c) + ([K('=')] if idopt else [])
    name = f'{base}{" id" if idopt else ""} enc' + (f' {form}' if form else '')

    def run(P):
        P.contract(name, lambda m: codec_body(m, base, 'enc', opts), wanted(pid, maprec_enc_ok, res))
    run.there, run.value = there, value
    return (name, run)


def the_form(m, base, idopt, form):
    m.assume({'list': z3.Not(VR), 'name': VS, 'id': z3.BoolVal(True) if idopt else z3.Not(VS)}[form])
    if base == 'Record' and form != 'list':
        m.assume(VR)


def dec(pid, base, idopt, form):
    """form: 'list' (compact record), 'name' (names as keys), 'id' (ids as keys)"""
    i, j = z3.Ints('i j')
    name = f'{base}{" id" if idopt else ""} dec {form}'

    def opts(m, c):
        the_form(m, base, idopt, form)
        return both_sizes(m, c) + ([K('=')] if idopt else [])

    def res(m, c, r):
        return entries(m, r, lambda j: S(fname(j)), lambda j: at(c, j)[0], lambda j: comp_dec(c, j, at(c, j)[1], at(c, tx(j))[1])[1], isfname)

    def keyid(c, d, i):
        return Val.VInt(th.vint(th.dkey(d, i)))

    def isid(c, k):
        x = Val.iv(k)
        q = (x - 1) if base == 'Record' else fidx(x)
        return z3.And(rng(q), c.fid(q) == x)

    def fieldof(c, d, i):
        x = th.vint(th.dkey(d, i))
        return (x - 1) if base == 'Record' else fidx(x)

    def at(c, t):
        """(present, value) of field t"""
        if form == 'list':
            l = vl(c)
            return z3.And(t < th.llen(l), z3.Not(th.is_none(th.lat(l, t)))), th.lat(l, t), t < th.llen(l)
        d = vd(c)
        if form == 'name':
            v = get(d, S_(fname(t)))
            return z3.And(has(d, S_(fname(t))), z3.Not(th.is_none(v))), v, has(d, S_(fname(t)))
        v = th.dval(d, lastd(t))
        return z3.And(lastd(t) >= 0, z3.Not(th.is_none(v))), v, lastd(t) >= 0

    def ok(m, c):
        d, l = vd(c), vl(c)
        if form == 'id':
            n = th.dcard(d)
            q = fieldof(c, d, i)
            m.axioms.append(forall([i], z3.Implies(z3.And(rng(i, n), th.intok(th.dkey(d, i)), rng(q), c.fid(q) == th.vint(th.dkey(d, i))),
                                                   i <= lastd(q)), th.dkey(d, i)))
            m.axioms.append(forall([j], z3.And(lastd(j) >= -1, lastd(j) < n,
                                               z3.Implies(lastd(j) >= 0, z3.And(th.intok(th.dkey(d, lastd(j))), th.vint(th.dkey(d, lastd(j))) == c.fid(j)))), lastd(j)))
        there, x, _ = at(c, j)
        _, tv, tthere = at(c, tx(j))
        g, _ = comp_dec(c, j, x, tv)
        fields = forall([j], z3.Implies(rng(j), z3.And(z3.Implies(required(j), there), z3.Implies(there, z3.And(g, z3.Implies(hastag(j), tthere))))), ftype(j), isopt(j))
        if form == 'list':
            cnt = count_is(m, th.llen(l), lambda t: z3.Not(th.is_none(th.lat(l, t))))
            return z3.And(th.is_lst(c.v), th.llen(l) <= NF, size_ok(c, cnt), fields)
        count_is(m, th.dcard(d), lambda t: z3.Not(th.is_none(th.dkey(d, t))))
        known = isfname(th.dkey(d, i)) if form == 'name' else z3.And(th.intok(th.dkey(d, i)), isid(c, keyid(c, d, i)))
        return z3.And(th.is_dct(c.v), size_ok(c, th.dcard(d)), forall([i], z3.Implies(rng(i, th.dcard(d)), known), th.dkey(d, i)), fields)

    def run(P):
        P.contract(name, lambda m: codec_body(m, base, 'dec', opts), wanted(pid, ok, res))
    run.ok, run.there, run.value = ok, (lambda c, j: at(c, j)[0]), (lambda c, j: comp_dec(c, j, at(c, j)[1], at(c, tx(j))[1])[1])
    return (name, run)


FORMS = [('Record', False, f) for f in ('list', 'name', 'id')] + [('Record', True, f) for f in ('list', 'id')] + \
        [('Map', False, f) for f in ('name', 'id')] + [('Map', True, 'id')]


def whole(pid):
    if pid == 'C02':
        encs = [enc(pid, *x, None) for x in (('Record', False), ('Record', True), ('Map', False), ('Map', True))]
    else:
        encs = [enc(pid, *x) for x in FORMS]
    return encs + ([dec(pid, *x) for x in FORMS] if pid != 'C07' else [])


def parts(pid, tier):
    ps = whole(pid)
    if pid != 'C06':
        return ps
    slow = [p for p in ps if p[0].endswith('dec id')]       # their paths are shared by several workers
    return [share(p, k, 4) for p in slow for k in range(4)] + [p for p in ps if p not in slow][::-1]


def share(part, k, n):
    def run(P):
        P.share = (k, n)
        part[1](P)
    return (f'{part[0]} [{k + 1}/{n}]', run)
