"""C06: lemmas over the contracts of the encoders and decoders: what the decoder of a type accepts and returns for the
result the encoder's contract describes, the components being converted back by hypothesis (induction on nesting depth)."""
from . import arrays, elems, maprec, scalars
from .codec import *

R, A = z3.Consts('R A', Val)        # encoded value, decoded value
j, i = z3.Ints('j i')
x, y = z3.Consts('x y', Val)
t = z3.Const('t', Str)


def hypothesis(tagged=False):
    """Components convert back: for each component type, a value it encodes is decoded to the same value."""
    fs = [forall([t, x], z3.Implies(encok(t, x), z3.And(decok(t, encV(t, x)), decV(t, encV(t, x)) == x, z3.Not(th.is_none(encV(t, x))))), encV(t, x)),
          forall([t], z3.And(z3.Not(encok(t, th.VNone)), z3.Not(decok(t, th.VNone))), encok(t, th.VNone))]
    if tagged:
        tag = single(x, y)
        r = encV(ftype(j), Val.VDct(tag))
        d = Val.dv(r)
        # a dictionary of one entry
        fs += [forall([x, y], z3.Implies(th.hashable(x), z3.And(th.dcard(tag) == 1, th.dkey(tag, 0) == x, th.dval(tag, 0) == y)), tag)]
        # the keys of a choice are not null (C04)
        fs += [forall([j, x, y], z3.Implies(z3.And(rng(j), hastag(j), encok(ftype(j), Val.VDct(tag))), z3.Not(th.is_none(x))), encok(ftype(j), Val.VDct(tag)))]
        # tagged component: the result has one entry, whose key is the tag as the tag field encodes it
        fs += [forall([j, x, y], z3.Implies(z3.And(rng(j), hastag(j), th.hashable(x), encok(ftype(j), Val.VDct(tag)), encok(ftype(tx(j)), x)),
                                            z3.And(th.is_dct(r), r == Val.VDct(single(encV(ftype(tx(j)), x), th.dval(d, 0))),
                                                   th.hashable(encV(ftype(tx(j)), x)), z3.Not(th.is_none(th.dval(d, 0))))), encV(ftype(j), Val.VDct(tag)))]
    return fs


class FakeM:
    """what the contract formulas need of the interpreter"""
    def __init__(self):
        from pyvc.interp import Machine
        self.m = Machine()
        self.axioms = self.m.axioms

    def __getattr__(self, n):
        return getattr(self.m, n)


def ctx(base, v, idopt=False):
    c = Ctx()
    c.base, c.id, c.v = base, idopt, v
    c.minv, c.maxv = MINV, MAXV
    c.cfg = {k: z3.Int('cfg_' + k) for k in ('$MaxBinary', '$MaxString', '$MaxElements')}
    c.fid = (lambda j: j + 1) if base in ('Array', 'Record') else fid
    c.uniq = False
    return c


def sizes(c):
    return [c.minv >= 0, c.maxv >= 1] + [v >= 1 for v in c.cfg.values()]


def bijection(P, name, facts, n, there, D, key, inv):
    """lemma: the entries of D and the indices below n with there(.) correspond one to one; so their numbers are equal"""
    q = z3.Int('q')
    P.oblige(f'{name}: each index has its entry', facts + [rng(q, n), there(q)],
             z3.And(has(D, key(q)), th.didx(D, th.knorm(key(q))) >= 0, th.didx(D, th.knorm(key(q))) < th.dcard(D), inv(th.didx(D, th.knorm(key(q)))) == q))
    k = th.dkey(D, q)
    P.oblige(f'{name}: each entry has its index', facts + [rng(q, th.dcard(D)), k == k],
             z3.And(th.dhas(D, th.knorm(k)), rng(inv(q), n), th.knorm(key(inv(q))) == th.knorm(k), there(inv(q)), th.didx(D, th.knorm(key(inv(q)))) == q))
    return th.dcard(D)


def same_dict(P, name, facts, a, b):
    k = z3.Const('k0', Val)
    da, db = Val.dv(a), Val.dv(b)
    P.oblige(f'{name}: the result has the keys of the value', facts, th.dhas(da, k) == th.dhas(db, k))
    P.oblige(f'{name}: the result has the values of the value', facts + [th.dhas(da, k), th.dhas(db, k)], th.dget(da, k) == th.dget(db, k))


def consistent(P, name, facts):
    """vacuity: the hypotheses of the lemma are not contradictory (as far as a solver finds in 3 s)"""
    r = P.check(facts, z3.BoolVal(False), 3000)
    P.vacuity += 1
    if r[0] == 'discharged':
        P.add(f'{name}: hypotheses', 'undecided', 'z3', 'contradictory hypotheses')


NOTES = ['C06: a tag field converts a tag to the key of the alternative it selects, as an enumeration derived from the choice does',
         'C06: components convert back (induction on the nesting depth of the value)',
         'C06: a dictionary of one entry is determined by its key and value']


def record(base, idopt, form):
    name = f'{base}{" id" if idopt else ""} {form}'

    def run(P):
        P.assumptions += NOTES
        both = dict(maprec.whole('C06'))
        stem = f'{base}{" id" if idopt else ""}'
        e, d = both[f'{stem} enc {form}'], both[f'{stem} dec {form}']
        m = FakeM()
        v = z3.Const('v', Val)
        ce, cd = ctx(base, v, idopt), ctx(base, R, idopt)
        D1, D2 = Val.dv(v), Val.dv(R)
        facts = schema_facts(ce) + sizes(ce) + hypothesis(True) + [NF >= 0, maprec_enc_ok(m, ce)]
        key, iskey = (lambda q: S_(fname(q)), isfname) if form == 'name' else (lambda q: Val.VInt(ce.fid(q)), lambda k: isfid(ce, k))
        index = (lambda k: fnidx(Val.sv(k))) if form == 'name' else (lambda k: Val.iv(th.knorm(k)) - 1) if base == 'Record' else (lambda k: fidx(Val.iv(th.knorm(k))))
        facts += positions_spec(R, e.there, e.value) if form == 'list' else entries_spec(R, key, e.there, e.value, iskey)
        # integer keys are taken to the ids they equal
        facts.append(forall([x], z3.Implies(th.is_int(th.knorm(x)), z3.And(th.intok(x), th.vint(x) == Val.iv(th.knorm(x)))), th.intok(x)))
        q = z3.Int('q')
        n1 = bijection(P, f'{name}: fields of the value', facts, NF, e.there, D1, lambda q: S_(fname(q)), lambda i: fnidx(Val.sv(th.dkey(D1, i))))
        ok = d.ok(m, cd)        # brings the counts it mentions
        if form == 'list':
            l = Val.lv(R)
            P.oblige(f'{name}: populated positions are fields of the value', facts + [rng(q, th.llen(l))], z3.Not(th.is_none(th.lat(l, q))) == e.there(q))
            P.oblige(f'{name}: no others are', facts + [rng(q), q >= th.llen(l)], z3.Not(e.there(q)))
            facts.append(m.count_terms[-1][0] == n1)
        else:
            n2 = bijection(P, f'{name}: entries of the result', facts, NF, e.there, D2, key, lambda i: index(th.dkey(D2, i)))
            facts.append(n1 == n2)
        if form == 'id':        # the last entry whose key denotes the id is the entry under that id
            last = maprec.lastd(q)
            P.oblige(f'{name}: a populated field is found under its id', facts + m.axioms + [rng(q), e.there(q), has(D2, key(q))],
                     z3.And(last >= 0, th.knorm(th.dkey(D2, last)) == key(q), last == th.didx(D2, key(q)), th.dval(D2, last) == get(D2, key(q))))
            P.oblige(f'{name}: an absent field is not found', facts + m.axioms + [rng(q), z3.Not(e.there(q)), th.dkey(D2, last) == th.dkey(D2, last)],
                     z3.Or(last < 0, th.knorm(th.dkey(D2, last)) != key(q)))
            P.oblige(f'{name}: nor anything else in its place', facts + m.axioms + [rng(q), last >= 0], th.knorm(th.dkey(D2, last)) == key(q))
            lq = maprec.lastd(j)
            facts.append(forall([j], z3.Implies(rng(j), z3.And((lq >= 0) == e.there(j), z3.Implies(lq >= 0, z3.And(th.dval(D2, lq) == get(D2, key(j)), has(D2, key(j)))))), lq))
        consistent(P, name, facts + m.facts + m.axioms)
        P.oblige(f'{name}: the decoder accepts the result of the encoder', facts + m.facts + m.axioms, ok)
        P.oblige(f'{name}: populated fields are those of the value', facts + m.axioms + [rng(q)], d.there(cd, q) == e.there(q))
        P.oblige(f'{name}: decoded fields are those of the value', facts + m.axioms + [rng(q), d.there(cd, q)], d.value(cd, q) == get(D1, S_(fname(q))))
        back = [th.is_dct(A), forall([j], z3.Implies(rng(j), has(Val.dv(A), S_(fname(j))) == e.there(j)), fname(j)),
                forall([j], z3.Implies(z3.And(rng(j), e.there(j)), get(Val.dv(A), S_(fname(j))) == get(D1, S_(fname(j)))), fname(j)),
                forall([x], z3.Implies(th.dhas(Val.dv(A), x), isfname(x)), th.dhas(Val.dv(A), x))]
        same_dict(P, name, schema_facts(ce) + [NF >= 0, maprec_enc_ok(m, ce)] + back, A, v)
    return (f'lemma {name}', run)


def array():
    name = 'Array'

    def run(P):
        P.assumptions += NOTES
        both = dict(arrays.parts('C06', ''))
        e, d = both['Array enc'], both['Array dec']
        m = FakeM()
        v = z3.Const('v', Val)
        ce, cd, ca = ctx(name, v), ctx(name, R), ctx(name, A)
        q = z3.Int('q')
        l, r, a = Val.lv(v), Val.lv(R), Val.lv(A)
        base = schema_facts(ce) + sizes(ce) + hypothesis(True) + [NF >= 0, e.ok(m, ce)] + positions_spec(R, lambda t: e.there(l, t), lambda t: e.value(ce, t))
        n1 = m.count_terms[-1][0]
        facts = base + m.facts
        P.oblige(f'{name}: no longer than the value', facts, th.llen(r) <= th.llen(l))
        facts.append(th.llen(r) <= th.llen(l))
        P.oblige(f'{name}: populated positions are those of the value', facts + [rng(q, th.llen(r))], z3.Not(th.is_none(th.lat(r, q))) == z3.Not(th.is_none(th.lat(l, q))))
        P.oblige(f'{name}: no others are', facts + [rng(q, th.llen(l)), q >= th.llen(r), ftype(q) == ftype(q)], th.is_none(th.lat(l, q)))
        k = len(m.facts)
        ok = d.ok(m, cd)
        facts += [m.count_terms[-1][0] == n1] + m.facts[k:]
        consistent(P, name, facts)
        P.oblige(f'{name}: the decoder accepts the result of the encoder', facts, ok)
        facts += positions_spec(A, lambda t: d.there(r, t), lambda t: d.value(cd, t))
        P.oblige(f'{name}: the result has the length of the serialized form', facts + [ftype(th.llen(a)) == ftype(th.llen(a)), ftype(th.llen(r) - 1) == ftype(th.llen(r) - 1)], th.llen(a) == th.llen(r))
        facts.append(th.llen(a) == th.llen(r))
        P.oblige(f'{name}: positions are those of the value', facts + [rng(q, th.llen(a))], th.lat(a, q) == th.lat(l, q))
    return (f'lemma {name}', run)


def of(base):
    def run(P):
        P.assumptions += NOTES[1:2]
        both = dict(arrays.parts('C06', ''))
        e, d = both[f'{base} enc'], both[f'{base} dec']
        v, q = z3.Const('v', Val), z3.Int('q')
        for uniq in (False, True) if base == 'ArrayOf' else (False,):
            name = base + (' unique' if uniq else '')
            m = FakeM()
            ce, cd = ctx(base, v), ctx(base, R)
            ce.uniq = cd.uniq = uniq
            facts = sizes(ce) + hypothesis() + [e.ok(m, ce)]
            if base == 'ArrayOf':
                l, r, a = Val.lv(v), Val.lv(R), Val.lv(A)
                n = th.llen(l)
                facts += [th.is_lst(R), th.llen(r) == n, forall([i], z3.Implies(rng(i, n), th.lat(r, i) == encV(arrays.VT, th.lat(l, i))), th.lat(r, i))]
                if uniq:
                    P.assumptions.append('C06: values a component type converts to equal values are equal, so conversion keeps elements distinct')
                    facts.append(z3.Implies(arrays.distinct(l), arrays.distinct(r)))
                consistent(P, name, facts)
                P.oblige(f'{name}: the decoder accepts the result of the encoder', facts, d.ok(m, cd))
                facts += [th.is_lst(A), th.llen(a) == th.llen(r), forall([i], z3.Implies(rng(i, n), th.lat(a, i) == decV(arrays.VT, th.lat(r, i))), th.lat(a, i))]
                P.oblige(f'{name}: elements are those of the value', facts + [rng(q, n)], z3.And(th.llen(a) == n, th.lat(a, q) == th.lat(l, q)))
            else:
                P.assumptions.append('MapOf: different keys have different conversions (C06 for the key type), and converted keys can be keys')
                l, r, a = Val.dv(v), Val.dv(R), Val.dv(A)
                n = th.dcard(l)
                def conv(f, x, y):
                    return [th.is_dct(y), th.dcard(Val.dv(y)) == n,
                            forall([i], z3.Implies(rng(i, n), z3.And(th.dkey(Val.dv(y), i) == f(arrays.KT, th.dkey(x, i)), th.dval(Val.dv(y), i) == f(arrays.VT, th.dval(x, i)))), th.dkey(Val.dv(y), i))]
                facts += conv(encV, l, R)
                consistent(P, name, facts)
                P.oblige(f'{name}: the decoder accepts the result of the encoder', facts, d.ok(m, cd))
                facts += conv(decV, r, A)
                P.oblige(f'{name}: entries are those of the value', facts + [rng(q, n)], z3.And(th.dkey(a, q) == th.dkey(l, q), th.dval(a, q) == th.dval(l, q)))
    return (f'lemma {base}', run)


def elem(base):
    def run(P):
        both = dict(elems.parts('C06', ''))
        e, d = both[f'{base} enc'], both[f'{base} dec']
        v = z3.Const('v', Val)
        for idopt in (False, True):
            name = base + (' id' if idopt else '')
            m = FakeM()
            ce, cd = ctx(base, v, idopt), ctx(base, R, idopt)
            facts = schema_facts(ce) + hypothesis() + [e.ok(m, ce)]
            if base == 'Enumerated':
                ix = elems.idx_a(ce, v)
                facts += [R == elems.ekey_(ce, ix), fnidx(fname(ix)) == fnidx(fname(ix)), fidx(fid(ix)) == fidx(fid(ix))]
                consistent(P, name, facts)
                P.oblige(f'{name}: the decoder accepts the result of the encoder', facts, d.ok(m, cd))
                P.oblige(f'{name}: the item is that of the value', facts, elems.akey(cd, elems.idx_e(cd, R)) == v)
                continue
            P.assumptions += NOTES[1:2]
            k = th.knorm(th.dkey(vd(ce), 0))
            ix = elems.idx_a(ce, k)
            nk = elems.ekey_(ce, ix)
            r = Val.dv(R)
            facts += [th.is_dct(R), th.dcard(r) == 1, th.dkey(r, 0) == nk, has(r, nk), get(r, nk) == encV(ftype(ix), th.dval(vd(ce), 0)), th.dval(r, 0) == th.dval(r, 0),
                      fnidx(fname(ix)) == fnidx(fname(ix)), fidx(fid(ix)) == fidx(fid(ix)),
                      forall([x], z3.Implies(th.is_int(th.knorm(x)), z3.And(th.intok(x), th.vint(x) == Val.iv(th.knorm(x)))), th.intok(x)), th.intok(nk) == th.intok(nk)]
            consistent(P, name, facts)
            P.oblige(f'{name}: the decoder accepts the result of the encoder', facts, d.ok(m, cd))
            good, k2 = d.key(cd)
            jx = elems.idx_e(cd, k2)
            P.oblige(f'{name}: the alternative is that of the value', facts, z3.And(elems.akey(cd, jx) == k, decV(ftype(jx), th.dval(r, 0)) == th.dval(vd(ce), 0)))
    return (f'lemma {base}', run)


def scalar():
    """Scalars: without a text format the serialized form is the value, and the decoder's contract is the encoder's; with
    one, the conversions are inverse (C09)."""
    def run(P):
        both = dict(scalars.parts('C06', ''))
        v = z3.Const('v', Val)
        for name, e in both.items():
            if not name.endswith(' enc'):
                continue
            d = both[name[:-4] + ' dec']
            for lims in ((None, None), (MINV, None), (None, MAXV), (MINV, MAXV)):
                ce, cd = ctx(name.split('/')[0].split()[0], v), ctx('', R)
                for c in (ce, cd):
                    c.pat = True
                    c.minv, c.maxv = lims
                    c.minf, c.maxf = (None if lims[0] is None else scalars.MINR), (None if lims[1] is None else scalars.MAXR)
                m = FakeM()
                facts = [e.ok(m, ce)]
                if e.fn:
                    P.assumptions.append(f'C06: {d.fn} converts what {e.fn} returns back (C09)')
                    o, r = scalars.conv(e.fn, v)
                    o2, r2 = scalars.conv(d.fn, r)
                    facts += [R == r, z3.Implies(o, z3.And(o2, r2 == v))]
                else:
                    facts += [R == v]
                P.oblige(f'{name[:-4]}: the decoder accepts the result of the encoder ({sum(x is not None for x in lims)} limits)', facts, d.ok(m, cd))
                if e.fn:
                    P.oblige(f'{name[:-4]}: and returns the value', facts, scalars.conv(d.fn, R)[1] == v)
    return ('lemma scalars', run)


def parts(pid, tier):
    return [record(*f) for f in maprec.FORMS] + [array(), of('ArrayOf'), of('MapOf'), elem('Enumerated'), elem('Choice'), scalar()]
