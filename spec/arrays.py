"""C03: Array, ArrayOf and MapOf types; size limits of containers."""
from .codec import *

VT, KT = z3.Consts('VT KT', Str)
distinct = F('distinct', th.Lst, Bool)      # no two elements are equal
LIMIT_OF = {'String': '$MaxString', 'Binary': '$MaxBinary'}


def fset(m, args, kwargs):
    """fset(list): as many elements as the list if and only if no two elements are equal"""
    b = m.box(args[0])
    l = Val.lv(b)
    s = m.fresh('fset', th.Lst)
    m.assume(z3.And(0 <= th.llen(s), th.llen(s) <= th.llen(l), (th.llen(s) == th.llen(l)) == distinct(l)))
    return Sym(Val.VSet(s))


def vopt(m, ch, t):
    m.inst(z3.And(th.slen(t) >= 1, th.schar(t, 0) != th.strlit('$')))
    return m.concat([K(ch), S(t)])


def array_of(pid, op):
    ok_, val_ = (encok, encV) if op == 'enc' else (decok, decV)
    i = z3.Int('i')

    def opts(m, c):
        out = [vopt(m, '*', VT)] + size_opts(m, c)
        c.uniq = False
        for n, ch in (('has_unique', 'q'), ('has_set', 's')):
            if m.branch(z3.Bool(n)):
                out.append(K(ch))
                c.uniq = True
        return out

    def body(m):
        m.contracts[cc.fset] = fset
        return codec_body(m, 'ArrayOf', op, opts, cfg=True)

    def ok(m, c):
        l = vl(c)
        return z3.And(th.is_lst(c.v), size_ok(c, th.llen(l)), distinct(l) if c.uniq else z3.BoolVal(True),
                      forall([i], z3.Implies(rng(i, th.llen(l)), ok_(VT, th.lat(l, i))), th.lat(l, i)))

    def res(m, c, r):
        b = m.box(r)
        l, x = vl(c), Val.lv(b)
        return [('the result is a list of the same length', z3.And(th.is_lst(b), th.llen(x) == th.llen(l))),
                ('whose elements are those of the component, in order',
                 forall([i], z3.Implies(rng(i, th.llen(l)), th.lat(x, i) == val_(VT, th.lat(l, i))), th.lat(x, i)))]

    def run(P):
        P.assumptions.append('fset has fewer elements than the list exactly if two elements are equal (bounded check: C03 falsifier)')
        P.contract(f'ArrayOf {op}', body, wanted(pid, ok, res, always=True))
    run.ok = ok
    return (f'ArrayOf {op}', run)


def map_of(pid, op):
    ok_, val_ = (encok, encV) if op == 'enc' else (decok, decV)
    i = z3.Int('i')

    def opts(m, c):
        if pid != 'C03':        # C06 for the key type: different keys have different conversions
            a, b = z3.Consts('a b', Val)
            same = m.eq(Sym(val_(KT, a)), Sym(val_(KT, b)))
            m.axioms.append(forall([a, b], z3.Implies(z3.And(ok_(KT, a), ok_(KT, b), same), th.knorm(a) == th.knorm(b)), z3.MultiPattern(val_(KT, a), val_(KT, b))))
        return [vopt(m, '*', VT), vopt(m, '+', KT)] + size_opts(m, c)

    def body(m):
        return codec_body(m, 'MapOf', op, opts, cfg=True)

    def ok(m, c):
        d = vd(c)
        k = th.dkey(d, i)
        return z3.And(th.is_dct(c.v), size_ok(c, th.dcard(d)),
                      forall([i], z3.Implies(rng(i, th.dcard(d)), z3.And(ok_(KT, k), th.hashable(val_(KT, k)), ok_(VT, th.dval(d, i)))), k))

    def res(m, c, r):
        if not (isinstance(r, Ref) and isinstance(m.heap[r.oid], HDict)):
            return [('the result is a mapping', z3.BoolVal(False))]
        d = vd(c)
        n = th.dcard(d)
        m.assume(rng(POS, n))
        it = m.items_seq(r)
        e = it.at(POS)
        return [('as many entries as the value', m.length(r) == n if z3.is_expr(m.length(r)) else m.intterm(m.length(r)) == n),
                ('the keys are those of the key type, in order', m.box(e.items[0]) == val_(KT, th.dkey(d, POS))),
                ('the values are those of the value type', m.box(e.items[1]) == val_(VT, th.dval(d, POS)))]

    def run(P):
        P.assumptions.append('MapOf: keys whose converted form cannot be a dictionary key are not valid keys')
        if pid != 'C03':
            P.assumptions.append('MapOf: distinct keys have distinct conversions (C06 for the key type)')
        P.contract(f'MapOf {op}', body, wanted(pid, ok, res))
    run.ok = ok
    return (f'MapOf {op}', run)


def array(pid, op):
    comp = comp_enc if op == 'enc' else comp_dec
    j, i = z3.Ints('j i')

    def there(l, t):
        return z3.And(t < th.llen(l), z3.Not(th.is_none(th.lat(l, t))))

    def ok(m, c):
        l = vl(c)
        c.base = 'Array'
        g, _ = comp(c, j, th.lat(l, j), th.lat(l, tx(j)))
        n = count_is(m, th.llen(l), lambda t: z3.Not(th.is_none(th.lat(l, t))))
        return z3.And(th.is_lst(c.v), th.llen(l) <= NF, size_ok(c, n),
                      forall([j], z3.Implies(rng(j), z3.And(z3.Implies(required(j), there(l, j)),
                                                            z3.Implies(there(l, j), z3.And(g, z3.Implies(hastag(j), tx(j) < th.llen(l)))))), ftype(j), isopt(j)))

    def res(m, c, r):
        l = vl(c)
        return positions(m, r, lambda t: there(l, t), lambda t: comp(c, t, th.lat(l, t), th.lat(l, tx(t)))[1])

    def run(P):
        P.contract(f'Array {op}', lambda m: codec_body(m, 'Array', op, both_sizes), wanted(pid, ok, res))
    run.ok, run.there, run.value = ok, there, lambda c, t: comp(c, t, th.lat(vl(c), t), th.lat(vl(c), tx(t)))[1]
    return (f'Array {op}', run)


def limits(base):
    """The size limits a type is checked against: those it states, else zero and the configured or default maximum."""
    def opts(m, c):
        return ([vopt(m, '*', VT)] if base in ('ArrayOf', 'MapOf') else []) + ([vopt(m, '+', KT)] if base == 'MapOf' else []) + size_opts(m, c)

    def body(m):
        codec_body(m, base, 'enc', opts, cfg=True)
        c = m.ctxobj
        ts = m.getitem(m.getattr(c.codec, 'symtab'), S(tname(D)))
        to = m.getattr(ts, 'TypeOpts')
        return T([m.getitem(to, K('minv')), m.getitem(to, K('maxv'))])

    def p(m, o):
        c = m.ctxobj
        lo, hi = (m.intterm(x) for x in o.value.items)
        dflt = c.cfg[LIMIT_OF.get(base, '$MaxElements')]
        yield 'minimum', lo == (c.minv if c.minv is not None else 0)
        yield 'maximum', hi == (z3.If(c.maxv == 0, dflt, c.maxv) if c.maxv is not None else dflt)

    def run(P):
        P.contract(f'{base} limits', body, p)
    return (f'{base} limits', run)


def parts(pid, tier):
    ops = ('enc',) if pid == 'C07' else ('enc', 'dec')
    out = [f(pid, op) for op in ops for f in (array, array_of, map_of)]
    return out + ([limits(b) for b in ('Array', 'ArrayOf', 'MapOf')] if pid == 'C03' else [])
