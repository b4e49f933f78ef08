"""Contracts of the codec (C01-C08): the real constructor builds the symbol table of a symbolic core schema, the real
encoders and decoders run on it; recursion is replaced by the contract of Codec.encode / Codec.decode."""
import z3

from .base import *
import jadn
from jadn.codec import Codec
from jadn.codec import codec as cc
from jadn.codec import format_validate as fv, format_serialize_json as fs
import jadn.codec as jc
from jadn.definitions import CORE_TYPES
from pyvc.models import simp

F = z3.Function
Int, Bool, Str, Real = th.Int, th.Bool, th.Str, th.Real
# schema
tname, tnidx = F('tname', Int, Str), F('tnidx', Str, Int)
fid, fidx = F('fid', Int, Int), F('fidx', Int, Int)
fname, fnidx = F('fname', Int, Str), F('fnidx', Str, Int)
ftype = F('ftype', Int, Str)
fdesc = F('fdesc', Int, Str)
hasminc, hastag, isopt = F('hasminc', Int, Bool), F('hastag', Int, Bool), F('isopt', Int, Bool)
tx = F('tx', Int, Int)
NT, D, NF = z3.Ints('NT D NF')
# contract of Codec.encode / Codec.decode for the types of components
encok, encV = F('encok', Str, Val, Bool), F('encV', Str, Val, Val)
decok, decV = F('decok', Str, Val, Bool), F('decV', Str, Val, Val)
single = F('single', Val, Val, th.Dct)

CORE = set(CORE_TYPES) | {'TypeRef'}
MODES = [(a, b) for a in (False, True) for b in (False, True)]


def intval(v):
    return z3.If(th.is_bool(v), z3.If(Val.bv(v), z3.IntVal(1), z3.IntVal(0)), Val.iv(v))


def pure_int(v):
    return th.is_int(v)


class Ctx:
    pass


def field_facts(m, c, j):
    m.inst(fnidx(fname(j)) == j)
    if c.base not in ('Array', 'Record'):
        m.inst(fidx(fid(j)) == j)


def tag_facts(m, c, j):
    m.inst(z3.Implies(hastag(j), z3.And(0 <= tx(j), tx(j) < NF, tx(j) != j, z3.Not(hastag(tx(j))))))
    field_facts(m, c, tx(j))


def codec_body(m, base, op, opts, tagged=True, cfg=False, explicit=False):
    """Builds a codec for a symbolic core schema in which the type at index D has the given base type and options and
    calls the given operation on a symbolic value; returns the result.  opts(m, c) builds the option list."""
    c = m.ctxobj = Ctx()
    c.base, c.op = base, op
    m.lazy = True
    m.inst(z3.And(0 <= D, D < NT, NF >= 0))
    m.axioms = schema_facts(c)
    for x in sorted(CORE):
        m.inst(tname(D) != th.strlit(x))
    c.opts = opts(m, c)
    c.id = any(isinstance(o, K) and o.v == '=' for o in c.opts)
    seqid = base in ('Array', 'Record')
    c.fid = (lambda j: j + 1) if seqid else fid

    def fopts(j):
        out = []
        if explicit:        # every field states its minimum cardinality
            out.append(m.concat([K('['), dec(m, z3.If(isopt(j), z3.IntVal(0), z3.IntVal(1)))]))
        elif m.branch(isopt(j)):
            out.append(K('[0'))
        if tagged and m.branch(hastag(j)):
            tag_facts(m, c, j)
            out.append(m.concat([K('&'), dec(m, c.fid(tx(j)))]))
        elif not tagged:
            m.inst(z3.Not(hastag(j)))
        o = HList([Items(out)])
        o.owner = 'input'
        return m.alloc(o)

    def field(j):
        j = j if z3.is_expr(j) else z3.IntVal(j)
        field_facts(m, c, j)
        row = [I(c.fid(j)), S(fname(j))]
        if base == 'Enumerated':
            row += [S(fdesc(j))]
        else:
            row += [S(ftype(j)), Stale(lambda: fopts(j)), S(fdesc(j))]
        return m.alloc(HList([Items(row)]))

    def row(j):
        j = j if z3.is_expr(j) else z3.IntVal(j)
        m.inst(tnidx(tname(j)) == j)
        r = [S(tname(j)), K(base), m.alloc(HList([Items(list(c.opts))])), K('')]
        if base in ('Enumerated', 'Choice', 'Array', 'Map', 'Record'):
            r.append(m.alloc(HList([Run(NF, field)])))
        return m.alloc(HList([Items(r)]))

    core = m.alloc(HDict([('w', K('types'), m.alloc(HList([Run(NT, row)])))]))
    schema = m.alloc(HDict([('w', K('types'), K(()))]))
    c.cfg = {k: z3.Int('cfg_' + k) for k in ('$MaxBinary', '$MaxString', '$MaxElements')}
    if not cfg or m.branch(z3.Bool('has_config')):
        for v in c.cfg.values():
            m.assume(v >= 1)
        m.dict_set(schema, K('info'), m.alloc(HDict([('w', K('config'), m.alloc(HDict(
            [('w', K(k), I(v)) for k, v in c.cfg.items()])))])))
    else:
        for k, v in c.cfg.items():
            m.assume(v == jadn.definitions.DEFAULT_CONFIG[k])
    for o in m.heap.values():
        o.owner = 'input'
    install(m, core)
    c.schema = schema
    codec = m.construct(Codec, [schema], {'verbose_rec': z3m(m, 'vr0'), 'verbose_str': z3m(m, 'vs0')})
    m.call(m.getattr(codec, 'set_mode'), [mode(m, c, 'vr'), mode(m, c, 'vs')])
    m.lazy = False
    c.codec = codec
    for o in m.heap.values():
        o.owner = 'input'
    c.v = z3.Const('v', Val)
    fn = Codec.encode if op == 'enc' else Codec.decode
    return lambda: m.inline(fn, [codec, S(tname(D)), Sym(c.v)], {})


def z3m(m, name):
    return B(z3.Bool(name))


def mode(m, c, name):
    return B(z3.Bool(name))


VR, VS = z3.Bool('vr'), z3.Bool('vs')


def single_dict(m, k, v):
    """Term for the dictionary {k: v}"""
    t = single(k, v)
    m.inst(z3.And(th.dcard(t) == 1, th.dkey(t, 0) == k, th.dhas(t, th.knorm(k)), th.dget(t, th.knorm(k)) == v, th.dval(t, 0) == v, th.didx(t, th.knorm(k)) == 0))
    return Val.VDct(t)


def box_arg(m, v):
    if isinstance(v, Ref) and isinstance(m.heap[v.oid], HDict):
        ls = m.heap[v.oid].layers
        if len(ls) == 1 and ls[0][0] == 'w':
            return single_dict(m, m.box(ls[0][1]), m.box(ls[0][2]))
    return m.box(v)


def recursion(okf, valf):
    def h(m, args, kwargs):
        codec, tn, v = args
        t = m.strterm(tn)
        b = box_arg(m, v)
        m.assume(z3.Implies(th.is_none(b), z3.Not(okf(t, b))))
        if m.branch(okf(t, b)):
            r = valf(t, b)
            m.assume(z3.Not(th.is_none(r)))
            if isinstance(v, Ref):
                # contract of a tagged Choice: the result has one entry, which is not None
                m.assume(z3.And(th.is_dct(r), th.dcard(Val.dv(r)) == 1, z3.Not(th.is_none(th.dval(Val.dv(r), 0)))))
            return Sym(r)
        # outside any try block of the code under contract the class makes no difference to what it does
        raise PyRaise((ValueError, TypeError)[m.choose(2)] if m.trydepth else ValueError, note='component rejected')
    return h


def absent_name(m):
    """No type of the schema has the name of a core type (precondition: C11)"""
    core = {th.strlit(x).get_id(): th.strlit(x) for x in CORE}

    def f(c, kt):
        if not (z3.is_app(kt) and kt.decl().name() == 'VStr' and kt.arg(0).get_id() in core) or not z3.eq(c.n, NT):
            return False
        j = m.fresh('ix', Int)
        return z3.eq(m.box(c.key(j)), Val.VStr(tname(j)))
    return f


def install(m, core):
    m.absent = absent_name(m)
    m.contracts[jadn.transform.unfold_extensions] = lambda m, a, k: core
    m.contracts[jc.unfold_extensions] = lambda m, a, k: core
    m.contracts[fv.format_validators] = lambda m, a, k: K(fv.format_validators())
    m.contracts[fs.json_format_codecs] = lambda m, a, k: K(fs.json_format_codecs())
    m.contracts[jc.format_validators] = m.contracts[fv.format_validators]
    m.contracts[jc.json_format_codecs] = m.contracts[fs.json_format_codecs]
    m.contracts[Codec.encode] = recursion(encok, encV)
    m.contracts[Codec.decode] = recursion(decok, decV)


# ---------------------------------------------------------------- options
MINV, MAXV = z3.Ints('MINV MAXV')
MINF, MAXF = z3.Consts('MINF MAXF', Val)


def dec(m, t):
    """decimal text of the integer t: non-empty, and not starting with a $"""
    s = th.sint(t)
    m.inst(z3.And(th.slen(s) >= 1, th.schar(s, 0) != th.strlit('$')))
    return S(s)


def num_opts(m, c, ch=('{', '}')):
    out = []
    c.minv = c.maxv = None
    if m.branch(z3.Bool('has_minv')):
        out.append(m.concat([K(ch[0]), dec(m, MINV)]))
        c.minv = MINV
    if m.branch(z3.Bool('has_maxv')):
        out.append(m.concat([K(ch[1]), dec(m, MAXV)]))
        c.maxv = MAXV
    return out


def size_opts(m, c):
    m.assume(z3.And(MINV >= 0, MAXV >= 0))
    return num_opts(m, c)


def both_sizes(m, c):
    """Both limits given (that absent limits are replaced by 0 and the configured maximum is the contract of set_mode)"""
    m.assume(z3.And(MINV >= 0, MAXV >= 1))
    c.minv, c.maxv = MINV, MAXV
    return [m.concat([K('{'), dec(m, MINV)]), m.concat([K('}'), dec(m, MAXV)])]


def size_ok(c, n, key='$MaxElements'):
    g = []
    if c.minv is not None:
        g.append(n >= c.minv)
    dflt = c.cfg[key]
    if c.maxv is not None:
        g.append(n <= z3.If(c.maxv == 0, dflt, c.maxv))
    else:
        g.append(n <= dflt)
    return z3.And(*g)


def post(ok, result=None, classes=(ValueError, TypeError)):
    """Accept-iff contract: a return implies the value is valid (and the result as stated), a raise that it is not.
    The last two obligations are what the contract of Codec.encode / Codec.decode says of every type."""
    def p(m, o):
        c = m.ctxobj
        good = ok(m, c)
        if o.kind == 'raise':
            yield 'rejected values raise ' + ' or '.join(x.__name__ for x in classes), z3.BoolVal(exc_ok(o, classes))
            yield 'only invalid values are rejected', z3.Not(good)
        else:
            yield 'only valid values are accepted', good
            yield 'null is not accepted', z3.Not(th.is_none(c.v))
            yield 'the result is not null', z3.BoolVal(not (isinstance(o.value, K) and o.value.v is None)) if not isinstance(o.value, Sym) else z3.Not(th.is_none(o.value.t))
            if result is not None:
                for lab, g in result(m, c, o.value):
                    yield lab, g
    return p


# ---------------------------------------------------------------- abstract values
def vd(c):
    return Val.dv(c.v)


def vl(c):
    return Val.lv(c.v)


def S_(t):
    return Val.VStr(t)


def has(d, k):
    return th.dhas(d, th.knorm(k))


def get(d, k):
    return th.dget(d, th.knorm(k))


def forall(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)


def rng(j, n=NF):
    return z3.And(0 <= j, j < n)


def isfname(k):
    j = fnidx(Val.sv(k))
    return z3.And(th.is_str(k), rng(j), fname(j) == Val.sv(k))


def isfid(c, k):
    """k is an integer equal to the id of a field"""
    i = Val.iv(k)
    j = (i - 1) if c.base in ('Array', 'Record') else fidx(i)
    return z3.And(th.is_int(k), rng(j), c.fid(j) == i)


def required(j):
    return z3.Not(isopt(j))


def schema_facts(c):
    """Quantified facts on the symbolic schema the specifications rely on (distinct names and ids; tags)"""
    j = z3.Int('j')
    fs = [forall([j], z3.Implies(rng(j), fnidx(fname(j)) == j), fname(j)),
          forall([j], z3.Implies(z3.And(rng(j), hastag(j)), z3.And(rng(tx(j)), tx(j) != j, z3.Not(hastag(tx(j))))), tx(j)),
]
    if c.base not in ('Array', 'Record'):
        fs.append(forall([j], z3.Implies(rng(j), fidx(fid(j)) == j), fid(j)))
    return fs


def ekey(c, j):
    """key of field j in the serialized form"""
    return S_(fname(j)) if c.vsnow and not c.id else Val.VInt(c.fid(j))


def facts_single(k, v):
    t = single(k, v)
    return z3.And(th.dcard(t) == 1, th.dkey(t, 0) == k, has(t, k), get(t, k) == v)


def comp_enc(c, j, x, tagval, pick=lambda r: r):
    """(valid, result) of component j with value x, and value tagval of its tag field"""
    tagged = Val.VDct(single(tagval, x))
    r = encV(ftype(j), tagged)
    ok = z3.If(hastag(j), z3.And(th.hashable(tagval), encok(ftype(j), tagged)), encok(ftype(j), x))
    res = z3.If(hastag(j), th.dval(Val.dv(r), 0), encV(ftype(j), x))
    return ok, res


def comp_dec(c, j, x, tagval):
    tagged = Val.VDct(single(tagval, x))
    r = decV(ftype(j), tagged)
    ok = z3.If(hastag(j), z3.And(th.hashable(tagval), decok(ftype(j), tagged)), decok(ftype(j), x))
    res = z3.If(hastag(j), th.dval(Val.dv(r), 0), decV(ftype(j), x))
    return ok, res


def count_is(m, n, P):
    """The number of j in [0, n) with P(j): a term equal to every count of an equivalent predicate the code computed."""
    c = m.fresh('count', Int)
    j = z3.Int(f'q!{m.new_id()}')
    terms = list(m.count_terms)
    for x, n2, P2 in terms:
        m.assume(z3.Implies(z3.And(n == n2, z3.ForAll([j], z3.Implies(rng(j, n), P(j) == P2(j)))), c == x))
    m.count_lemma(c, n, P)
    return c


# ---------------------------------------------------------------- Map and Record
def maprec_enc_ok(m, c):
    d = vd(c)
    j, i = z3.Ints('j i')
    fn = lambda j: S_(fname(j))
    ok, _ = comp_enc(c, j, get(d, fn(j)), get(d, fn(tx(j))))
    return z3.And(
        th.is_dct(c.v), size_ok(c, th.dcard(d)),
        forall([i], z3.Implies(rng(i, th.dcard(d)), isfname(th.dkey(d, i))), th.dkey(d, i)),
        forall([j], z3.Implies(rng(j), z3.And(z3.Implies(required(j), has(d, fn(j))),
                                              z3.Implies(has(d, fn(j)), z3.And(ok, z3.Implies(hastag(j), has(d, fn(tx(j)))))))), ftype(j), isopt(j)))


def wanted(pid, ok, res, classes=(ValueError, TypeError), always=False):
    """what is proved of each path: acceptance (and, if always, the result) for C01-C05, the form of the result for C07,
    both for C06"""
    full = post(ok, res, classes)

    def form(m, o):
        if o.kind != 'raise':
            for x in res(m, m.ctxobj, o.value):
                yield x
    def accept(m, o):
        # encoder: what it returns a value for is valid; decoder: what is valid is not rejected
        if (o.kind == 'raise') == (m.ctxobj.op == 'dec'):
            for x in post(ok, None, classes)(m, o):
                yield x
    if pid == 'C07':
        return form
    if pid == 'C06':
        return [accept, form]
    return full if always else post(ok, None, classes)


# ---------------------------------------------------------------- results, at an arbitrary position
POS, KEY = z3.Int('POS'), z3.Const('KEY', Val)


def entries(m, r, key, there, value, iskey, what='field'):
    """The dictionary r has, for the arbitrary index POS, the entry key(POS) exactly if there(POS), with value(POS), and no
    other entries."""
    if not (isinstance(r, Ref) and isinstance(m.heap[r.oid], HDict)):
        return [('the result is a mapping', z3.BoolVal(False))]
    out = []
    h = m.heap[r.oid]
    if m.choose(2):
        m.assume(th.hashable(KEY))
        f = m.dict_find(h, Sym(KEY))
        return [(f'every key is that of a {what}', iskey(th.knorm(KEY)))] if f is not None else []
    m.assume(rng(POS))
    f = m.dict_find(h, key(POS))
    if f is None:
        return [(f'only absent {what}s are left out', z3.Not(there(POS)))]
    return [(f'only present {what}s have an entry', there(POS)), (f'the entry holds the value of the {what}', m.box(f()) == value(POS))]


def entries_spec(r, key, there, value, iskey):
    """the same of the term r, at every index and key"""
    d, j, k = Val.dv(r), z3.Int('j'), z3.Const('k', Val)
    return [th.is_dct(r), forall([j], z3.Implies(rng(j), has(d, key(j)) == there(j)), has(d, key(j))),
            forall([j], z3.Implies(z3.And(rng(j), there(j)), z3.And(has(d, key(j)), get(d, key(j)) == value(j))), get(d, key(j)), ftype(j)),
            forall([k], z3.Implies(th.dhas(d, k), iskey(k)), th.dhas(d, k))]


def positions_spec(r, there, value, limit=NF):
    l, j = Val.lv(r), z3.Int('j')
    n = th.llen(l)
    return [th.is_lst(r), n >= 0, n <= limit, z3.Implies(n > 0, z3.Not(th.is_none(th.lat(l, n - 1)))),
            forall([j], z3.Implies(rng(j, n), th.lat(l, j) == z3.If(there(j), value(j), th.VNone)), th.lat(l, j)),
            forall([j], z3.Implies(z3.And(rng(j, limit), j >= n), z3.Not(there(j))), ftype(j))]


def positions(m, r, there, value, limit=NF):
    """The list r holds value(POS) at POS, null where there is none, and does not end in null."""
    if not (isinstance(r, Ref) and isinstance(m.heap[r.oid], HList)):
        return [('the result is a list', z3.BoolVal(False))]
    h = m.heap[r.oid]
    n = m.list_len(h)
    if m.choose(2):
        out = [('no position beyond the definition', n <= limit)]
        if m.branch(n > 0):
            out.append(('the last position is not null', z3.Not(th.is_none(m.box(m.list_at(h, simp(n - 1)))))))
        return out
    m.assume(rng(POS, limit))
    if not m.branch(POS < n):
        return [('only unpopulated positions are left out', z3.Not(there(POS)))]
    return [('the position holds its value', m.box(m.list_at(h, POS)) == z3.If(there(POS), value(POS), th.VNone))]


def val_at(c, v, ix, key):
    """(present, value) of field j in the serialized value: at position ix of a list, or under the key of a mapping"""
    l, d = Val.lv(v), Val.dv(v)
    return (z3.If(th.is_lst(v), z3.And(ix < th.llen(l), z3.Not(th.is_none(th.lat(l, ix)))), z3.And(has(d, key), z3.Not(th.is_none(get(d, key))))),
            z3.If(th.is_lst(v), th.lat(l, ix), get(d, key)))
