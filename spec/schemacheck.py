"""C11: what a schema that passes check() satisfies."""
from .util import *
import jadn
from jadn import core, utils as U
from jadn.definitions import (CORE_TYPES, REQUIRED_TYPE_OPTIONS, ALLOWED_TYPE_OPTIONS, VALID_FORMATS, FIELD_LENGTH)

OPTS = z3.Const('OPTS', th.Dct)
# the options each core type requires and allows, and the type each format applies to (the JADN specification, not the tables of the code)
NEEDED = {'ArrayOf': {'vtype'}, 'MapOf': {'ktype', 'vtype'}}
ALLOWED = {
    'Binary': {'format', 'minv', 'maxv'}, 'Boolean': set(), 'Integer': {'format', 'minv', 'maxv'},
    'Number': {'format', 'minf', 'maxf'}, 'String': {'format', 'pattern', 'minv', 'maxv'},
    'Enumerated': {'id', 'enum', 'pointer', 'extend'}, 'Choice': {'id', 'extend', 'combine'},
    'Array': {'extend', 'format', 'minv', 'maxv'}, 'ArrayOf': {'vtype', 'minv', 'maxv', 'unique', 'set', 'unordered'},
    'Map': {'id', 'extend', 'minv', 'maxv', 'sequence'}, 'MapOf': {'ktype', 'vtype', 'minv', 'maxv', 'sequence'},
    'Record': {'extend', 'minv', 'maxv', 'sequence'}}
FORMATS = {
    'String': ['date-time', 'date', 'time', 'duration', 'idn-email', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'iri-reference',
               'uri-template', 'json-pointer', 'relative-json-pointer', 'regex', 'email', 'hostname'],
    'Binary': ['eui', 'uuid', 'ipv4-addr', 'ipv6-addr', 'b', 'x', 'X'], 'Array': ['tag-uuid', 'ipv4-net', 'ipv6-net'],
    'Integer': ['i8', 'i16', 'i32', 'i64', 'datetime-ms'], 'Number': ['f16', 'f32', 'f64']}


def key(k):
    return Val.VStr(th.strlit(k))


def has(k):
    return th.dhas(OPTS, key(k))


def val(k):
    return th.dget(OPTS, key(k))


def typed(m):
    """options have values of the type their identifiers stand for (topts_s2d)"""
    for k in ('minv', 'maxv'):
        m.assume(z3.Implies(has(k), th.is_int(val(k))))
    for k in ('minf', 'maxf'):
        m.assume(z3.Implies(has(k), z3.And(th.is_flt(val(k)), Val.fk(val(k)) == 0)))
    for k in ('format', 'pattern', 'vtype', 'ktype', 'enum', 'pointer', 'combine'):
        m.assume(z3.Implies(has(k), th.is_str(val(k))))


def typeopts(base):
    def body(m):
        m.ctxobj = Ctx()
        typed(m)
        return m.call(K(core.check_typeopts), [sstr('TN'), K(base), Sym(Val.VDct(OPTS))])

    def post(m, o):
        if o.kind == 'raise':
            return
        for k in sorted(NEEDED.get(base, ())):
            yield f'{k} is required', has(k)
        for a, b, what in (('minv', 'maxv', Val.iv), ('minf', 'maxf', Val.fr)):
            yield f'{a} is not above {b}', z3.Implies(z3.And(has(a), has(b)), what(val(a)) <= what(val(b)))
        f = Val.sv(val('format'))
        yield 'the format fits the type', z3.Implies(z3.And(has('format'), th.slen(f) > 0), z3.Or(*[f == th.strlit(x) for x in FORMATS.get(base, ())]))
        yield 'not of the fields and of pointers', z3.Not(z3.And(has('enum'), has('pointer')))
        m.assume(z3.And(th.is_str(KEY), th.hashable(KEY)))
        m.assume(th.dhas(OPTS, KEY))
        yield 'no other option is allowed', z3.Or(*[KEY == key(k) for k in ALLOWED[base]])

    def run(P):
        P.contract(f'check_typeopts {base}', body, post)
    return (f'check_typeopts {base}', run)


def parts(pid, tier):
    return [typeopts(b) for b in ALLOWED]


FULL = ('Array', 'Choice', 'Map', 'Record')
nf = z3.Int('NF')                   # number of fields
rid, rbad = F('rid', Int, Int), F('rbad', Int, Bool)
rname, rtype, rdesc = (F(x, Int, Str) for x in ('rname', 'rtype', 'rdesc'))
ropts = F('ropts', Int, Val)
FO, FT = F('FO', Val, th.Dct), F('FT', Val, th.Dct)         # options of a field by ftopts_s2d
CT = F('CT', Str, th.Dct, Bool)                             # check_typeopts returned
FULL = ('Array', 'Choice', 'Map', 'Record')
FLEN = {'Enumerated': 3, 'Array': 5, 'Choice': 5, 'Map': 5, 'Record': 5}


class Stub:
    def validate(self, x):
        pass

    def encode(self, t, x):
        pass


def setup(m):
    import builtins
    import jsonschema
    import jadn.codec
    c = m.ctxobj = Ctx()
    m.inst(nf >= 0)
    m.contracts[builtins.open] = lambda m, a, k: K(None)
    m.contracts[core.json.load] = lambda m, a, k: K(None)
    m.contracts[core.data_dir] = lambda m, a, k: K('data')
    m.contracts[core.os.path.join] = lambda m, a, k: K('file')
    m.contracts[jsonschema.Draft7Validator] = lambda m, a, k: m.alloc(HInst(Stub, {}))
    m.contracts[Stub.validate] = lambda m, a, k: K(None)
    m.contracts[Stub.encode] = lambda m, a, k: a[2]
    m.contracts[jadn.codec.Codec] = lambda m, a, k: m.alloc(HInst(Stub, {}))
    m.contracts[U.topts_s2d] = lambda m, a, k: Sym(Val.VDct(OPTS))

    def fopts(m, a, k):
        o = a[0].t if isinstance(a[0], Sym) else m.fresh('fo', Val)
        for k in ('minc', 'maxc', 'tagid'):
            m.assume(z3.Implies(th.dhas(FO(o), key(k)), th.is_int(th.dget(FO(o), key(k)))))
        return T([Sym(Val.VDct(FO(o))), Sym(Val.VDct(FT(o)))])
    m.contracts[U.ftopts_s2d] = fopts

    def ct(m, a, k):
        m.assume(CT(m.strterm(a[1]), Val.dv(m.box(a[2]))))
        return K(None)
    m.contracts[core.check_typeopts] = ct
    return c


def one(base):
    """a schema of one type with any number of fields; one field (at BAD, if there is one) may have another length"""
    flen = FLEN.get(base, 0)

    def row(m, f):
        f = f if z3.is_expr(f) else z3.IntVal(f)
        cols = [I(rid(f)), S(rname(f)), S(rtype(f)), Sym(ropts(f)), S(rdesc(f))]
        n = flen if flen else 5
        return m.alloc(HList([Items(cols[:n])]))

    def body(m):
        c = setup(m)
        t = lst(m, [sstr('TN'), K(base), lst(m, []), sstr('TD'), run(m, nf, lambda f: row(m, f))])
        return m.call(K(core.check), [dct(m, types=lst(m, [t]))])

    def post(m, o):
        if o.kind == 'raise':
            return
        tn = z3.Const('TN', Str)
        yield 'not the name of a core type', z3.And(*[tn != th.strlit(x) for x in CORE_TYPES])
        yield 'its options were checked', CT(th.strlit(base), OPTS)
        if not flen:
            yield 'it has no fields', nf == 0
            return
        yield 'no fields with enum or pointer', z3.Or(nf == 0, z3.Not(z3.Or(has('enum'), has('pointer'))))
        Q = z3.Int('Q')
        m.assume(z3.And(0 <= Q, Q < POS, POS < nf))
        yield 'field ids are distinct', rid(Q) != rid(POS)
        yield 'field names are distinct', rname(Q) != rname(POS)
        if flen < 5:
            return
        yield 'no anonymous structure', z3.And(*[rtype(POS) != th.strlit(x) for x in FULL])
        if base in ('Array', 'Record'):
            yield 'field ids are ordinal', rid(POS) == POS + 1
        fo, ft = FO(ropts(POS)), FT(ropts(POS))
        g = lambda k, d: z3.If(th.dhas(fo, key(k)), Val.iv(th.dget(fo, key(k))), z3.IntVal(d))      # noqa
        lo, hi = g('minc', 1), g('maxc', 1)
        yield 'multiplicity', z3.And(lo >= 0, hi >= 0, z3.Or(hi == 0, lo <= hi))
        core_ = z3.Or(*[rtype(POS) == th.strlit(x) for x in CORE_TYPES])
        yield 'the options of core types were checked', z3.Implies(core_, CT(rtype(POS), ft))
        j = z3.Int('j')
        tag = Val.iv(th.dget(fo, key('tagid')))
        yield 'an external tag is a field', z3.Implies(th.dhas(fo, key('tagid')), z3.Not(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nf), rid(j) != tag), patterns=[rid(j)])))
        m.assume(z3.And(th.is_str(KEY), th.dhas(ft, KEY)))
        yield 'no type options on a reference', z3.Implies(z3.Not(core_), z3.And(KEY == key('unique'), hi != 1))

    def go(P):
        P.contract(f'check {base}', body, post)
    return (f'check {base}', go)


def length(base):
    """a field of the wrong length is rejected"""
    flen, BAD = FLEN.get(base, 0), z3.Int('BAD')

    def body(m):
        setup(m)
        m.assume(z3.And(0 <= BAD, BAD < nf))
        m.points = [BAD]

        def row(f):
            f = f if z3.is_expr(f) else z3.IntVal(f)
            cols = [I(rid(f)), S(rname(f)), S(rtype(f)), Sym(ropts(f)), S(rdesc(f))]
            n = (flen or 5) if not m.branch(f == BAD) else 3 if flen == 5 else 5
            return m.alloc(HList([Items(cols[:n])]))
        t = lst(m, [sstr('TN'), K(base), lst(m, []), sstr('TD'), run(m, nf, row)])
        return m.call(K(core.check), [dct(m, types=lst(m, [t]))])

    def post(m, o):
        yield 'it is rejected', z3.BoolVal(o.kind == 'raise')

    def go(P):
        P.contract(f'check length {base}', body, post)
    return (f'check length {base}', go)


NT = z3.Int('NT')
tname, tbase = F('tname', Int, Str), F('tbase', Int, Str)


def names(P):
    """any number of types (without fields)"""
    def body(m):
        setup(m)
        m.inst(NT >= 0)

        def at(j):
            j = j if z3.is_expr(j) else z3.IntVal(j)
            return lst(m, [S(tname(j)), S(tbase(j)), lst(m, []), sstr('TD')])
        return m.call(K(core.check), [dct(m, types=run(m, NT, at))])

    def post(m, o):
        if o.kind == 'raise':
            return
        Q = z3.Int('Q')
        m.assume(z3.And(0 <= Q, Q < POS, POS < NT))
        yield 'names are distinct', tname(Q) != tname(POS)
        yield 'not the name of a core type', z3.And(*[tname(POS) != th.strlit(x) for x in CORE_TYPES])
        yield 'the base is a core type', z3.Or(*[tbase(POS) == th.strlit(x) for x in CORE_TYPES])
        yield 'the options were checked', CT(tbase(POS), OPTS)
    P.contract('check of the names of types', body, post)


_p0 = parts


def parts(pid, tier):
    return [one(b) for b in ALLOWED] + [length(b) for b in FLEN] + [('check names', names)] + _p0(pid, tier)
