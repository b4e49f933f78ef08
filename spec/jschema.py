"""C17: the writers of JSON Schema keywords."""
from .util import *
import json
import jadn.translate.jsonschema_w as J
from jadn import utils as U
from jadn.definitions import CORE_TYPES, is_builtin

W = F('W', Str, Val)            # contract of w_fdef: the definition of the field of this name
WK = F('WK', Str, Val)          # contract of w_kvtype
minc, maxc = F('minc', Int, Int), F('maxc', Int, Int)
hasminc = F('hasminc', Int, Bool)
LIM = {k: z3.Int('limit_' + k) for k in ('minv', 'maxv')}
FLIM = {k: z3.Const('limit_' + k, Real) for k in ('minf', 'maxf')}


def topts(m, c, names):
    """options dictionary with each of the named options present or absent"""
    c.has = {}
    layers = []
    for n in names:
        if n[-1] == '!':        # always given
            c.has[n[:-1]] = True
            layers.append((K(n[:-1]), S(z3.Const('opt_' + n[:-1], Str))))
            continue
        c.has[n] = m.branch(z3.Bool('has_' + n))
        if c.has[n]:
            v = I(LIM[n]) if n in LIM else Fl(z3.IntVal(0), FLIM[n]) if n in FLIM else S(z3.Const('opt_' + n, Str)) if n in ('pattern', 'vtype', 'ktype', 'format') else K(True)
            layers.append((K(n), v))
    return pdct(m, layers)


def limit(c, k):
    return None if not c.has.get(k) else LIM[k] if k in LIM else Fl(z3.IntVal(0), FLIM[k])


def tdef(m, base, fields=None):
    row = [sstr('TN'), K(base), lst(m, []), sstr('TD')]
    if fields is not None:
        row.append(fields)
    return lst(m, row)


def frow(m, options=True):
    def fopts(j):
        out = []
        if m.branch(hasminc(j)):
            m.assume(minc(j) >= 0)
            s = th.sint(minc(j))
            out.append(m.concat([K('['), S(s)]))
        o = HList([Items(out)])
        o.owner = 'input'
        return m.alloc(o)

    def at(j):
        j = j if z3.is_expr(j) else z3.IntVal(j)
        return m.alloc(HList([Items([I(fid(j)), S(fname(j)), S(ftype(j)), Stale(lambda: fopts(j)), S(fdesc(j))])]))
    return at


def irow(m):
    def at(j):
        j = j if z3.is_expr(j) else z3.IntVal(j)
        return m.alloc(HList([Items([I(fid(j)), S(fname(j)), S(fdesc(j))])]))
    return at


fnidx = F('fnidx', Str, Int)


def distinct_names(m):
    j = z3.Int('j')
    m.axioms.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), fnidx(fname(j)) == j), patterns=[fname(j)]))


def stub(m):
    """w_fdef and w_kvtype by their contracts"""
    def field(m, args, kw):
        return Sym(W(m.strterm(m.getitem(args[0], K(1)))))
    m.contracts[J.w_fdef] = field
    m.contracts[J.w_kvtype] = lambda m, a, k: Sym(WK(m.strterm(a[0])))


def writer(fn, base, opts, spec, fields=None, names=()):
    """contract of a writer: spec(c) gives the stated keywords and their values (None: the keyword is absent)"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(N >= 0)
        distinct_names(m)
        stub(m)
        t = tdef(m, base, fields(m) if fields else None)
        o = topts(m, c, opts)
        ctx = dct(m, enum_style=K('enum'), verbose=K(True), config=K({}), type_defs=m.alloc(HDict()))
        mine(m)
        return m.call(K(getattr(J, fn)), [t, o, ctx])

    def post(m, c, r):
        if not is_map(m, r):
            yield 'a mapping is returned', z3.BoolVal(False)
            return
        for k, v in spec(c).items():
            yield holds(m, r, k, v(m, entry(m, r, k)) if callable(v) else v)

    def run(P):
        P.contract(fn, body, returns(post))
    return (fn, run)


def nonzero(c, k='minv'):
    """a minimum of zero need not be stated"""
    return lambda m, got: None if not c.has[k] or got is None and m.implied(LIM[k] == 0) else LIM[k]


def required(j):
    return z3.Or(z3.Not(hasminc(j)), minc(j) >= 1)


def objects():
    """Map, and Record in verbose form: bounds, required fields, and a definition for each field and no other"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(N >= 0)
        distinct_names(m)
        stub(m)
        t = tdef(m, 'Map', run(m, N, frow(m)))
        o = topts(m, c, ['minv', 'maxv'])
        mine(m)
        return m.call(K(J.t_map), [t, o, dct(m, enum_style=K('enum'))])

    def post(m, c, r):
        yield holds(m, r, 'type', 'object')
        yield holds(m, r, 'additionalProperties', False)
        got = entry(m, r, 'minProperties')
        yield holds(m, r, 'minProperties', nonzero(c)(m, got))
        yield holds(m, r, 'maxProperties', limit(c, 'maxv'))
        m.assume(z3.And(0 <= POS, POS < N))
        req = entry(m, r, 'required')
        inlist = req is not None and m.truth(m.mkbool(m.contains(req, S(fname(POS)))))
        yield 'exactly the required fields are listed', required(POS) if inlist else z3.Not(required(POS))

    def post2(m, c, r):
        req = entry(m, r, 'required')
        if req is None:
            return
        n = m.list_len(m.heap[req.oid])
        m.assume(z3.And(0 <= POS, POS < n))
        x = m.list_at(m.heap[req.oid], POS)
        q = fnidx(m.strterm(x))
        yield 'only names of fields are listed', z3.And(0 <= q, q < N, fname(q) == m.strterm(x))

    def post3(m, c, r):
        p = entry(m, r, 'properties')
        m.assume(z3.And(0 <= POS, POS < N))
        v = entry(m, p, S(fname(POS))) if p is not None else None
        yield 'each field has its definition', z3.BoolVal(False) if v is None else m.box(v) == W(fname(POS))

    def post4(m, c, r):
        p = entry(m, r, 'properties')
        m.assume(th.hashable(KEY))
        if p is not None and entry(m, p, Sym(KEY)) is not None:
            q = fnidx(Val.sv(KEY))
            yield 'no other property is defined', z3.And(th.is_str(KEY), 0 <= q, q < N, fname(q) == Val.sv(KEY))

    def run_(P):
        P.contract('t_map', body, [returns(x) for x in (post, post2, post3, post4)])
    return ('t_map', run_)


def listing(fn, base, opts, spec, items):
    """writers of lists of definitions: Array (and Record in compact form), Choice"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(N >= 0)
        distinct_names(m)
        stub(m)
        t = tdef(m, base, run(m, N, frow(m)))
        o = topts(m, c, opts)
        mine(m)
        return m.call(K(getattr(J, fn)), [t, o, dct(m, enum_style=K('enum'))])

    def post(m, c, r):
        for k, v in spec(c).items():
            yield holds(m, r, k, v(m, entry(m, r, k)) if callable(v) else v)

    def run_(P):
        P.contract(fn, body, [returns(post), returns(items)])
    return (fn, run_)


def each_item(m, c, r):
    """items lists the definition of each field, in order"""
    l = entry(m, r, 'items')
    if not (isinstance(l, Ref) and isinstance(m.heap[l.oid], HList)):
        yield 'items is a list', z3.BoolVal(False)
        return
    h = m.heap[l.oid]
    yield 'as many items as fields', m.list_len(h) == N
    m.assume(z3.And(0 <= POS, POS < N))
    if m.branch(POS < m.list_len(h)):
        yield 'each position has the definition of its field', m.box(m.list_at(h, POS)) == W(fname(POS))


def each_property(m, c, r):
    p = entry(m, r, 'properties')
    if not is_map(m, p):
        yield 'properties is a mapping', z3.BoolVal(False)
        return
    if m.choose(2):
        m.assume(th.hashable(KEY))
        if entry(m, p, Sym(KEY)) is not None:
            q = fnidx(Val.sv(KEY))
            yield 'no other property is defined', z3.And(th.is_str(KEY), 0 <= q, q < N, fname(q) == Val.sv(KEY))
        return
    m.assume(z3.And(0 <= POS, POS < N))
    v = entry(m, p, S(fname(POS)))
    yield 'each alternative has its definition', z3.BoolVal(False) if v is None else m.box(v) == W(fname(POS))


def enumerated():
    """exactly the items, by id or by name, as an enum or as a list of constants"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(N >= 0)
        c.derived = m.branch(z3.Bool('derived'))
        c.id = m.branch(z3.Bool('byid'))
        c.style = 'const' if m.branch(z3.Bool('const')) else 'enum'
        own = run(m, N, irow(m))
        other = tdef(m, 'Map', run(m, N, frow(m)))
        o = pdct(m, ([(K('id'), K(True))] if c.id else []) + ([(K('enum'), sstr('ENUMOF'))] if c.derived else []))
        t = tdef(m, 'Enumerated', lst(m, []) if c.derived else own)
        ctx = dct(m, enum_style=K(c.style), type_defs=pdct(m, [(sstr('ENUMOF'), other)]))
        mine(m)
        return m.call(K(J.t_enumerated), [t, o, ctx])

    def post(m, c, r):
        want = I(fid(POS)) if c.id else S(fname(POS))
        yield holds(m, r, 'type', 'integer' if c.id else 'string')
        l = entry(m, r, 'enum' if c.style == 'enum' else 'oneOf')
        if not (isinstance(l, Ref) and isinstance(m.heap[l.oid], HList)):
            yield 'the items are listed', z3.BoolVal(False)
            return
        h = m.heap[l.oid]
        yield 'as many as there are items', m.list_len(h) == N
        m.assume(z3.And(0 <= POS, POS < N))
        if m.branch(POS < m.list_len(h)):
            x = m.list_at(h, POS)
            if c.style == 'const':
                x = entry(m, x, 'const')
            yield 'each item in its place', same(m, x, want)

    def run_(P):
        P.contract('t_enumerated', body, returns(post))
    return ('t_enumerated', run_)


WT = F('WT', Str, Int, Val)             # contract of w_type: definition of a core type with the options of a field
WR = F('WR', Str, Val)                  # contract of w_ref
MINC, MAXC = z3.Ints('MINC MAXC')


def field():
    """w_fdef: the definition of the field type, in an array with the bounds of the cardinality if the field is repeated"""
    def body(m):
        c = m.ctxobj = Ctx()
        def kind(fn):
            def h(m, args, kw):
                return pdct(m, [(K('what'), K(fn)), (K('of'), args[0] if fn == 'ref' else m.getitem(args[0], K(1)))])
            return h
        m.contracts[J.w_type] = kind('type')
        m.contracts[J.w_ref] = kind('ref')
        opts = []
        c.minc, c.maxc = z3.IntVal(1), z3.IntVal(1)
        m.assume(z3.And(MINC >= 0, z3.Or(MAXC == 0, MAXC >= MINC)))
        if m.branch(z3.Bool('has_minc')):
            opts.append(m.concat([K('['), S(th.sint(MINC))]))
            c.minc = MINC
        if m.branch(z3.Bool('has_maxc')):
            opts.append(m.concat([K(']'), S(th.sint(MAXC))]))
            c.maxc = MAXC
        m.assume(z3.Or(c.maxc == 0, c.maxc >= c.minc))
        c.core = m.branch(z3.Bool('core'))
        if c.core:
            c.type = K('String')
        else:
            for x in CORE_TYPES:
                m.assume(z3.Const('FT', Str) != th.strlit(x))
            c.type = sstr('FT')
        f = lst(m, [I(z3.Int('FID')), sstr('FN'), c.type, lst(m, opts), sstr('FD')])
        mine(m)
        return m.call(K(J.w_fdef), [f, dct(m, enum_style=K('enum'))])

    def single(m, c, t):
        yield holds(m, t, 'what', 'type' if c.core else 'ref')
        yield ('the definition is that of the type of the field', same(m, entry(m, t, 'of'), c.type))

    def post(m, c, r):
        if m.branch(c.maxc == 1):
            yield from single(m, c, r)
            return
        yield holds(m, r, 'type', 'array')
        got = entry(m, r, 'minItems')
        low = z3.If(c.minc > 1, c.minc, z3.IntVal(1))
        yield 'the minimum count is a bound', same(m, got, low) if got is not None else z3.BoolVal(False)
        got = entry(m, r, 'maxItems')
        yield 'the maximum count is a bound', c.maxc == 0 if got is None else z3.And(c.maxc != 0, same(m, got, c.maxc))
        it = entry(m, r, 'items')
        if it is None or not is_map(m, it):
            yield 'the items are defined', z3.BoolVal(False)
        else:
            yield from single(m, c, it)

    def run_(P):
        P.contract('w_fdef', body, returns(post))
    return ('w_fdef', run_)


DEFAULTS = {'Integer': None, 'Number': None, 'Boolean': None, 'Enumerated': None, 'Choice': None, 'String': '$MaxString', 'Binary': '$MaxBinary',
            'Array': '$MaxElements', 'ArrayOf': '$MaxElements', 'Map': '$MaxElements', 'MapOf': '$MaxElements', 'Record': '$MaxElements'}
WRITERS = {'Binary': 't_binary', 'Boolean': 't_boolean', 'Integer': 't_integer', 'Number': 't_number', 'String': 't_string', 'Enumerated': 't_enumerated',
           'Choice': 't_choice', 'Array': 't_array', 'ArrayOf': 't_array_of', 'Map': 't_map', 'MapOf': 't_map_of', 'Record': 't_map'}


def typ(base, verbose=True):
    """w_type: the writer of the base type gets the stated maximum, or the default one where there is none"""
    cfg = {k: z3.Int('cfg_' + k) for k in ('$MaxBinary', '$MaxString', '$MaxElements')}

    def body(m):
        c = m.ctxobj = Ctx()
        c.calls = []
        for fn in set(WRITERS.values()):
            def h(m, args, kw, fn=fn):
                return pdct(m, [(K('writer'), K(fn)), (K('max'), entry(m, args[1], 'maxv') or K(None)), (K('min'), entry(m, args[1], 'minv') or K(None))])
            m.contracts[getattr(J, fn)] = h
        t = tdef(m, base)
        o = topts(m, c, ['minv', 'maxv'])
        ctx = dct(m, verbose=K(verbose), config=pdct(m, [(K(k), I(v)) for k, v in cfg.items()]))
        m.heap[t.oid].owner = 'input'
        return m.call(K(J.w_type), [t, o, ctx])

    def post(m, c, r):
        yield holds(m, r, 'writer', WRITERS[base] if verbose else 't_array')
        want = LIM['maxv'] if c.has['maxv'] else cfg[DEFAULTS[base]] if DEFAULTS[base] else K(None)
        yield holds(m, r, 'max', want)
        yield holds(m, r, 'min', LIM['minv'] if c.has['minv'] else K(None))

    name = f'w_type {base}' + ('' if verbose else ' compact')

    def run_(P):
        P.contract(name, body, returns(post))
    return (name, run_)


def combine(letter, word):
    """Choice with combine: each alternative by its own definition, with the stated keyword"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(N >= 0)
        distinct_names(m)
        stub(m)
        for fn in TYPE_WRITER_NAMES:
            m.contracts[getattr(J, fn)] = lambda m, a, k: K('not the definition of the field')
        m.contracts[J.w_ref] = lambda m, a, k: K('not the definition of the field')
        t = tdef(m, 'Choice', run(m, N, frow(m)))
        o = pdct(m, [(K('combine'), K(letter))])
        mine(m)
        return m.call(K(J.t_choice), [t, o, dct(m, enum_style=K('enum'))])

    def post(m, c, r):
        l = entry(m, r, word)
        if not (isinstance(l, Ref) and isinstance(m.heap[l.oid], HList)):
            yield 'the alternatives are listed', z3.BoolVal(False)
            return
        h = m.heap[l.oid]
        yield 'as many as there are alternatives', m.list_len(h) == N
        m.assume(z3.And(0 <= POS, POS < N))
        if m.branch(POS < m.list_len(h)):
            yield 'each alternative by its own definition', same(m, m.list_at(h, POS), Sym(W(fname(POS))))

    def run_(P):
        P.contract(f't_choice {word}', body, returns(post))
    return (f't_choice {word}', run_)


KVT = {'Binary': 'string', 'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}


def kvtype(what):
    """w_kvtype: a core type by its name, an enumeration of the fields of a type, or a reference"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(N >= 0)
        m.contracts[J.w_ref] = lambda m, a, k: pdct(m, [(K('ref'), a[0])])
        c.ids = False
        c.style = 'const' if m.branch(z3.Bool('const')) else 'enum'
        td = HDict()
        if what == 'enum':
            c.ids = m.branch(z3.Bool('byid'))
            o = lst(m, [K('=')] if c.ids else [])
            other = lst(m, [sstr('ENUMOF'), K('Record'), o, sstr('TD'), run(m, N, frow(m))])
            td = HDict([('w', sstr('ENUMOF'), other)])
            arg = m.concat([K('#'), sstr('ENUMOF')])
        elif what == 'ref':
            t = z3.Const('T', Str)
            for x in [*CORE_TYPES, '']:
                m.assume(t != th.strlit(x))
            m.assume(th.slen(t) > 0)
            for x in '#>':
                m.assume(th.schar(t, z3.IntVal(0)) != th.strlit(x))
            arg = S(t)
        else:
            arg = K(what)
        mine(m)
        return m.call(K(J.w_kvtype), [arg, dct(m, enum_style=K(c.style), type_defs=m.alloc(td))])

    def post(m, c, r):
        if what in KVT:
            yield holds(m, r, 'type', KVT[what])
            return
        if what == 'ref':
            yield holds(m, r, 'ref', z3.Const('T', Str))
            return
        l = entry(m, r, 'enum' if c.style == 'enum' else 'oneOf')
        if not (isinstance(l, Ref) and isinstance(m.heap[l.oid], HList)):
            yield 'the items are listed', z3.BoolVal(False)
            return
        h = m.heap[l.oid]
        yield 'as many as there are fields', m.list_len(h) == N
        m.assume(z3.And(0 <= POS, POS < N))
        if m.branch(POS < m.list_len(h)):
            x = m.list_at(h, POS)
            if c.style == 'const':
                x = entry(m, x, 'const')
            yield 'each field in its place', same(m, x, I(fid(POS)) if c.ids else S(fname(POS)))

    def run_(P):
        P.contract(f'w_kvtype {what}', body, returns(post))
    return (f'w_kvtype {what}', run_)


def mapof():
    """t_map_of: bounds of the count, and the definitions of key and value"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.contracts[J.w_kvtype] = lambda m, a, k: Sym(WK(m.strterm(a[0])))
        kt, vt = z3.Const('opt_ktype', Str), z3.Const('opt_vtype', Str)
        m.assume(kt != vt)
        td = HDict()
        if m.branch(z3.Bool('key_defined')):
            other = lst(m, [S(kt), K('String') if m.branch(z3.Bool('key_string')) else K('Integer')])
            td = HDict([('w', S(kt), other)])
        o = topts(m, c, ['ktype!', 'vtype!', 'minv', 'maxv'])
        t = tdef(m, 'MapOf')
        mine(m)
        return m.call(K(J.t_map_of), [t, o, dct(m, enum_style=K('enum'), type_defs=m.alloc(td))])

    def post(m, c, r):
        kt, vt = z3.Const('opt_ktype', Str), z3.Const('opt_vtype', Str)
        typ = entry(m, r, 'type')
        obj = m.truth(m.mkbool(same(m, typ, 'object')))
        if obj:
            yield holds(m, r, 'additionalProperties', False)
        else:
            yield holds(m, r, 'type', 'array')
        lo, hi = ('minProperties', 'maxProperties') if obj else ('minItems', 'maxItems')
        yield holds(m, r, lo, nonzero(c)(m, entry(m, r, lo)))
        yield holds(m, r, hi, limit(c, 'maxv'))
        it = r if obj else entry(m, r, 'items')
        p = entry(m, it, 'properties') if it is not None else None
        for k in (kt, vt):
            v = entry(m, p, S(k)) if p is not None else None
            yield 'key and value have their definitions', same(m, v, Sym(WK(k)))

    def run_(P):
        P.contract('t_map_of', body, returns(post))
    return ('t_map_of', run_)


def ref():
    """w_ref: to the definition of this name"""
    def body(m):
        t = z3.Const('T', Str)
        m.ctxobj = Ctx()
        for x in CORE_TYPES:
            m.assume(t != th.strlit(x))
        m.assume(z3.Not(m.substr(S(t), K(':'))))
        mine(m)
        return m.call(K(J.w_ref), [S(t), dct(m, info_imps=K(None))])

    def post(m, c, r):
        yield holds(m, r, '$ref', m.concat([K('#/definitions/'), sstr('T')]))

    def run_(P):
        P.contract('w_ref', body, returns(post))
    return ('w_ref', run_)


M = z3.Int('M')                 # number of exports
expname = F('expname', Int, Str)


def dumps():
    """json_schema_dumps: the definitions are those of exactly the types of the schema"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(z3.And(N >= 0, M >= 0))
        distinct_names(m)
        m.contracts[json.dumps] = lambda m, a, k: a[0]
        m.contracts[J.get_config] = lambda m, a, k: K({})
        m.contracts[J.spaces] = lambda m, a, k: a[0]
        m.contracts[J.w_export] = lambda m, a, k: pdct(m, [(K('$ref'), K('export'))])
        m.contracts[J.w_type] = lambda m, a, k: pdct(m, [(K('of'), m.getitem(a[0], K(0))), (K('base'), m.getitem(a[0], K(1)))])
        info = []
        if m.branch(z3.Bool('exports')):
            info.append((K('exports'), run(m, M, lambda j: S(expname(j if z3.is_expr(j) else z3.IntVal(j))))))

        def at(j):
            j = j if z3.is_expr(j) else z3.IntVal(j)
            return m.alloc(HList([Items([S(fname(j)), S(ftype(j)), lst(m, []), S(fdesc(j)), lst(m, [])])]))
        schema = dct(m, types=run(m, N, at), info=pdct(m, info))
        mine(m)
        return m.call(K(J.json_schema_dumps), [schema])

    def post(m, c, r):
        d = entry(m, r, 'definitions')
        if d is None or not is_map(m, d):
            yield 'there are definitions', z3.BoolVal(False)
            return
        if m.choose(2):
            m.assume(th.hashable(KEY))
            if entry(m, d, Sym(KEY)) is not None:
                q = fnidx(Val.sv(KEY))
                yield 'no other definition', z3.And(th.is_str(KEY), 0 <= q, q < N, fname(q) == Val.sv(KEY))
            return
        m.assume(z3.And(0 <= POS, POS < N))
        v = entry(m, d, S(fname(POS)))
        if v is None:
            yield 'each type has a definition', z3.BoolVal(False)
            return
        yield holds(m, v, 'of', fname(POS))
        yield holds(m, v, 'base', ftype(POS))

    def run_(P):
        P.contract('json_schema_dumps', body, returns(post))
    return ('json_schema_dumps', run_)


TYPE_WRITER_NAMES = ('t_binary', 't_boolean', 't_integer', 't_number', 't_string', 't_enumerated', 't_array', 't_array_of', 't_map', 't_map_of')


def parts(pid, tier):
    return [
        writer('t_binary', 'Binary', ['minv', 'maxv', 'format'], lambda c: {'type': 'string'}),
        writer('t_boolean', 'Boolean', [], lambda c: {'type': 'boolean'}),
        writer('t_integer', 'Integer', ['minv', 'maxv'], lambda c: {'type': 'integer', 'minimum': limit(c, 'minv'), 'maximum': limit(c, 'maxv')}),
        writer('t_number', 'Number', ['minf', 'maxf'], lambda c: {'type': 'number', 'minimum': limit(c, 'minf'), 'maximum': limit(c, 'maxf')}),
        writer('t_string', 'String', ['minv', 'maxv', 'pattern', 'format'], lambda c: {
            'type': 'string', 'minLength': nonzero(c), 'maxLength': limit(c, 'maxv'),
            **({} if c.has['format'] and not c.has['pattern'] else {'pattern': z3.Const('opt_pattern', Str) if c.has['pattern'] else None})}),
        writer('t_array_of', 'ArrayOf', ['minv', 'maxv', 'unique', 'vtype!'], lambda c: {
            'type': 'array', 'minItems': nonzero(c), 'maxItems': limit(c, 'maxv'), 'uniqueItems': True if c.has['unique'] else None,
            'items': Sym(WK(z3.Const('opt_vtype', Str)))}),
        objects(),
        listing('t_array', 'Array', ['minv', 'maxv'], lambda c: {
            'type': 'array', 'minItems': nonzero(c), 'maxItems': limit(c, 'maxv'), 'additionalItems': False}, each_item),
        listing('t_choice', 'Choice', [], lambda c: {'type': 'object', 'additionalProperties': False, 'minProperties': 1, 'maxProperties': 1}, each_property),
        enumerated(), field(), mapof(), ref(), dumps(),
        combine('O', 'anyOf'), combine('A', 'allOf'), combine('X', 'oneOf'),
        kvtype('ref'), kvtype('enum'), *(kvtype(k) for k in KVT),
    ] + [typ(b) for b in WRITERS] + [typ('Record', False)]
