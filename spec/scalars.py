"""C01: Boolean, Integer, Number, String and Binary types; default and configured size limits."""
from .codec import *

PAT = z3.Const('PAT', Str)
MINK, MAXK = z3.Ints('MINK MAXK')
MINR, MAXR = z3.Reals('MINR MAXR')
sflt = F('sflt', Int, Real, Str)


def unchanged(m, c, r):
    return [('the value is returned unchanged', m.box(r) == c.v)]


# ---------------------------------------------------------------- Boolean
def boolean(pid, op):
    def run(P):
        P.contract(f'Boolean {op}', lambda m: codec_body(m, 'Boolean', op, lambda m, c: []), wanted(pid, lambda m, c: th.is_bool(c.v), unchanged, always=True))
    run.ok, run.fn = (lambda m, c: th.is_bool(c.v)), None
    return (f'Boolean {op}', run)


# ---------------------------------------------------------------- Integer
def int_range(c, v):
    return z3.And(*([v >= c.minv] if c.minv is not None else []), *([v <= c.maxv] if c.maxv is not None else []), z3.BoolVal(True))


def integer(pid, op, fmt=None):
    def opts(m, c):
        return num_opts(m, c) + ([K('/' + fmt)] if fmt else [])

    def ok(m, c):
        g = [th.is_int(c.v), int_range(c, Val.iv(c.v))]
        if fmt:
            b = int(fmt[1:])
            g += [Val.iv(c.v) >= -2**(b - 1), Val.iv(c.v) < 2**(b - 1)]
        return z3.And(*g)

    def run(P):
        P.contract(f'Integer{"/" + fmt if fmt else ""} {op}', lambda m: codec_body(m, 'Integer', op, opts), wanted(pid, ok, unchanged, always=True))
    run.ok, run.fn = ok, None
    return (f'Integer{"/" + fmt if fmt else ""} {op}', run)


# conversions: contract of a conversion function of the format tables
convok, convV = F('convok', Str, Val, Bool), F('convV', Str, Val, Val)


def conversion(name, takes, gives):
    """The conversion accepts exactly the values of convok, raises ValueError or TypeError otherwise, and returns a value
    of the stated kind that depends on the argument only (C09 states what it is)."""
    def h(m, args, kwargs):
        v = m.box(args[0])
        s = th.strlit(name)
        m.inst(z3.Implies(convok(s, v), takes(v)))
        m.inst(gives(convV(s, v)))
        if m.branch(convok(s, v)):
            return Sym(convV(s, v))
        raise PyRaise((ValueError, TypeError)[m.choose(2)], note='conversion')
    return h


def conv(name, v):
    return convok(th.strlit(name), v), convV(th.strlit(name), v)


def datetime_ms(pid, op):
    fn = {'enc': 'int2datems', 'dec': 'datems2int'}[op]

    def body(m):
        m.contracts[getattr(fs, fn)] = conversion(fn, th.is_int if op == 'enc' else th.is_str, th.is_str if op == 'enc' else th.is_int)
        return codec_body(m, 'Integer', op, lambda m, c: num_opts(m, c) + [K('/datetime-ms')])

    def ok(m, c):
        o, r = conv(fn, c.v)
        v = c.v if op == 'enc' else r
        return z3.And(o, th.is_int(v), int_range(c, Val.iv(v)))

    def res(m, c, r):
        return [('the conversion of the value is returned', m.box(r) == conv(fn, c.v)[1])]

    def run(P):
        P.assumptions.append(f'{fn}: raises ValueError or TypeError on anything but the texts (values) it converts; what it converts is C09')
        P.contract(f'Integer/datetime-ms {op}', body, wanted(pid, ok, res, always=True))
    run.ok, run.fn = ok, fn
    return (f'Integer/datetime-ms {op}', run)


# ---------------------------------------------------------------- Number
def number(pid, op, fmt=None):
    def opts(m, c):
        m.inst(z3.And(MINK == 0, MAXK == 0))
        out = []
        c.minf = c.maxf = None
        for name, ch, r in (('has_minf', 'y', MINR), ('has_maxf', 'z', MAXR)):
            if m.branch(z3.Bool(name)):
                s = sflt(z3.IntVal(0), r)
                m.inst(z3.And(th.slen(s) >= 1, th.schar(s, 0) != th.strlit('$')))
                out.append(m.concat([K(ch), S(s)]))
                setattr(c, name[4:], r)
        return out + ([K('/' + fmt)] if fmt else [])

    def ok(m, c):
        v = c.v
        n = z3.If(th.is_int(v), z3.ToReal(Val.iv(v)), Val.fr(v))
        finite = z3.Or(th.is_int(v), z3.And(th.is_flt(v), Val.fk(v) == 0))
        lo = z3.BoolVal(True) if c.minf is None else z3.Or(z3.And(finite, n >= c.minf), z3.And(th.is_flt(v), Val.fk(v) == 2))
        hi = z3.BoolVal(True) if c.maxf is None else z3.Or(z3.And(finite, n <= c.maxf), z3.And(th.is_flt(v), Val.fk(v) == 3))
        return z3.And(z3.Or(th.is_int(v), th.is_flt(v)), lo, hi)

    def body(m):
        v = z3.Const('v', Val)
        m.inst(z3.Implies(th.is_flt(v), z3.And(0 <= Val.fk(v), Val.fk(v) <= 3, Val.fk(v) != 1)))       # not-a-number is outside the claim
        return codec_body(m, 'Number', op, opts)

    def run(P):
        P.assumptions.append('Number: not-a-number is excluded from the claim; a numeric limit is the value float() gives for its text')
        P.contract(f'Number{"/" + fmt if fmt else ""} {op}', body, wanted(pid, ok, unchanged, always=True))
    run.ok, run.fn = ok, None
    return (f'Number{"/" + fmt if fmt else ""} {op}', run)


# ---------------------------------------------------------------- String
JS = ['date-time', 'date', 'time', 'duration', 'idn-email', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'iri-reference',
      'uri-template', 'json-pointer', 'relative-json-pointer', 'regex']
fmtok = F('fmtok', Str, Str, Bool)


def js_validate(m, args, kwargs):
    """jsonschema.validate(instance=text, schema={'type': 'string', 'format': kw}, format_checker=...)"""
    v = kwargs['instance']
    kw = m.dict_get(kwargs['schema'], K('format'))
    if not (isinstance(kw, K) and isinstance(m.dict_get(kwargs['schema'], K('type')), K) and 'format_checker' in kwargs):
        raise Unsupported('arguments of jsonschema.validate')
    import jsonschema
    if m.kind(v) == 'str' and m.branch(fmtok(th.strlit(kw.v), m.strterm(v))):
        return K(None)
    e = m.alloc(HInst(jsonschema.exceptions.ValidationError, {'args': T([]), 'message': S(m.fresh('message', Str))}))
    raise PyRaise(jsonschema.exceptions.ValidationError, (e,), note='jsonschema')


def hostname(m, args, kwargs):
    v = args[0]
    if m.kind(v) != 'str':
        raise PyRaise(TypeError, note='hostname')
    if m.branch(fmtok(th.strlit('hostname'), m.strterm(v))):
        return v
    raise PyRaise(ValueError, note='hostname')


def string(pid, op, fmt=None):
    email = []

    def opts(m, c):
        out = both_sizes(m, c)
        c.pat = m.branch(z3.Bool('has_pattern'))
        if c.pat:
            m.inst(z3.And(th.slen(PAT) >= 1, th.schar(PAT, 0) != th.strlit('$')))
            out.append(m.concat([K('%'), S(PAT)]))
        if fmt:
            out.append(K('/' + fmt))
        m.contracts[('ext', 'validate')] = js_validate
        m.contracts[fv.s_hostname] = hostname
        return out

    def ok(m, c):
        s = Val.sv(c.v)
        g = [th.is_str(c.v), size_ok(c, th.slen(s), '$MaxString')]
        if c.pat:
            g.append(th.rematch(PAT, s))
        if fmt == 'email':
            g.append(th.rematch(th.strlit(email_re()), s))
        elif fmt:
            g.append(fmtok(th.strlit(fmt), s))
        return z3.And(*g)

    def run(P):
        if fmt in JS:
            P.assumptions.append('jsonschema.validate raises ValidationError exactly for the strings that are not of the given format')
        elif fmt == 'hostname':
            P.assumptions.append('s_hostname accepts exactly the texts of the hostname grammar (bounded check: C09 falsifier)')
        P.assumptions.append('re.match decides whether a text matches a pattern')
        P.contract(f'String{"/" + fmt if fmt else ""} {op}', lambda m: codec_body(m, 'String', op, opts), wanted(pid, ok, unchanged, always=True))
    run.ok, run.fn = ok, None
    return (f'String{"/" + fmt if fmt else ""} {op}', run)


def email_re():
    """the expression the e-mail grammar is stated with (RFC 5322, from the documentation of the package)"""
    import inspect, re as _re
    got = []
    real = _re.match

    class Spy:
        @staticmethod
        def match(p, s, *a):
            got.append(p)
            return real(p, s)
    old, fv.re = fv.re, Spy
    try:
        fv.s_email('a@b.c')
    finally:
        fv.re = old
    return got[0]


# ---------------------------------------------------------------- Binary
BIN = {None: ('b2s_base64url', 's2b_base64url', None), 'b': ('b2s_base64url', 's2b_base64url', None), 'x': ('b2s_hex_lc', 's2b_hex_lc', None),
       'X': ('b2s_hex', 's2b_hex', None), 'eui': ('b2s_hex', 's2b_hex', (6, 8)), 'uuid': ('b2s_uuid', 's2b_uuid', (16,)),
       'ipv4-addr': ('b2s_ipv4_addr', 's2b_ipv4_addr', (4,)), 'ipv6-addr': ('b2s_ipv6_addr', 's2b_ipv6_addr', (16,))}


def binary(pid, op, fmt=None):
    e, d, sizes = BIN[fmt]
    fn = e if op == 'enc' else d

    def body(m):
        m.contracts[getattr(fs, fn)] = conversion(fn, th.is_byt if op == 'enc' else th.is_str, th.is_str if op == 'enc' else th.is_byt)
        return codec_body(m, 'Binary', op, lambda m, c: both_sizes(m, c) + ([K('/' + fmt)] if fmt else []))

    def ok(m, c):
        o, r = conv(fn, c.v)
        y = Val.yv(c.v if op == 'enc' else r)
        g = [o, size_ok(c, th.blen(y), '$MaxBinary')]
        if op == 'enc':
            g.append(th.is_byt(c.v))
        if sizes:
            g.append(z3.Or(*[th.blen(y) == n for n in sizes]))
        return z3.And(*g)

    def res(m, c, r):
        return [('the conversion of the value is returned', m.box(r) == conv(fn, c.v)[1])]

    def run(P):
        P.assumptions.append(f'{fn}: raises ValueError or TypeError on anything but the texts (values) it converts; what it converts is C09')
        P.contract(f'Binary{"/" + fmt if fmt else ""} {op}', body, wanted(pid, ok, res, always=True))
    run.ok, run.fn = ok, fn
    return (f'Binary{"/" + fmt if fmt else ""} {op}', run)


# ---------------------------------------------------------------- default limits
def limits(base, key):
    """Size limits with each combination of absent, zero and positive options, default and configured maximum."""
    def opts(m, c):
        return size_opts(m, c)

    def body(m):
        if base == 'Binary':
            m.contracts[fs.b2s_base64url] = conversion('b2s_base64url', th.is_byt, th.is_str)
        return codec_body(m, base, 'enc', opts, cfg=True)

    def ok(m, c):
        n = th.slen(Val.sv(c.v)) if base == 'String' else th.blen(Val.yv(c.v))
        g = [th.is_str(c.v) if base == 'String' else th.is_byt(c.v), size_ok(c, n, key)]
        if base == 'Binary':
            g.append(conv('b2s_base64url', c.v)[0])
        return z3.And(*g)

    def run(P):
        P.contract(f'{base} size limits', body, post(ok))
    return (f'{base} size limits', run)


def parts(pid, tier):
    if pid == 'C07':        # the form of scalars without a text format
        return [boolean(pid, 'enc'), number(pid, 'enc'), string(pid, 'enc')] + [integer(pid, 'enc', f) for f in (None, 'i8', 'i16', 'i32', 'i64')] + \
            [number(pid, 'enc', f) for f in ('f16', 'f32', 'f64')] + [string(pid, 'enc', f) for f in ['email', 'hostname'] + JS]
    out = []
    for op in ('enc', 'dec'):
        out += [boolean(pid, op), integer(pid, op), datetime_ms(pid, op), number(pid, op), string(pid, op), binary(pid, op)]
        out += [integer(pid, op, f) for f in ('i8', 'i16', 'i32', 'i64')]
        out += [number(pid, op, f) for f in ('f16', 'f32', 'f64')]
        out += [string(pid, op, f) for f in ['email', 'hostname'] + JS]
        out += [binary(pid, op, f) for f in BIN if f]
    return out + ([limits('String', '$MaxString'), limits('Binary', '$MaxBinary')] if pid == 'C01' else [])
