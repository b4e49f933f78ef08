"""C15: interface notation of types and fields"""
from . import common as C
from . import oracle as O
from . import c10, c11
from .common import Violation, call, short, strict_eq, dc

PAT = ['^[a-z]+$', '^\\d{1,3}(\\.\\d+)?$', 'a', '^(x|y)$', '^[-_.]$', '\\w+', '^\\$\\{\\}$']


def topts(r, base, types=('Abc', 'Rec-1', '$X'), size=True):
    """dict of options that notation expresses"""
    o = {}
    if base in ('Enumerated', 'Choice', 'Map') and r.random() < 0.4:
        o['id'] = True
    if base == 'MapOf':
        o['ktype'] = r.choice(['String', 'Integer', 'Abc', '#Abc', '>Rec-1', 'ns:Abc'])
    if base in ('MapOf', 'ArrayOf'):
        o['vtype'] = r.choice(['String', 'Abc', 'Rec-1', '#Abc', '>Abc', 'ns:Abc'])
    if base == 'Choice' and r.random() < 0.4:
        o['combine'] = r.choice('OAX')
    if base == 'Enumerated' and r.random() < 0.4:
        o[r.choice(['enum', 'pointer'])] = r.choice(['Abc', 'Rec-1'])
    if base == 'String' and r.random() < 0.3:
        o['pattern'] = r.choice(PAT)
    elif base == 'Integer':
        if r.random() < 0.5:
            o['minv'] = r.choice([0, 1, -5, 10, -1])
        if r.random() < 0.5:
            o['maxv'] = r.choice([0, 1, 20, -1, 10**12]) if 'minv' not in o else o['minv'] + r.choice([0, 1, 5])
    elif base == 'Number':
        if r.random() < 0.5:
            o['minf'] = r.choice([0.0, 1.5, -2.25, 100.0])
        if r.random() < 0.5:
            o['maxf'] = o.get('minf', 0.0) + r.choice([0.0, 0.5, 1.0])
    elif base in ('Binary', 'String', 'ArrayOf', 'MapOf', 'Map', 'Record', 'Array'):
        if r.random() < 0.5:
            o['minv'] = r.choice([1, 2, 10])
        if r.random() < 0.5:
            o['maxv'] = o.get('minv', 0) + r.choice([1, 1, 5, 250])
    if r.random() < 0.3 and base in c11.BASEFMT:
        o['format'] = r.choice(c11.BASEFMT[base])
    if base == 'ArrayOf' and r.random() < 0.5:
        o[r.choice(['unique', 'set', 'unordered'])] = True
    if base in ('Map', 'MapOf', 'Record') and r.random() < 0.2:
        o['sequence'] = True
    return o


def tostr(d, r):
    o = [c10.ID[k] + ('' if v is True else str(v)) for k, v in d.items()]
    r.shuffle(o)
    return o


def run(pid, stats):
    import jadn
    from jadn import utils as U
    r = C.rng('C15')
    for k in range(60000 if C.thorough() else 8000):
        base = r.choice(O.CORE)
        d = topts(r, base)
        ol = tostr(d, r)
        stats.case((base, tuple(sorted(ol))), (base, ol))
        t = call(U.jadn2typestr, base, list(ol))
        b = call(U.typestr2jadn, t[1]) if t[0] == 'ret' else t
        if b[0] == 'exc' or b[1][0] != base or b[1][2] or not strict_eq(O.opts(b[1][1]), d):
            raise Violation(f'type {base} {ol} is written {t[1]!r}, which reads as {short(b)}', {'base': base, 'options': ol},
                            f'from jadn.utils import *\nt=jadn2typestr({base!r}, {ol!r})\nprint(t, typestr2jadn(t))\n')
        # fields
        tb = r.choice(['Record', 'Map', 'Array', 'Choice'])
        tdef = ['T', tb, r.choice([[], ['=']]) if tb in ('Map', 'Choice') else [], '', []]
        ft = r.choice(['Abc', 'Rec-1', 'ns:Abc'] + [x for x in O.CORE if x not in ('Choice', 'Map', 'Record', 'Array')])
        fd = topts(r, ft) if ft in O.CORE else {}
        lo = r.choice([0, 1, 1, 2, 5])
        hi = r.choice([0, 1, max(lo, 1), max(1, lo), lo + 3])
        if 0 < hi < lo:
            hi = lo
        if lo != 1:
            fd['minc'] = lo
        if hi != 1:
            fd['maxc'] = hi
        if ft == 'Abc' and r.random() < 0.3:
            fd['tagid'] = 1
        if r.random() < 0.1 and ft == 'Abc':
            fd[r.choice(['dir', 'key', 'link'])] = True
        desc = r.choice(['', 'some text', 'with :: colons', 'x // y'])
        f = [2, 'fname', ft, tostr(fd, r), desc]
        tdef[4] = [[1, 'tag', 'String', [], ''], f]
        out = call(U.jadn2fielddef, dc(f), dc(tdef))
        stats.case(repr(f), f)
        if out[0] == 'ret':
            n, s, m, de = out[1]
            b = call(U.fielddef2jadn, 2, n, s, m, '// ' + de if de else '')
            if b[0] == 'ret':
                b = call(U.cleanup_tagid, [[1, 'tag', 'String', [], ''], b[1]])
                g = b[1][1] if b[0] == 'ret' else None
        else:
            b = out
        if b[0] == 'exc' or g[:3] != f[:3] or not strict_eq(O.opts(g[3]), fd) or g[4] != desc:
            raise Violation(f'field {f} of {tb} {tdef[2]} is written {short(out)}, which reads as {short(b)}', {'field': repr(f), 'type': repr(tdef)},
                            f'from jadn.utils import *\nf={f!r}\nx=jadn2fielddef(f, {tdef!r})\nprint(x)\nprint(fielddef2jadn(2, x[0], x[1], x[2], "// "+x[3] if x[3] else ""))\n')
    from . import gencodec as G
    for k in range(3000 if C.thorough() else 400):
        g = G.SchemaGen(r)
        for _ in range(r.choice([1, 2])):
            g.any(r.choice([0, 1, 2]))
        s = g.schema()
        for t in s['types']:
            t[2] = [o for o in t[2] if o[0] != 'X' and o != '{0']
            t[3] = r.choice(['', 'a type'])
            if t[1] in c11.ALLOW and t[1] not in ('Enumerated',):
                for f in t[4]:
                    f[4] = r.choice(['', 'a field'])
        text = call(jadn.convert.jidl_dumps, dc(s))
        back = call(jadn.convert.jidl_loads, text[1]) if text[0] == 'ret' else text
        stats.case(repr(s))

        def canon(s):
            s = dc(s)
            for t in s['types']:
                t[2] = sorted(t[2])
                if t[1] != 'Enumerated':
                    for f in t[4]:
                        f[3] = sorted(f[3])
            return s
        if back[0] == 'exc' or canon(back[1])['types'] != canon(s)['types']:
            if back[0] == 'ret':
                a, b = canon(s)['types'], canon(back[1])['types']
                diff = [(x, y) for x, y in zip(a, b) if x != y][:1]
            else:
                diff = ''
            raise Violation(f'JIDL of a schema reads back differently: {short(back) if not diff else diff}', {'schema': repr(s), 'text': repr(text)},
                            f'import jadn\ns={s!r}\nt=jadn.convert.jidl_dumps(s)\nprint(t)\nprint(jadn.convert.jidl_loads(t))\n')
