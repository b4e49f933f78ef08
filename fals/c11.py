"""C11: check() accepts no ill-formed schema"""
from . import common as C
from . import gencodec as G
from . import oracle as O
from . import c10
from .common import Violation, call, short, dc

ALLOW = {'Binary': ['format', 'minv', 'maxv'], 'Boolean': [], 'Integer': ['format', 'minv', 'maxv'], 'Number': ['format', 'minf', 'maxf'],
         'String': ['format', 'pattern', 'minv', 'maxv'], 'Enumerated': ['id', 'enum', 'pointer', 'extend'], 'Choice': ['id', 'extend', 'combine'],
         'Array': ['extend', 'format', 'minv', 'maxv'], 'ArrayOf': ['vtype', 'minv', 'maxv', 'unique', 'set', 'unordered'],
         'Map': ['id', 'extend', 'minv', 'maxv', 'sequence'], 'MapOf': ['ktype', 'vtype', 'minv', 'maxv', 'sequence'], 'Record': ['extend', 'minv', 'maxv', 'sequence']}
NOFIELDS = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'ArrayOf', 'MapOf')
BASEFMT = {'Integer': ['i8', 'i64', 'datetime-ms'], 'Binary': ['x', 'eui', 'uuid'], 'String': ['email', 'date', 'uri'], 'Number': ['f16', 'f64'], 'Array': ['ipv4-net', 'tag-uuid']}


def anyopt(r, n, types):
    if n in O.FLAG:
        return c10.ID[n]
    v = {'minv': r.choice('0123'), 'maxv': r.choice('4567'), 'minf': '0.5', 'maxf': '2.5', 'minc': '0', 'maxc': '3', 'tagid': '1', 'combine': 'O',
         'format': 'x', 'pattern': '^a$', 'vtype': 'String', 'ktype': 'String', 'enum': r.choice(types), 'pointer': r.choice(types), 'default': '1'}[n]
    return c10.ID[n] + v


def addopt(r, ol, o):
    ol[:] = [x for x in ol if x[0] != o[0]]
    ol.insert(r.randint(0, len(ol)), o)


def flaw(r, s):
    """Break s in one place; name of the flaw or None"""
    ts = s['types']
    names = [t[0] for t in ts]
    k = r.choice(['dupname', 'corename', 'badbase', 'missing', 'unsupported', 'range', 'badformat', 'dupid', 'dupfname', 'ordinal', 'ordinal', 'columns', 'tag',
                  'cardinality', 'fieldunsupported', 'fieldrange', 'fieldformat', 'fieldmissing', 'hasfields', 'reftypeopts'])
    t = r.choice(ts)

    def pick(f):
        c = [t for t in ts if f(t)]
        return r.choice(c) if c else None
    fielded = lambda t: t[1] in ('Record', 'Map', 'Array', 'Choice') and t[4]
    if k == 'dupname':
        if len(ts) < 2:
            return None
        a, b = r.sample(ts, 2)
        b[0] = a[0]
    elif k == 'corename':
        t[0] = r.choice(O.CORE)
    elif k == 'badbase':
        t[1] = r.choice(['Foo', r.choice(names), 'string', 'Object', 'Integers', ''])
    elif k == 'missing':
        t = pick(lambda t: t[1] in ('ArrayOf', 'MapOf'))
        if not t:
            return None
        c = '*' if t[1] == 'ArrayOf' or r.random() < 0.5 else '+'
        t[2][:] = [o for o in t[2] if o[0] != c]
    elif k == 'unsupported':
        n = r.choice([n for n in c10.ORDER if n not in ALLOW[t[1]]])
        addopt(r, t[2], anyopt(r, n, names))
    elif k == 'range':
        t = pick(lambda t: 'maxv' in ALLOW[t[1]] or 'maxf' in ALLOW[t[1]])
        if not t:
            return None
        a = r.randint(0, 4)
        b = a + r.choice([1, 1, 5])
        if t[1] == 'Number':
            addopt(r, t[2], f'y{b}.0'), addopt(r, t[2], f'z{a}.0')
        else:
            addopt(r, t[2], '{%d' % b), addopt(r, t[2], '}%d' % a)
    elif k in ('badformat', 'fieldformat'):
        base = t[1]
        ol = t[2]
        if k == 'fieldformat':
            t = pick(fielded)
            if not t:
                return None
            f = r.choice(t[4])
            f[2] = base = r.choice(['Integer', 'Binary', 'String', 'Number'])
            f[3] = ol = []
        elif 'format' not in ALLOW[base]:
            return None
        addopt(r, ol, '/' + r.choice(['nosuch', 'I8', ''.join(r.choice([v for b, vs in BASEFMT.items() if b != base for v in vs]))]))
    elif k in ('dupid', 'dupfname'):
        t = pick(lambda t: len(t[4]) > 1)
        if not t:
            return None
        i, j = sorted(r.sample(range(len(t[4])), 2))
        c = 0 if k == 'dupid' else 1
        t[4][j][c] = t[4][i][c]
    elif k == 'ordinal':
        t = pick(lambda t: t[1] in ('Record', 'Array') and t[4])
        if not t:
            return None
        op = r.choice(['shift', 'swap', 'gap', 'zero'])
        i = r.randrange(len(t[4]))
        if op == 'swap' and len(t[4]) > 1:
            j = r.choice([x for x in range(len(t[4])) if x != i])
            t[4][i], t[4][j] = t[4][j], t[4][i]
        elif op == 'shift':
            for f in t[4]:
                f[0] += r.choice([1]) if True else 0
        elif op == 'zero':
            for f in t[4]:
                f[0] -= 1
        else:
            for f in t[4][i:]:
                f[0] += 1
        if [f[0] for f in t[4]] == list(range(1, len(t[4]) + 1)):
            return None
    elif k == 'columns':
        t = pick(lambda t: t[4])
        if not t:
            return None
        f = r.choice(t[4])
        if t[1] == 'Enumerated':
            f[:] = r.choice([f[:2], f + ['x'], [f[0], f[1], 'String', [], '']])
        else:
            f[:] = r.choice([f[:4], f[:3], f + [''], [f[0], f[1], '']])
    elif k == 'hasfields':
        t = pick(lambda t: t[1] in NOFIELDS)
        if not t:
            return None
        t[4] = r.choice([[[1, 'a', '']], [[1, 'a', 'String', [], '']]])
    elif k == 'tag':
        t = pick(fielded)
        if not t:
            return None
        f = r.choice(t[4])
        ids = [g[0] for g in t[4]]
        addopt(r, f[3], '&' + str(r.choice([x for x in (0, max(ids) + 1, 99, -1, max(ids) + 7) if x not in ids])))
    elif k == 'cardinality':
        t = pick(fielded)
        if not t:
            return None
        f = r.choice(t[4])
        a, b = r.choice([(-1, None), (None, -1), (2, 1), (5, 3), (-2, 3), (0, -1), (3, 2), (2, None), (-1, 0), (1, -2)])
        f[3][:] = [o for o in f[3] if o[0] not in '[]']
        if a is not None:
            f[3].append(f'[{a}')
        if b is not None:
            f[3].append(f']{b}')
        r.shuffle(f[3])
    else:
        t = pick(fielded)
        if not t:
            return None
        f = r.choice(t[4])
        keep = [o for o in f[3] if o[0] in '[&']
        if k == 'fieldunsupported':
            f[2] = r.choice(['Integer', 'Binary', 'String', 'Number', 'Boolean'])
            n = r.choice([n for n in c10.ORDER[:18] if n not in ALLOW[f[2]]])
            f[3] = keep
            addopt(r, f[3], anyopt(r, n, names))
        elif k == 'fieldrange':
            f[2] = r.choice(['Integer', 'Binary', 'String', 'Number'])
            f[3] = keep + (['y2.0', 'z1.0'] if f[2] == 'Number' else ['{3', '}2'])
            r.shuffle(f[3])
        elif k == 'fieldmissing':
            f[2] = r.choice(['ArrayOf', 'MapOf'])
            f[3] = keep + (r.choice([['*String'], ['+String'], []]) if f[2] == 'MapOf' else [])
        else:
            c = [n for n in names]
            f[2] = r.choice(c)
            n = r.choice([n for n in c10.ORDER[:18]])
            f[3] = [o for o in keep]
            addopt(r, f[3], anyopt(r, n, names))
    return k


def run(pid, stats):
    import jadn
    r = C.rng('C11')
    ok = 0
    for k in range(4000 if C.thorough() else 700):
        g = G.SchemaGen(r)
        for _ in range(r.choice([1, 1, 2, 3])):
            g.any(r.choice([0, 1, 2]))
        s = g.schema()
        r.shuffle(s['types'])
        for t in s['types']:
            for b in ('ArrayOf', 'MapOf'):
                if t[1] == b and r.random() < 0.3:
                    pass
        base = dc(s)
        out = call(jadn.check, dc(s))
        stats.case(repr(s))
        if out[0] == 'exc':
            stats.rejected_good = getattr(stats, 'rejected_good', 0) + 1
            continue
        ok += 1
        for _ in range(6):
            s = dc(base)
            kind = flaw(r, s)
            if kind is None or s == base:
                continue
            stats.case(repr(s), (kind, s))
            s1 = dc(s)
            out = call(jadn.check, s1)
            if out[0] == 'ret':
                raise Violation(f'check() accepted a schema with flaw "{kind}": {short(s, 1500)}', {'schema': repr(s), 'flaw': kind},
                                f'import jadn\njadn.check({s!r})\nprint("accepted")\n', key=kind)
    stats.accepted_good = ok
