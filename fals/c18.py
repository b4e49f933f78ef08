"""C18: canonicalize"""
from . import common as C
from . import oracle as O
from . import c10
from .common import Violation, call, short, strict_eq, dc


def topts(r, base):
    allow = {'Binary': ['format', 'minv', 'maxv'], 'Integer': ['format', 'minv', 'maxv'], 'Number': ['format', 'minf', 'maxf'],
             'String': ['format', 'pattern', 'minv', 'maxv'], 'Enumerated': ['id', 'extend'], 'Choice': ['id', 'extend'],
             'Array': ['extend', 'format', 'minv', 'maxv'], 'ArrayOf': ['vtype', 'minv', 'maxv', 'unique', 'set', 'unordered'],
             'Map': ['id', 'extend', 'minv', 'maxv', 'sequence'], 'MapOf': ['ktype', 'vtype', 'minv', 'maxv', 'sequence'],
             'Record': ['extend', 'minv', 'maxv', 'sequence'], 'Boolean': []}.get(base, [])
    o = []
    for n in allow:
        if r.random() < 0.5 or n in ('vtype', 'ktype'):
            if n in O.FLAG:
                v = ''
            elif n == 'minv':
                v = r.choice([0, 0, 1, 2, -3 if base == 'Integer' else 3])
            elif n == 'maxv':
                v = r.choice([0, 4, 9])
            elif n in ('minf', 'maxf'):
                v = r.choice(['0.0', '1.5', '2', '-3', '10', '0', '1.0'])
            else:
                v = r.choice(['String', 'x', 'y.z'])
            o.append(c10.ID[n] + str(v))
    r.shuffle(o)
    return o


def fopts(r):
    o = []
    if r.random() < 0.5:
        o.append('[' + r.choice('0112'))
    if r.random() < 0.5:
        o.append(']' + r.choice('01123'))
    if r.random() < 0.15:
        o.append('&1')
    for c in '<KL':
        if r.random() < 0.1:
            o.append(c)
    return o


def shuffled(r, s):
    s = dc(s)
    for t in s['types']:
        r.shuffle(t[2])
        for f in t[4]:
            if t[1] != 'Enumerated':
                r.shuffle(f[3])
    return s


def expect(olist, base):
    out = []
    for s in sorted(olist, key=lambda s: c10.ORDER.index(O.TOPT[s[0]])):
        n, v = O.TOPT[s[0]], s[1:]
        if n == 'minv' and int(v) == 0 and base != 'Integer' or n in ('minc', 'maxc') and int(v) == 1:
            continue
        out.append((n, float(v) if n in ('minf', 'maxf') else v))
    return out


def parsed(olist):
    return [(O.TOPT[s[0]], float(s[1:]) if s[0] in 'yz' else s[1:]) for s in olist]


def run(pid, stats):
    from jadn.utils import canonicalize
    r = C.rng('C18')
    core = ['Binary', 'Integer', 'Number', 'String', 'ArrayOf', 'MapOf', 'Boolean']
    for k in range(40000 if C.thorough() else 5000):
        types = []
        for i in range(r.randint(0, 4)):
            base = r.choice(core + ['Enumerated', 'Choice', 'Array', 'Map', 'Record'] * 2)
            fs = []
            if base == 'Enumerated':
                fs = [[j, f'n{j}', r.choice(['', 'd'])] for j in range(r.randint(0, 3))]
            elif base not in core:
                for j in range(r.randint(0, 4)):
                    ft = r.choice(core + ['Other', 'Other'])
                    o = fopts(r) + (topts(r, ft) if r.random() < 0.6 else [])
                    r.shuffle(o)
                    fs.append([j + 1, f'n{j}', ft, o, r.choice(['', 'd'])])
            types.append([f'T{i}', base, topts(r, base), r.choice(['', 'd']), fs])
        s = {'info': {'package': 'p'}, 'types': types} if r.random() < 0.7 else {'types': types}
        s1 = dc(s)
        out = call(canonicalize, s1)
        stats.case(repr(s), s)

        def vio(what):
            raise Violation(f'canonicalize: {what}', {'schema': repr(s), 'result': repr(out)}, f'from jadn.utils import canonicalize\ns={s!r}\nprint(canonicalize(s))\n')
        if out[0] == 'exc':
            vio(f'raised {out[1]!r}')
        if not strict_eq(s1, s):
            vio('modified its argument')
        res = out[1]
        a, b = dc(res), dc(s)
        try:
            for x, y in zip(a['types'], b['types']):
                if parsed(x[2]) != expect(y[2], y[1]):
                    vio(f'options {y[2]} of {y[0]} became {x[2]}')
                x[2] = y[2] = []
                if y[1] != 'Enumerated':
                    for f, g in zip(x[4], y[4]):
                        if parsed(f[3]) != expect(g[3], g[2]):
                            vio(f'options {g[3]} of field {g[1]} of {y[0]} became {f[3]}')
                        f[3] = g[3] = []
        except (IndexError, KeyError, ValueError, TypeError) as e:
            vio(f'result has another structure: {e!r}')
        if not strict_eq(a, b):
            vio('changed more than options')
        again = call(canonicalize, dc(res))
        if again[0] == 'exc' or not strict_eq(again[1], res):
            vio(f'is not idempotent: {short(again)}')
        sh = shuffled(r, s)
        other = call(canonicalize, sh)
        if other[0] == 'exc' or not strict_eq(other[1], res):
            vio(f'depends on the order of options: {short(other)}')
