"""C16: strip_comments"""
from . import common as C
from .common import Violation, call, short, strict_eq, dc


def text(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 12, 20])
    return ''.join(r.choice('abc .é/') for _ in range(n))


def schema(r):
    types = []
    for i in range(r.randint(0, 5)):
        base = r.choice(['Enumerated', 'Record', 'Choice', 'Array', 'Map', 'String', 'ArrayOf', 'Integer'])
        t = [f'T{i}', base, ['*String'] if base == 'ArrayOf' else r.choice([[], ['X']]), text(r)]
        if base == 'Enumerated':
            t.append([[j, f'n{j}', text(r)] for j in range(r.randint(0, 5))])
        elif base in ('Record', 'Choice', 'Array', 'Map'):
            t.append([[j + 1, f'n{j}', 'String', r.choice([[], ['[0']]), text(r)] for j in range(r.randint(0, 5))])
        elif r.random() < 0.5:
            t.append([])
        types.append(t)
    return {'info': {'package': 'x', 'description': text(r), 'comments': [text(r)]}, 'types': types} if r.random() < 0.8 else {'types': types}


def run(pid, stats):
    from jadn.transform import strip_comments
    r = C.rng('C16')
    for k in range(40000 if C.thorough() else 6000):
        s = schema(r)
        w = r.choice([0, None, 1, 2, 3, 4, 5, 8, 10, 12, 19, 20, 21, 100, 'default'])
        s1 = dc(s)
        out = call(strip_comments, s1) if w == 'default' else call(strip_comments, s1, w) if r.random() < 0.5 else call(strip_comments, s1, width=w)
        stats.case((repr(s), w), (s, w))

        def vio(what):
            raise Violation(f'strip_comments(width={w}): {what}', {'schema': repr(s), 'width': w, 'result': repr(out)},
                            f'from jadn.transform import strip_comments\ns={s!r}\nprint(strip_comments(s, {0 if w == "default" else w}))\n')
        if out[0] == 'exc':
            vio(f'raised {out[1]!r}')
        if not strict_eq(s1, s):
            vio('modified its argument')
        if w == 'default':
            w = 0
        res = out[1]
        skel = dc(s)
        try:
            pairs = []
            for t, t0 in zip(res['types'], s['types']):
                pairs.append((t[3], t0[3]))
                if len(t0) > 4:
                    c = 2 if t0[1] == 'Enumerated' else 4
                    pairs += [(f[c], f0[c]) for f, f0 in zip(t[4], t0[4])]
            for x in (res, skel):
                x2 = dc(x)
            a, b = dc(res), dc(s)
            for x in (a, b):
                for t in x['types']:
                    t[3] = ''
                    if len(t) > 4:
                        for f in t[4]:
                            f[2 if t[1] == 'Enumerated' else 4] = ''
        except Exception as e:
            vio(f'result has another structure: {e!r}')
        if not strict_eq(a, b):
            vio(f'changed more than descriptions: {short(res)}')
        for new, old in pairs:
            if w is None or len(old) <= w:
                ok = new == old
            elif w == 0:
                ok = new == ''
            elif w == 1:
                ok = isinstance(new, str) and len(new) <= 1 and (old.startswith(new) or new == '.')
            else:
                ok = isinstance(new, str) and len(new) <= w and new.endswith('..') and old.startswith(new[:-2]) and len(new) == w
            if not ok:
                vio(f'description {old!r} became {new!r}')
        if any(x is y for x in containers(res) for y in containers(s1)):
            vio('result shares mutable parts with the argument')


def containers(x):
    if isinstance(x, list):
        yield x
        for v in x:
            yield from containers(v)
    elif isinstance(x, dict):
        yield x
        for v in x.values():
            yield from containers(v)
