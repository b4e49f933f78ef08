"""C14: dumps and json.loads"""
import json
from . import common as C
from .common import Violation, call, short, strict_eq, dc


def gen(r, depth):
    x = r.random()
    if depth <= 0 or x < 0.35:
        return r.choice([None, True, False, 0, 1, -5, 10**20, 1.5, -0.25, 1e300, 1e-7, 2.0, float('inf'), '', 'a', s(r), s(r)])
    if x < 0.68:
        return [gen(r, depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    return {s(r): gen(r, depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))}


def s(r):
    return ''.join(r.choice('abc "\\/\n\r\t\b\f\x00\x1f\x7f\u00e9\u2028\u2029\ud83d\U0001f600\ufeff{}[],:\'%$') for _ in range(r.choice([0, 1, 1, 2, 5])))


def run(pid, stats):
    import jadn
    r = C.rng('C14')
    for k in range(60000 if C.thorough() else 8000):
        v = gen(r, r.choice([1, 2, 3, 4, 7]))
        if r.random() < 0.3:
            v = {'info': {'package': s(r)}, 'types': [[s(r), 'Record', [s(r)], s(r), [[1, 'a', 'String', [s(r)], s(r)]]] for _ in range(r.randint(0, 3))]}
        if r.random() < 0.05:
            for _ in range(60):
                v = r.choice([[v], {'k': v}])
        for strip in (False, True):
            v1 = dc(v)
            out = call(jadn.dumps, v1, strip) if r.random() < 0.5 else call(jadn.dumps, v1, strip=strip)
            stats.case((repr(v), strip), v)
            back = call(json.loads, out[1]) if out[0] == 'ret' and isinstance(out[1], str) else out
            if back[0] == 'exc' or not strict_eq(back[1], v):
                raise Violation(f'dumps(strip={strip}) of {short(v)} reads back as {short(back)}', {'value': repr(v), 'strip': strip},
                                f'import jadn, json\nv={v!r}\nt=jadn.dumps(v, strip={strip})\nprint(t)\nassert json.loads(t)==v\n')
            if not strict_eq(v1, v):
                raise Violation('dumps modified its argument', {'value': repr(v)})
