"""C20: nested and flat dictionaries"""
from . import common as C
from .common import Violation, call, short, strict_eq, dc


def key(r):
    return ''.join(r.choice('abcx01_ é') for _ in range(r.choice([1, 1, 1, 2, 3])))


def leaf(r):
    return r.choice([None, True, 0, 1, -2.5, '', 'v', 'a.b', b'x', 10**20])


def nested(r, depth, sz=3):
    return {key(r): (nested(r, depth - 1) if depth > 0 and r.random() < 0.55 else leaf(r)) for _ in range(r.randint(1, sz))}


def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def listy(r, depth):
    """source with numeric-key dicts, and what dlist must make of it"""
    x = r.random()
    if depth <= 0 or x < 0.3:
        v = leaf(r)
        return v, v
    n = r.choice([1, 2, 3, 4, 11, 14, 23]) if r.random() < 0.15 else r.randint(1, 4)
    if x < 0.65:
        items = [listy(r, depth - 1) for _ in range(n)]
        ks = list(range(n))
        r.shuffle(ks)
        src = {str(i): items[i][0] for i in ks}
        return src, [b for _, b in items]
    if x < 0.75:        # nearly numeric
        items = [listy(r, depth - 1) for _ in range(n)]
        ks = r.choice([[str(i + 1) for i in range(n)], ['0%d' % i for i in range(n)], [str(i) for i in range(n - 1)] + ['x'], [str(2 * i) for i in range(n)] if n > 1 else ['5']])
        return {k: a for k, (a, _) in zip(ks, items)}, {k: b for k, (_, b) in zip(ks, items)}
    items = [(key(r) + 'k', listy(r, depth - 1)) for _ in range(n)]
    return {k: a for k, (a, _) in items}, {k: b for k, (_, b) in items}


def run(pid, stats):
    from jadn import utils as U
    r = C.rng('C20')
    for k in range(60000 if C.thorough() else 8000):
        d = nested(r, r.choice([0, 1, 2, 3, 5]))
        d1 = dc(d)
        flat = {'.'.join(p): v for p, v in leaves(d)}
        stats.case(repr(d), d)

        def vio(fn, arg, what, out):
            raise Violation(f'{fn}: {what}: {short(arg)} -> {short(out)}', {'function': fn, 'argument': repr(arg)}, f'from jadn.utils import *\nprint({fn}({arg!r}))\n')
        out = call(U.flatten, d1)
        if out[0] == 'exc' or not strict_eq(out[1], flat):
            vio('flatten', d, f'expected {short(flat)}', out)
        if not strict_eq(d1, d):
            vio('flatten', d, 'modified its argument', d1)
        items = list(flat.items())
        if r.random() < 0.6:
            r.shuffle(items)
        f1 = dict(items)
        back = call(U.fluff, f1)
        if back[0] == 'exc' or not strict_eq(back[1], d):
            vio('fluff', dict(items), f'expected {short(d)}', back)
        if not strict_eq(f1, flat):
            vio('fluff', dict(items), 'modified its argument', f1)
        sep = r.choice('/:|')
        back = call(U.fluff, {sep.join(p): v for p, v in leaves(d)}, sep)
        if back[0] == 'exc' or not strict_eq(back[1], d):
            raise Violation(f'fluff with separator {sep!r}: expected {short(d)}, got {short(back)}', {'argument': repr(d), 'sep': sep},
                            f'from jadn.utils import *\nprint(fluff({ {sep.join(p): v for p, v in leaves(d)}!r}, {sep!r}))\n')
        ds = [{key(r): leaf(r) for _ in range(r.randint(0, 4))} for _ in range(r.randint(0, 4))]
        want = {}
        for x in ds:
            want.update(x)
        ds1 = dc(ds)
        out = call(U.dmerge, *ds1)
        if out[0] == 'exc' or not strict_eq(out[1], want) or not strict_eq(ds1, ds):
            raise Violation(f'dmerge{short(tuple(ds))} -> {short(out)}', {'arguments': repr(ds)}, f'from jadn.utils import *\nprint(dmerge(*{ds!r}))\n')
        path = [key(r) for _ in range(r.randint(1, 5))]
        v = leaf(r)
        want = v
        for p in reversed(path):
            want = {p: want}
        out = call(U.hdict, '.'.join(path), v)
        if out[0] == 'exc' or not strict_eq(out[1], want):
            vio('hdict', ('.'.join(path), v), f'expected {want}', out)
        src, want = listy(r, r.choice([1, 2, 3]))
        out = call(U.dlist, dc(src))
        if out[0] == 'exc' or not strict_eq(out[1], want):
            vio('dlist', src, f'expected {short(want)}', out)
