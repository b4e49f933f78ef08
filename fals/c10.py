"""C10: option strings and dictionaries"""
from . import common as C
from . import oracle as O
from .common import Violation, call, short, strict_eq, dc

FIELD = ('minc', 'maxc', 'tagid', 'dir', 'key', 'link')
ORDER = ['id', 'vtype', 'ktype', 'enum', 'pointer', 'format', 'pattern', 'minf', 'maxf', 'minv', 'maxv', 'unique', 'set', 'unordered',
         'sequence', 'combine', 'extend', 'default', 'minc', 'maxc', 'tagid', 'dir', 'key', 'link']
ID = {v: k for k, v in O.TOPT.items()}


def value(r, n):
    if n in O.FLAG:
        return True
    if n in ('minf', 'maxf'):
        return r.choice([0.0, -1.5, 3.25, 1e10, 2.0, r.random(), -0.25])
    if n in O.CONV:
        return r.choice([0, 1, -1, 2, 10, 255, 10**12, -300, r.randint(-10**6, 10**6)])
    return r.choice(['String', 'X', 'a b', '^[=*{}/%]+$', '#Enum', '>P', 'O', 'i8', '{3', '=', 'True', '1', 'éß', '[0', ''])


def run(pid, stats):
    from jadn import utils as U
    r = C.rng('C10')
    for k in range(60000 if C.thorough() else 8000):
        pool = r.choice([ORDER, ORDER, [n for n in ORDER if n not in FIELD], list(FIELD)])
        names = r.sample(pool, r.randint(0, min(len(pool), r.choice([1, 2, 3, 6, 18, 24]))))
        d = {n: value(r, n) for n in names}
        strs = [ID[n] + ('' if v is True else str(v)) for n, v in d.items()]
        arg = r.choice([list, list, tuple])(strs)
        stats.case(tuple(strs), strs)

        def vio(what, fn, out):
            raise Violation(f'{fn}: {what}: {short(strs)} -> {short(out)}', {'options': strs, 'function': fn},
                            f'from jadn.utils import *\no={strs!r}\nprint({fn}(o))\n')
        fo = {n: v for n, v in d.items() if n in FIELD}
        to = {n: v for n, v in d.items() if n not in FIELD}
        out = call(U.ftopts_s2d, dc(arg))
        if out[0] == 'exc' or not strict_eq(list(out[1]), [fo, to]):
            vio(f'expected {fo, to}', 'ftopts_s2d', out)
        out = call(U.topts_s2d, dc(arg))
        if fo:
            if out[0] != 'exc':
                vio('field options accepted as type options', 'topts_s2d', out)
        elif out[0] == 'exc' or not strict_eq(out[1], to):
            vio(f'expected {to}', 'topts_s2d', out)
        dd = dc(d)
        out = call(U.opts_d2s, dd)
        if out[0] == 'exc' or sorted(out[1]) != sorted(strs) or dd != d:
            vio(f'expected {sorted(strs)}', 'opts_d2s', out)
        back = call(U.ftopts_s2d, out[1])
        if back[0] == 'exc' or not strict_eq({**back[1][0], **back[1][1]}, d):
            vio('dictionary to strings and back differs', 'opts_d2s', back)
        lst = list(strs)
        out = call(U.opts_sort, lst)
        want = sorted(strs, key=lambda s: ORDER.index(O.TOPT[s[0]]))
        if out[0] == 'exc' or lst != want:
            vio(f'expected {want}', 'opts_sort', (out, lst))
        for n in r.sample(ORDER, 3) + names[:1]:
            x = call(U.get_optx, list(strs), n)
            want = names.index(n) if n in names else None
            if x[0] == 'exc' or x[1] != want or (want is not None and isinstance(x[1], bool)):
                vio(f'index of {n} should be {want}', 'get_optx', x)
            lst = list(strs)
            x = call(U.del_opt, lst, n)
            if x[0] == 'exc' or lst != [s for s in strs if s[0] != ID[n]]:
                vio(f'deleting {n} left {lst}', 'del_opt', x)
        bad = r.choice('@~AZ09acdw?_-"')
        pos = r.randint(0, len(strs))
        ls = [s for s in strs if O.TOPT[s[0]] not in FIELD]
        ls = ls[:pos] + [bad + 'x'] + ls[pos:]
        for fn in ('topts_s2d', 'ftopts_s2d'):
            x = call(getattr(U, fn), ls)
            if x[0] != 'exc' or not isinstance(x[1], ValueError):
                strs = ls
                vio(f'unknown option {bad!r} not rejected with ValueError', fn, x)
        x = call(U.opts_d2s, {**d, 'nosuch': 1})
        if x[0] != 'exc' or not isinstance(x[1], ValueError):
            vio('unknown option name not rejected with ValueError', 'opts_d2s', x)
