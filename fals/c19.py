"""C19: resolve_imports, merge_tname, merge_typedef over random sets of packages in a scratch directory"""
import contextlib
import io
import json
import os
import shutil
import tempfile

from . import common as C
from . import oracle as O
from .common import Violation, call, short, strict_eq, dc

FIELDED = ('Record', 'Map', 'Array', 'Choice')


def gen(r):
    """({package: schema}, root package): types refer to each other through namespaces, with chains and cycles"""
    pkgs = [f'http://x/{k}' for k in range(r.choice([1, 2, 2, 3, 4]))]
    names = {p: [f'T{k}' for k in range(r.randint(1, 5))] for p in pkgs}
    out = {}
    for p in pkgs:
        ns = {}
        for q in pkgs:
            if r.random() < 0.7 and (q != p or r.random() < 0.2):
                i = r.choice(['a', 'b', 'c', 'n' + q[-1]])
                if i not in ns:
                    ns[i] = q

        bad = r.random() < 0.03

        def ref(target=False):
            if ns and r.random() < 0.5:
                i = r.choice(sorted(ns))
                return f'{i}:{r.choice(names[ns[i]])}'
            return 'Missing' if bad and r.random() < 0.2 else r.choice(names[p])
        types = []
        for n in names[p]:
            x = r.random()
            if n == 'T0' or x < 0.4:
                b = r.choice(FIELDED)
                fs = []
                for k in range(r.randint(0, 4)):
                    y, o = r.random(), r.choice([[], ['[0']])
                    if b == 'Choice':
                        o = []
                    if y < 0.3:
                        f = [k + 1, f'f{k}', r.choice(['String', 'Integer']), o, r.choice(['', 'text'])]
                    elif y < 0.8:
                        f = [k + 1, f'f{k}', ref(), o, '']
                    elif y < 0.9:
                        f = [k + 1, f'f{k}', 'ArrayOf', o + ['*' + r.choice(['String', ref()])], '']
                    else:
                        f = [k + 1, f'f{k}', 'MapOf', o + ['+' + r.choice(['String', ref()]), '*' + ref()], '']
                    fs.append(f)
                types.append([n, b, [], r.choice(['', 'some text']), fs])
            elif x < 0.55:
                types.append([n, 'ArrayOf', ['*' + r.choice(['String', ref(), '#T0', '#' + ref0(r, ns)]), '{1'], '', []])
            elif x < 0.7:
                types.append([n, 'MapOf', ['+' + r.choice(['String', ref(), '#T0', '>T0']), '*' + ref()], 'd', []])
            elif x < 0.8:
                types.append([n, 'Enumerated', [], '', [[1, 'a', ''], [2, ref().replace(':', ''), 'x']]])
            elif x < 0.87:
                types.append([n, 'Enumerated', [r.choice('#>') + ref0(r, ns)], '', []])
            else:
                types.append([n, r.choice(['String', 'Integer']), r.choice([[], ['{1']]), 'd', []])
        r.shuffle(types)
        info = {'package': p, 'title': 't ' + p}
        if ns:
            info['namespaces'] = ns
        if r.random() < 0.95:
            info['exports'] = r.sample(names[p], r.randint(1, len(names[p]))) + (['Nowhere'] if r.random() < 0.02 else [])
        out[p] = {'info': info, 'types': types}
    return out, pkgs[0]


def ref0(r, ns):
    """a structure: the first type of a package"""
    return r.choice([i + ':T0' for i in ns] + ['T0'])


def split(s, p, n):
    """(package, name) of a reference in package p, without the mark of a derived enumeration"""
    n = n.lstrip('#>')
    if ':' in n:
        i, n = n.split(':', 1)
        return s[p]['info'].get('namespaces', {}).get(i), n
    return p, n


def refs(t):
    out = [o[1:] for o in t[2] if o[0] in '*+#>' and o[1:] not in O.CORE]
    for f in t[4] if t[1] in FIELDED else ():
        out += [f[2]] if f[2] not in O.CORE else []
        out += [o[1:] for o in f[3] if o[0] in '*+#>' and o[1:] not in O.CORE]
    return out


def closure(s, root):
    """reachable (package, name) pairs, or None if one of them is not defined"""
    defs = {(p, t[0]): t for p, x in s.items() for t in x['types']}
    seen, todo = set(), [(root, n) for n in s[root]['info'].get('exports', [])]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        if k not in defs:
            return None
        seen.add(k)
        todo += [split(s, k[0], n) for n in refs(defs[k])]
    return seen


def rename(t, m):
    """definition with every name replaced by m(name)"""
    def opts(os):
        return [o[0] + m(o[1:]) if o[0] in '*+#>' else o for o in os]
    fs = t[4] if t[1] not in FIELDED else [[f[0], f[1], m(f[2]), opts(f[3]), f[4]] for f in t[4]]
    return [m(t[0]), t[1], opts(t[2]), t[3], fs]


def match(s, root, out, want):
    """what is wrong with the result, or None"""
    if not isinstance(out, dict) or not isinstance(out.get('types'), list):
        return 'the result is no schema'
    if len({t[0] for t in out['types']}) != len(out['types']):
        return 'two types have the same name'
    if len(out['types']) != len(want):
        return f'{len(want)} types are reachable'
    if not strict_eq(out['info'], {k: v for k, v in s[root]['info'].items() if k != 'namespaces'}):
        return 'the information about the package changed'
    # exported types keep their names; names of the others are fixed by the first occurrence
    defs = {(p, t[0]): t for p, x in s.items() for t in x['types']}
    byname = {t[0]: t for t in out['types']}
    name = {}
    todo = [(k, k[1]) for k in want if k[0] == root]
    while todo:
        k, n = todo.pop()
        if name.setdefault(k, n) != n:
            return f'{k} is called {name[k]} and {n}'
        if n not in byname:
            return f'no type is called {n}, which stands for {k}'
        t, u = defs[k], byname[n]
        a, b = [x.lstrip('#>') for x in refs(t)], [x.lstrip('#>') for x in refs(u)]
        if len(a) != len(b):
            return f'{u} is not {t} with other names'
        for x, y in zip(a, b):
            q = split(s, k[0], x)
            if q not in name:
                name[q] = y
                todo.append((q, y))
            elif name[q] != y:
                return f'{q} is called {name[q]} and {y}'
        c = {x.lstrip('#>'): y for x, y in zip(a, b)}
        c[t[0]] = n

        def m(x):
            core = x.lstrip('#>')
            return x if core in O.CORE else x[:len(x) - len(core)] + c[core]
        if not strict_eq(rename(t, m), u):
            return f'{u} is not {t} with other names'
    if len(set(name.values())) != len(name):
        return 'different types have the same name'
    if set(name.values()) != set(byname):
        return 'a type is not reachable'
    return None


def run(pid, stats):
    import jadn
    from jadn.transform import resolve as R
    r = C.rng('C19')
    top = tempfile.mkdtemp(prefix='c19')
    try:
        for k in range(6000 if C.thorough() else 900):
            s, root = gen(r)
            d = os.path.join(top, str(k))
            os.mkdir(d)
            inside = r.random() < 0.5
            for n, (p, x) in enumerate(s.items()):
                if p != root or inside:
                    with open(os.path.join(d, f'{r.choice("abcxyz")}{n}.jadn'), 'w') as f:
                        json.dump(x, f)
            want = closure(s, root)
            stats.case(repr((s, inside)), s)
            with contextlib.redirect_stdout(io.StringIO()):
                out = call(R.resolve_imports, dc(s[root]), d)
            shutil.rmtree(d)
            bad = None
            if want is None:
                if out[0] != 'exc':
                    bad = 'a reference to a type that is not defined was not reported'
            elif out[0] == 'exc':
                bad = f'resolving raised {type(out[1]).__name__}: {out[1]}'
            else:
                bad = match(s, root, out[1], want)
            if bad:
                code = ('import json, os, tempfile\nimport jadn\nfrom jadn.transform import resolve as R\n'
                        f's={s!r}\nd=tempfile.mkdtemp()\nfor n, (p, x) in enumerate(s.items()):\n'
                        f'    if p != {root!r} or {inside}:\n        json.dump(x, open(os.path.join(d, f"p{{n}}.jadn"), "w"))\n'
                        f'print(R.resolve_imports(s[{root!r}], d))\n')
                raise Violation(f'{bad}: {short(out)} for {short(s, 1500)}', {'packages': repr(s), 'root': root, 'result': repr(out)}, code)
    finally:
        shutil.rmtree(top, ignore_errors=True)
