"""C13: build_deps, topo_sort, analyze"""
from . import common as C
from . import c12
from . import oracle as O
from .common import Violation, call, short, strict_eq, dc


def refs(t):
    out = [o[1:] for o in t[2] if o[0] in '*+' and o[1:] not in O.CORE] + [o[1:] for o in t[2] if o[0] in '#>']
    if t[1] in c12.FIELDED:
        for f in t[4]:
            if f[2] not in O.CORE:
                out.append(f[2])
            out += [o[1:] for o in f[3] if o[0] in '*+' and o[1:] not in O.CORE] + [o[1:] for o in f[3] if o[0] in '#>']
    return out


def strip(n):
    return n.lstrip('#>')


def reachable(deps, roots):
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += deps.get(n, [])
    return seen


def run(pid, stats):
    import jadn
    r = C.rng('C13')
    for k in range(20000 if C.thorough() else 2500):
        s = c12.gen(r)
        names = [t[0] for t in s['types']]
        for t in s['types']:        # dangling references
            if t[1] in c12.FIELDED:
                for f in t[4]:
                    if r.random() < 0.05:
                        f[2] = r.choice(['Missing', 'ns:Ext'])
        ex = r.choice([None, [], r.sample(names, r.randint(0, len(names))), [r.choice(names), 'Nowhere'], names[:1] * 2])
        if ex is not None:
            s['info'][r.choice(['exports', 'exports', 'roots'])] = ex
        if r.random() < 0.1:
            del s['info']
            ex = None
        stats.case(repr(s), s)
        s1 = dc(s)

        def vio(what, out):
            raise Violation(f'{what}: {short(out)} for {short(s, 600)}', {'schema': repr(s), 'result': repr(out)},
                            f'import jadn\ns={s!r}\nprint(jadn.build_deps(s))\nprint(jadn.analyze(s))\n')
        out = call(jadn.build_deps, s1)
        want = {t[0]: [strip(x) for x in refs(t)] for t in s['types']}
        if out[0] == 'exc' or list(out[1]) != list(want) or {k: [strip(x) for x in v] for k, v in out[1].items()} != want:
            vio(f'build_deps should be {want}', out)
        if any(x != y and x.lstrip('#>') != y.lstrip('#>') for a in () for x, y in a):
            pass
        out = call(jadn.analyze, s1)
        rf = {x for v in want.values() for x in v} | set(ex or [])
        if out[0] == 'exc' or sorted(out[1]['undefined']) != sorted(rf - set(names)) or sorted(out[1]['unreferenced']) != sorted(set(names) - rf):
            vio(f'analyze should report undefined {sorted(rf - set(names))}, unreferenced {sorted(set(names) - rf)}', out)
        if not strict_eq(s1, s):
            vio('the schema was modified', s1)
        # arbitrary graphs
        n = r.randint(0, 9)
        nodes = [f'N{i}' for i in range(n)]
        dens = r.choice([0.5, 1, 2, 4])
        deps = {x: [r.choice(nodes + ['Undef']) for _ in range(int(r.random() * 2 * dens))] for x in nodes}
        roots = r.choice([[], r.sample(nodes, r.randint(0, n)), nodes[:1], nodes, [r.choice(nodes)] * 2 if nodes else []])
        d1, r1 = dc(deps), list(roots)
        out = call(jadn.topo_sort, d1, r1)
        stats.case((repr(deps), repr(roots)), (deps, roots))
        want = reachable(deps, roots) if roots else set(deps)
        if out[0] == 'exc' or len(set(out[1])) != len(out[1]) or set(out[1]) != want or d1 != deps or r1 != roots or (not roots and out[1] != list(deps)):
            raise Violation(f'topo_sort({deps}, {roots}) should list {sorted(want)} once each: {short(out)}', {'deps': deps, 'roots': roots},
                            f'import jadn\nprint(jadn.topo_sort({deps!r}, {roots!r}))\n')
