"""C12: unfold_extensions"""
from . import common as C
from . import gencodec as G
from . import oracle as O
from . import c10
from .common import Violation, call, short, strict_eq, dc

FIELDED = ('Record', 'Map', 'Array', 'Choice')


def gen(r):
    g = G.SchemaGen(r, tags=r.random() < 0.3)
    for _ in range(r.choice([1, 1, 2, 3])):
        g.any(r.choice([1, 2, 2]))
    ts = g.types
    r.shuffle(ts)
    byname = {t[0]: t for t in ts}
    structs = [t for t in ts if t[1] in FIELDED and not any(o[0] == 'C' for o in t[2])]
    enums = [t for t in ts if t[1] == 'Enumerated']
    p = r.choice([0.1, 0.3, 0.6])
    keyed = []
    for t in list(ts):
        if t[1] in ('ArrayOf', 'MapOf') and r.random() < p:
            c = '*' if t[1] == 'ArrayOf' or r.random() < 0.5 else '+'
            i = [i for i, o in enumerate(t[2]) if o[0] == c][0]
            src = r.choice(structs)[0] if structs else None
            if src:
                t[2][i] = c + r.choice('#>') + src
        if t[1] == 'MapOf' and enums and r.random() < p / 2:
            i = [i for i, o in enumerate(t[2]) if o[0] == '+'][0]
            t[2][i] = '+' + r.choice(enums)[0]
        if t[1] not in FIELDED:
            continue
        union = any(o[0] == 'C' for o in t[2])
        for f in t[4]:
            if any(o[0] == '&' for g2 in t[4] for o in g2[3]):
                continue
            if f[2] not in byname and r.random() < p:          # anonymous scalar with options
                f[3] = f[3] + {'Integer': ['{1', '}9'], 'Number': ['y0.5'], 'String': [r.choice(['/email', '%^a+$'])], 'Boolean': [], 'Binary': ['/x']}[f[2]]
            elif r.random() < p / 2:
                x = r.random()
                if x < 0.4:
                    f[2], f[3] = 'ArrayOf', f[3] + ['*' + r.choice([f[2], f[2], 'String'])] + r.choice([[], ['{1', '}4'], ['q'], ['s']])
                elif x < 0.7:
                    f[2], f[3] = 'MapOf', f[3] + ['*' + f[2], '+' + r.choice(['String', 'Integer'] + [e[0] for e in enums][:1])]
                elif structs:
                    f[2], f[3] = 'Enumerated', f[3] + [r.choice('#>') + r.choice(structs)[0]] + r.choice([[], ['=']])
            if not union and t[1] != 'Choice' and r.random() < p:
                f[3] = [o for o in f[3] if o[0] != '['] + r.choice([['[0'], [], ['[1'], ['[2'], ['[3']])
                lo = next((int(o[1:]) for o in f[3] if o[0] == '['), 1)
                hi = r.choice([0, max(lo, 2), lo + 3])
                f[3] = f[3] + [f']{hi}']
                if f[2] in byname and r.random() < 0.3:
                    f[3] = f[3] + ['q']
            r.shuffle(f[3])
        if t[1] in ('Record', 'Map') and t[4] and r.random() < 2 * p and t[0] not in keyed:
            f = r.choice([x for x in t[4] if not x[3]] or t[4])
            if not any(o[0] in '[]&*+qs#><' for o in f[3]) and not any(o[0] == '&' for g2 in t[4] for o in g2[3]):
                if not (f[2] in byname and byname[f[2]][1] in ('Integer', 'String')) and f[2] not in ('Integer', 'String'):
                    f[2], f[3] = r.choice(['Integer', 'String'] + [x[0] for x in ts if x[1] in ('Integer', 'String')]), []
                f[3] = f[3] + ['K']
                keyed.append(t[0])
    for t in ts:
        if keyed and t[1] in ('Record', 'Map', 'Array') and t[4] and r.random() < 2 * p:
            f = r.choice([x for x in t[4] if not x[3] or x[3][0][0] in '[]'] or t[4])
            if not any(o[0] in '&Kqs*+#><{}yz/%' for o in f[3]) and not any(o[0] == '&' for g2 in t[4] for o in g2[3]):
                f[2] = r.choice(keyed)
                f[3] = f[3] + ['L']
    for t in ts:            # directories of pointer enumerations
        if t[1] in FIELDED:
            for f in t[4]:
                if f[2] in byname and byname[f[2]][1] in FIELDED and reach_free(byname, f[2], t[0]) and r.random() < 0.3 and not any(o[0] in '&KL]#>' for o in f[3]):
                    f[3] = f[3] + ['<']
    for t in enums:
        if structs and r.random() < p and not used_as_tag(ts, t[0]):
            t[2] = [o for o in t[2]] + [r.choice('#>') + r.choice(structs)[0]]
            t[4] = []
            r.shuffle(t[2])
    return {'info': {'package': 'http://t/x'}, 'types': ts}


def used_as_tag(ts, n):
    return any(f[2] == n for t in ts if t[1] in FIELDED for f in t[4] if any(o[0] == '&' for g in t[4] for o in g[3]))


def reach_free(byname, a, b):
    """b cannot be reached from a through fields"""
    seen, todo = set(), [a]
    while todo:
        n = todo.pop()
        if n == b:
            return False
        if n in seen or n not in byname:
            continue
        seen.add(n)
        if byname[n][1] in FIELDED:
            todo += [f[2] for f in byname[n][4]]
    return True


def items_of(sb, kind, name, fix=None):
    t = sb[name]
    if kind == '#':
        if t[1] == 'Enumerated':
            return None
        return [(f[0], f[1]) for f in t[4]]
    out = []

    def walk(n, base, depth):
        if depth > 20:
            raise RecursionError
        t = sb[n]
        for f in t[4] if t[1] in FIELDED else []:
            if '<' in f[3]:
                if f[2] in sb:
                    walk(f[2], f'{base}{f[1]}/', depth + 1)
            else:
                out.append(base + f[1])
    walk(name, '', 0)
    return list(enumerate(out, 1))


def run(pid, stats):
    import jadn
    r = C.rng('C12')
    n = 0
    for k in range(20000 if C.thorough() else 2500):
        s = gen(r)
        if k % 4 == 0:
            if call(jadn.check, dc(s))[0] == 'exc':
                stats.rejected_good = getattr(stats, 'rejected_good', 0) + 1
                continue
        n += 1
        s1 = dc(s)
        out = call(jadn.transform.unfold_extensions, s1)
        stats.case(repr(s), s)

        def vio(what):
            if call(jadn.check, dc(s))[0] == 'exc':
                return True         # not a checked schema
            raise Violation(f'unfold_extensions: {what}: {short(s, 700)}', {'schema': repr(s), 'result': repr(out)},
                            f'import jadn\ns={s!r}\nfor t in jadn.transform.unfold_extensions(s)["types"]: print(t)\n')
        if out[0] == 'exc':
            vio(f'raised {out[1]!r}')
            continue
        if not strict_eq(s1, s):
            vio('modified its argument')
            continue
        judge(s, out[1], vio)
    stats.checked = n


def judge(s, res, vio):
    rt = res['types']
    names = [t[0] for t in rt]
    sn = [t[0] for t in s['types']]
    rb, sb = {t[0]: t for t in rt}, {t[0]: t for t in s['types']}
    if {k: v for k, v in res.items() if k != 'types'} != {k: v for k, v in s.items() if k != 'types'}:
        return vio('changed the information section')
    if [x for x in names if x in sb] != sn:
        return vio(f'explicit types were lost or reordered: {names}')
    if len(set(names)) != len(names):
        return vio(f'two types have the same name: {names}')

    def known(x):
        return x in O.CORE or x in rb
    for t in rt:
        o = O.opts(t[2])
        if t[1] == 'Enumerated' and ('enum' in o or 'pointer' in o):
            return vio(f'{t[0]} is still derived')
        for c in ('vtype', 'ktype'):
            if c in o and not known(o[c]):
                return vio(f'{t[0]} refers to undefined {o[c]}')
        if t[1] == 'MapOf' and o['ktype'] in rb and rb[o['ktype']][1] == 'Enumerated':
            return vio(f'{t[0]} still has enumerated keys')
        if t[1] in FIELDED:
            for f in t[4]:
                fo = O.opts(f[3])
                if set(fo) - {'minc', 'maxc', 'tagid', 'dir'} or fo.get('minc', 1) not in (0, 1) or fo.get('maxc', 1) != 1:
                    return vio(f'field {t[0]}.{f[1]} has options {f[3]}')
                if not known(f[2]):
                    return vio(f'field {t[0]}.{f[1]} refers to undefined {f[2]}')
    # contents
    keys = {}
    for t in s['types']:
        if t[1] in FIELDED:
            for f in t[4]:
                if 'K' in f[3]:
                    keys[t[0]] = f
    for t in s['types']:
        u = rb[t[0]]
        o, uo = O.opts(t[2]), O.opts(u[2])
        if t[3] != u[3]:
            return vio(f'description of {t[0]} changed')
        if t[1] == 'MapOf':
            if check_mapof(s, sb, rb, o, u, vio, t[0]):
                return
            continue
        if t[1] != u[1]:
            return vio(f'{t[0]} became {u[1]}')
        if t[1] == 'Enumerated' and ('enum' in o or 'pointer' in o):
            want = items_of(sb, '#' if 'enum' in o else '>', o.get('enum') or o.get('pointer'))
            if want is not None and [(f[0], f[1]) for f in u[4]] != want:
                return vio(f'{t[0]} should list {want}, but lists {u[4]}')
            if {k: v for k, v in o.items() if k not in ('enum', 'pointer')} != uo:
                return vio(f'options of {t[0]} became {u[2]}')
            continue
        if t[1] == 'ArrayOf':
            if check_ref(s, sb, rb, o['vtype'], uo['vtype'], vio, t[0]):
                return
            if {k: v for k, v in o.items() if k != 'vtype'} != {k: v for k, v in uo.items() if k != 'vtype'}:
                return vio(f'options of {t[0]} became {u[2]}')
            continue
        if o != uo:
            return vio(f'options of {t[0]} became {u[2]}')
        if t[1] not in FIELDED:
            if t[4] != u[4]:
                return vio(f'items of {t[0]} became {u[4]}')
            continue
        if [(f[0], f[1], f[4]) for f in t[4]] != [(f[0], f[1], f[4]) for f in u[4]]:
            return vio(f'fields of {t[0]} became {u[4]}')
        for f, g in zip(t[4], u[4]):
            if check_field(s, sb, rb, keys, t, f, g, vio):
                return


def check_ref(s, sb, rb, want, got, vio, where):
    """a vtype/ktype reference, possibly a derived enumeration"""
    if want[0] in '#>':
        if got not in rb or rb[got][1] != 'Enumerated':
            vio(f'{where}: {want} became {got}')
            return True
        items = items_of(sb, want[0], want[1:])
        if items is not None and [(f[0], f[1]) for f in rb[got][4]] != items:
            vio(f'{where}: {want} should list {items}, but {got} lists {rb[got][4]}')
            return True
        return False
    if want != got:
        vio(f'{where}: {want} became {got}')
        return True
    return False


def check_mapof(s, sb, rb, o, u, vio, where):
    kt = o['ktype']
    if u[1] == 'Map':
        if kt[0] in '#>':
            want = items_of(sb, kt[0], kt[1:])
        elif kt in rb and rb[kt][1] == 'Enumerated':
            want = [(f[0], f[1]) for f in rb[kt][4]]
        else:
            vio(f'{where} became a Map')
            return True
        if want is not None and [(f[0], f[1]) for f in u[4]] != want:
            vio(f'{where} should have fields {want}, but has {u[4]}')
            return True
        return any(check_ref(s, sb, rb, o['vtype'], f[2], vio, where) for f in u[4])
    if u[1] != 'MapOf':
        vio(f'{where} became {u[1]}')
        return True
    uo = O.opts(u[2])
    if {k: v for k, v in o.items() if k not in ('vtype', 'ktype')} != {k: v for k, v in uo.items() if k not in ('vtype', 'ktype')}:
        vio(f'options of {where} became {u[2]}')
        return True
    return check_ref(s, sb, rb, o['vtype'], uo['vtype'], vio, where) or check_ref(s, sb, rb, kt, uo['ktype'], vio, where)


def check_field(s, sb, rb, keys, t, f, g, vio):
    where = f'{t[0]}.{f[1]}'
    fo, go = O.opts(f[3]), O.opts(g[3])
    to = {k: v for k, v in fo.items() if k not in ('minc', 'maxc', 'tagid', 'dir', 'key', 'link')}
    minc, maxc = fo.get('minc', 1), fo.get('maxc', 1)
    if (minc == 0) != (go.get('minc', 1) == 0) or {k: fo.get(k) for k in ('tagid', 'dir')} != {k: go.get(k) for k in ('tagid', 'dir')}:
        vio(f'options {f[3]} of {where} became {g[3]}')
        return True
    ftype, got = f[2], g[2]
    if 'link' in fo:
        k = keys.get(ftype)
        if k is None:
            return False
        ftype = k[2]
        if ftype not in sb:         # key of core type: a new type with the same base
            ftype = ('core', k[2])
    if maxc != 1:
        u = rb.get(got)
        if u is None or u[1] != 'ArrayOf':
            vio(f'repeated field {where} became {got} {u}')
            return True
        uo = O.opts(u[2])
        want = {'minv': max(minc, 1)}
        if maxc > 1:
            want['maxv'] = maxc
        if to.pop('unique', None):
            if ftype == 'ArrayOf':
                return False        # the flag belongs to the element type or the list: not settled
            want['unique'] = True
        if {k: v for k, v in uo.items() if k != 'vtype'} != want:
            vio(f'repeated field {where} {f[3]} became {u}')
            return True
        got = uo['vtype']
    if isinstance(ftype, tuple):
        if got != ftype[1] and not (got in rb and rb[got][1] == ftype[1]):
            vio(f'link {where} became {got}')
            return True
        return False
    if not to and 'key' not in fo:
        if ftype != got:
            vio(f'type {f[2]} of {where} became {got}')
            return True
        return False
    if not to:
        if got != ftype and not (got in rb and rb[got][1] == ftype and not rb[got][2]):
            vio(f'key {where} became {got}')
            return True
        return False
    if 'enum' in to or 'pointer' in to:
        return check_ref(s, sb, rb, ('#' + to['enum']) if 'enum' in to else '>' + to['pointer'], got, vio, where)
    u = rb.get(got)
    if u is None:
        vio(f'anonymous type of {where} became {got}')
        return True
    if ftype == 'MapOf':
        return check_mapof(s, sb, rb, to, u, vio, where)
    uo = O.opts(u[2])
    if u[1] != ftype or {k: v for k, v in uo.items() if k != 'vtype'} != {k: v for k, v in to.items() if k != 'vtype'}:
        vio(f'anonymous type {f[2]} {f[3]} of {where} became {u}')
        return True
    return 'vtype' in to and check_ref(s, sb, rb, to['vtype'], uo['vtype'], vio, where)
