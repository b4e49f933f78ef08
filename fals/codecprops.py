"""Falsifier of C01..C08: random core schemas and values against the oracle, on the real Codec"""
from . import common as C
from . import oracle as O
from . import gencodec as G
from .common import Violation, call, strict_eq, dc

MODES = [(False, False), (False, True), (True, False), (True, True)]
BASES = {'C01': ['Boolean', 'Integer', 'Number', 'String', 'Binary'], 'C02': ['Record', 'Map'], 'C03': ['Array', 'ArrayOf', 'MapOf'],
         'C04': ['Enumerated', 'Choice'], 'C05': ['Choice']}


def prune(schema, tn):
    """Only the types tn needs"""
    ts = {t[0]: t for t in schema['types']}
    need, todo = [], [tn]
    while todo:
        n = todo.pop()
        if n in need or n not in ts:
            continue
        need.append(n)
        t = ts[n]
        todo += [o[1:] for o in t[2] if o[0] in '*+']
        if t[1] != 'Enumerated':
            todo += [f[2] for f in t[4]]
    return {**schema, 'types': [t for t in schema['types'] if t[0] in need]}


def snippet(schema, tn, op, v, mode):
    return (f'from jadn.codec import Codec\nc = Codec({schema!r}, verbose_rec={mode[0]}, verbose_str={mode[1]})\n'
            f'print(repr(c.{op}({tn!r}, {v!r})))\n')


def report(schema, tn, op, v, mode, what, exp=None):
    s = prune(schema, tn)
    raise Violation(f'{op} {tn} mode={mode}: {what}', {
        'schema': repr(s), 'type': tn, 'op': op, 'value': repr(v), 'verbose_rec': mode[0], 'verbose_str': mode[1],
        'expected': repr(exp)}, snippet(s, tn, op, v, mode), key=f'{op}:{tn}')


def gen_schema(r, pid, depth=2):
    g = G.SchemaGen(r, unions=pid not in ('C06', 'C07'), config=pid in ('C01', 'C02', 'C03', 'C08'))
    top = []
    if pid == 'C05':
        while not top:
            t = g.any(depth, 'Choice')
            if any(o[0] == 'C' for o in dict((x[0], x) for x in g.types)[t][2]):
                top.append(t)
    elif pid in BASES:
        for b in BASES[pid]:
            if pid == 'C01':
                for _ in range(2):
                    top.append(g.scalar(b))
            elif pid == 'C04':
                for _ in range(2):
                    t = g.scalar(b) if b == 'Enumerated' else g.any(depth, b)
                    if not any(o[0] == 'C' for x in g.types if x[0] == t for o in x[2]):
                        top.append(t)
            else:
                top.append(g.any(depth, b))
    else:
        top = [g.any(depth + 1) for _ in range(2)]
    r.shuffle(g.types)
    return g.schema(), top


def values(r, vg, orc, tn, n):
    """(op, value) pairs"""
    out = []
    for _ in range(n):
        v = vg.api(tn, 4, r.choice([0, 0, 0.1, 0.3]))
        out.append(('encode', v))
        if r.random() < 0.6:
            out.append(('encode', vg.mutate(v)))
        e = orc.enc(tn, v)
        if e is not O.BAD and e is not O.ANY:
            s = O.unalt(e[1])
            out.append(('decode', s))
            m = vg.mutate(s)
            out.append(('decode', m))
            if r.random() < 0.5:
                out.append(('decode', vg.mutate(m)))
    for _ in range(3):
        out.append((r.choice(['encode', 'decode']), vg.junk()))
    return out


def run_accept(pid, stats, nschema, nval):
    """C01..C05 and C07"""
    from jadn.codec import Codec
    r = C.rng(pid)
    for k in range(nschema):
        schema, tops = gen_schema(r, pid, depth=r.choice([1, 1, 2, 3]))
        config = None
        if pid == 'C01' and r.random() < 0.2:
            config = {'info': {'package': 'x', 'config': {'$MaxString': r.randint(1, 9), '$MaxBinary': r.randint(1, 9)}}}
        codec = Codec(dc(schema), config=config)
        vg = G.ValueGen(r, schema)
        for mode in MODES:
            if r.random() < 0.5:
                codec = Codec(dc(schema), mode[0], mode[1], config)
            else:
                codec.set_mode(*mode)
            orc = O.Oracle(schema, *mode, config=config)
            for tn in tops:
                for op, v in values(r, vg, orc, tn, nval):
                    exp = (orc.enc if op == 'encode' else orc.dec)(tn, v)
                    out = call(getattr(codec, op), tn, dc(v))
                    stats.case((k, mode, tn, op, repr(v)), (schema, tn, op, v, exp))
                    if pid == 'C07':
                        if op != 'encode' or exp is O.ANY or exp is O.BAD or out[0] == 'exc':
                            continue
                    bad = O.judge(exp, out)
                    if bad:
                        got = f'; got {C.short(out[1])}'
                        report(schema, tn, op, v, mode, bad + got, exp)
            if pid == 'C01':        # unknown datatype
                for op in ('encode', 'decode'):
                    out = call(getattr(codec, op), 'Nope', 1)
                    if out[0] != 'exc' or not isinstance(out[1], ValueError):
                        report(schema, 'Nope', op, 1, mode, f'undefined type not rejected with ValueError: {out}')


def norm(orc, tn, v):
    """v without trailing empty positions of Arrays"""
    t = orc.typ(tn)
    if t is None:
        return v
    base, o, fields = t
    if base == 'Array' and 'format' not in o and isinstance(v, list):
        a = [None if x is None else norm_field(orc, f, fields, v, x) for f, x in zip(fields, v)]
        while a and a[-1] is None:
            a.pop()
        return a
    if base in ('Record', 'Map'):
        byname = {f[1]: f for f in fields}
        return {k: norm_field(orc, byname[k], fields, v, x) for k, x in v.items()}
    if base == 'ArrayOf':
        return [norm(orc, o['vtype'], x) for x in v]
    if base == 'MapOf':
        return {k: norm(orc, o['vtype'], x) for k, x in v.items()}
    if base == 'Choice':
        (k, x), = v.items()
        api, _ = orc.keys(base, o)
        return {k: norm(orc, [f for f in fields if f[api] == k][0][2], x)}
    return v


def norm_field(orc, f, fields, whole, x):
    _, tag = orc.field_opt(f)
    if tag is None:
        return norm(orc, f[2], x)
    tf = [g for g in fields if g[0] == tag][0]
    t = whole[tf[1]] if isinstance(whole, dict) else whole[tag - 1]
    return next(iter(norm(orc, f[2], {t: x}).values()))


def run_roundtrip(stats, nschema, nval):
    from jadn.codec import Codec
    r = C.rng('C06')
    for k in range(nschema):
        schema, tops = gen_schema(r, 'C06', depth=r.choice([0, 1, 2, 3]))
        vg = G.ValueGen(r, schema)
        for mode in MODES:
            codec = Codec(dc(schema), *mode)
            orc = O.Oracle(schema, *mode)
            for tn in tops:
                for _ in range(nval):
                    v = vg.api(tn, 4, r.choice([0, 0, 0, 0.1]))
                    e = call(codec.encode, tn, dc(v))
                    stats.case((k, mode, tn, repr(v)), (schema, tn, v))
                    if e[0] == 'exc':
                        continue
                    if orc.enc(tn, v) is O.BAD:
                        continue        # a value that is not of the type: judged by C01..C05
                    d = call(codec.decode, tn, dc(e[1]))
                    if d[0] == 'exc':
                        if orc.enc(tn, norm(orc, tn, v)) is O.BAD:      # elements that differ in trailing empty positions only
                            continue
                        report(schema, tn, 'encode', v, mode, f'encoded form {C.short(e[1])} is rejected by decode: {type(d[1]).__name__}: {str(d[1])[:200]}', v)
                    if not strict_eq(norm(orc, tn, v), norm(orc, tn, d[1])):
                        report(schema, tn, 'encode', v, mode, f'round trip changed the value: {C.short(e[1])} -> {C.short(d[1])}', v)


def freeze(x):
    if isinstance(x, dict):
        return ('d', tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    return (type(x).__name__, repr(x))


def run_pure(stats, nschema, nval):
    from jadn.codec import Codec
    r = C.rng('C08')
    for k in range(nschema):
        schema, tops = gen_schema(r, 'C08', depth=r.choice([1, 2, 3]))
        other, otops = gen_schema(r, 'C08', depth=1)
        ovg = G.ValueGen(r, other)
        # extensions, to exercise the copy made by unfolding
        ext = dc(schema)
        for t in ext['types']:
            if t[1] in ('Record', 'Map', 'Array'):
                for f in t[4]:
                    if r.random() < 0.2 and not f[3]:
                        f[3].append('[' + str(r.randint(0, 1)))
                        f[3].append(']' + str(r.choice([0, 2, 3])))
        before = freeze(ext)
        out = call(Codec, ext, *r.choice(MODES))
        if freeze(ext) != before:
            raise Violation('Codec() modified the schema it was given', {'schema': repr(schema)}, f'from jadn.codec import Codec\nimport copy\ns={schema!r}\nb=copy.deepcopy(s)\nCodec(s)\nassert s==b\n')
        sch = dc(schema)
        before = freeze(sch)
        codec = Codec(sch)
        ocodec = Codec(dc(other), True, True)
        vg = G.ValueGen(r, schema)
        mode = (False, False)
        history = []
        ops = []
        for tn in tops:
            for md in MODES:
                ops += [(tn, md) + x for x in values(r, vg, O.Oracle(schema, *md), tn, nval)]
        for t in sorted(t[0] for t in schema['types'])[:6]:
            for v in r.sample([1, True, 1.0, 0, False, 0.0, '1', 'a', [1], [True], [1.0], {'a': 1}, {'a': True}], 6):
                ops.append((t, r.choice(MODES), r.choice(['encode', 'decode']), v))
        r.shuffle(ops)
        ops += ops[:len(ops) // 4]
        for tn, md, op, v in ops:
            if md != mode:
                if r.random() < 0.5:
                    codec.set_mode(*md)
                    mode = md
                else:
                    md = mode
            if r.random() < 0.1:
                call(getattr(ocodec, r.choice(['encode', 'decode'])), r.choice(otops), ovg.junk())
            v1 = dc(v)
            b = freeze(v1)
            o1 = call(getattr(codec, op), tn, v1)
            stats.case((k, md, tn, op, repr(v)), (schema, tn, op, v))
            if freeze(v1) != b:
                report(schema, tn, op, v, md, f'modified the value it was given: now {C.short(v1)}')
            o2 = call(getattr(Codec(dc(schema), *md), op), tn, dc(v))
            history.append((md, tn, op, v))
            same = o1[0] == o2[0] and (strict_eq(o1[1], o2[1]) if o1[0] == 'ret' else isinstance(o1[1], (ValueError, TypeError)) == isinstance(o2[1], (ValueError, TypeError)))
            if not same:
                raise Violation(f'{op} {tn} depends on history: {C.short(o1)} after {len(history)} calls, {C.short(o2)} on a fresh codec',
                                {'schema': repr(schema), 'type': tn, 'op': op, 'value': repr(v), 'mode': md, 'history': repr(history[-60:])})
            if o1[0] == 'ret' and isinstance(o1[1], (list, dict)) and r.random() < 0.3:      # the caller may change what it received
                scribble(o1[1])
        if freeze(sch) != before:
            raise Violation('coding modified the schema the codec was built from', {'schema': repr(schema), 'history': repr(history[-60:])})


def scribble(x):
    if isinstance(x, list):
        x.append('scribble')
    else:
        x['scribble'] = 1


def run(pid, stats):
    t = 30 if C.thorough() else 4
    if pid == 'C06':
        run_roundtrip(stats, 260 * t, 5)
    elif pid == 'C08':
        run_pure(stats, 30 * t, 1)
    else:
        n = {'C01': 160, 'C02': 260, 'C03': 220, 'C04': 260, 'C05': 300, 'C07': 260}[pid]
        run_accept(pid, stats, n * t, 4)
