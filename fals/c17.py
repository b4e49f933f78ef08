"""C17: json_schema_dumps"""
import json
from . import common as C
from . import c12
from . import gencodec as G
from . import oracle as O
from .common import Violation, call, short, dc

FIELDED = ('Record', 'Map', 'Array', 'Choice')
NAMES = {'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string', 'Binary': 'string'}
CONFIG = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100}


class Bad(Exception):
    pass


def need(c, what):
    if not c:
        raise Bad(what)


def bounds(d, lo, hi, o, low, high, default, where, zero):
    """bounds of d are those stated by the options (a minimum of zero need not be stated where it is the least possible)"""
    want = o.get(low)
    got = d.get(lo)
    need(got == want or zero and got in (None, 0) and want in (None, 0), f'{where}: {lo} is {got!r}, the type states {want!r}')
    want = o.get(high, default)
    need(d.get(hi) == want and isinstance(d.get(hi), bool) is False, f'{where}: {hi} is {d.get(hi)!r}, the type states {want!r}')


class Judge:
    def __init__(self, s, cfg, verbose, style):
        self.types = {t[0]: t for t in s['types']}
        self.cfg, self.verbose, self.style = cfg, verbose, style

    def listed(self, d, want, where):
        if self.style == 'enum':
            got = d.get('enum')
        elif self.style == 'const':
            got = [x.get('const') for x in d.get('oneOf', [])]
        else:
            return
        need(got == want, f'{where}: lists {got!r}, the items are {want!r}')

    def named(self, d, name, where):
        """definition of a key, value or element type given by name"""
        if name[0] == '#':
            t = self.types[name[1:]]
            self.listed(d, [f[0] if '=' in t[2] else f[1] for f in t[4]], where)
        elif name[0] == '>':
            return
        elif name in O.CORE:
            need(d.get('type') == NAMES.get(name, d.get('type')), f'{where}: {d}, but the type is {name}')
        else:
            need(d.get('$ref') == f'#/definitions/{name}', f'{where}: {d}, but the type is {name}')

    def field(self, d, f, where):
        o = O.opts(f[3])
        lo, hi = o.get('minc', 1), o.get('maxc', 1)
        if hi != 1:
            need(d.get('type') == 'array' and d.get('minItems') == max(lo, 1) and d.get('maxItems') == (hi or None),
                 f'{where} occurs {lo} to {hi} times, but the definition is {short(d)}')
            d = d.get('items')
            need(isinstance(d, dict), f'{where}: no definition of the elements')
        if f[2] in O.CORE:
            self.typ(d, f[2], o, [], where)
        else:
            self.named(d, f[2], where)

    def typ(self, d, base, o, fields, where):
        mx = self.cfg
        if base in NAMES:
            need(d.get('type') == NAMES[base], f'{where}: {d.get("type")}')
        if base == 'Integer':
            bounds(d, 'minimum', 'maximum', o, 'minv', 'maxv', None, where, False)
        elif base == 'Number':
            bounds(d, 'minimum', 'maximum', o, 'minf', 'maxf', None, where, False)
        elif base == 'String':
            bounds(d, 'minLength', 'maxLength', o, 'minv', 'maxv', mx['$MaxString'], where, True)
            if 'pattern' in o:
                need(d.get('pattern') == o['pattern'], f'{where}: pattern')
        elif base == 'Enumerated':
            if 'pointer' in o:
                return
            items = self.types[o['enum']][4] if 'enum' in o else fields
            need(d.get('type') == ('integer' if 'id' in o else 'string'), f'{where}: {d.get("type")}')
            self.listed(d, [i[0] if 'id' in o else i[1] for i in items], where)
        elif base == 'ArrayOf':
            need(d.get('type') == 'array', f'{where}: {d.get("type")}')
            bounds(d, 'minItems', 'maxItems', o, 'minv', 'maxv', mx['$MaxElements'], where, True)
            need((d.get('uniqueItems') is True) == ('unique' in o), f'{where}: uniqueItems')
            self.named(d.get('items', {}), o['vtype'], where)
        elif base == 'MapOf':
            x = 'Properties' if d.get('type') == 'object' else 'Items'
            need(d.get('type') in ('object', 'array'), f'{where}: {d.get("type")}')
            bounds(d, 'min' + x, 'max' + x, o, 'minv', 'maxv', mx['$MaxElements'], where, True)
            p = (d if d['type'] == 'object' else d.get('items', {})).get('properties', {})
            for c in ('ktype', 'vtype'):
                self.named(p.get(o[c], {}), o[c], f'{where} {c}')
        elif base == 'Choice':
            if 'combine' in o:
                ds = d.get({'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[o['combine']])
                need(isinstance(ds, list) and len(ds) == len(fields), f'{where}: alternatives')
                for f, x in zip(fields, ds):
                    self.field(x, f, f'{where}.{f[1]}')
                return
            need(d.get('type') == 'object' and d.get('additionalProperties') is False and d.get('minProperties') == d.get('maxProperties') == 1,
                 f'{where}: not exactly one property')
            self.props(d, fields, where)
        elif base == 'Array' and 'format' in o:
            return
        elif base == 'Array' or base == 'Record' and not self.verbose:
            need(d.get('type') == 'array' and d.get('additionalItems') is False, f'{where}: more items are allowed')
            bounds(d, 'minItems', 'maxItems', o, 'minv', 'maxv', mx['$MaxElements'], where, True)
            need(isinstance(d.get('items'), list) and len(d['items']) == len(fields), f'{where}: items')
            for f, x in zip(fields, d['items']):
                self.field(x, f, f'{where}.{f[1]}')
        elif base in ('Map', 'Record'):
            need(d.get('type') == 'object' and d.get('additionalProperties') is False, f'{where}: unknown fields are allowed')
            bounds(d, 'minProperties', 'maxProperties', o, 'minv', 'maxv', mx['$MaxElements'], where, True)
            want = [f[1] for f in fields if O.opts(f[3]).get('minc', 1) >= 1]
            need(d.get('required', []) == want, f'{where}: required lists {d.get("required")!r}, the required fields are {want}')
            self.props(d, fields, where)

    def props(self, d, fields, where):
        p = d.get('properties', {})
        need(set(p) == {f[1] for f in fields}, f'{where}: properties {list(p)}')
        for f in fields:
            self.field(p[f[1]], f, f'{where}.{f[1]}')


def refs(x):
    if isinstance(x, dict):
        if isinstance(x.get('$ref'), str):
            yield x['$ref']
        for v in x.values():
            yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v)


def judge(s, kw, text):
    d = json.loads(text)
    defs = d.get('definitions', {})
    need(set(defs) == {t[0] for t in s['types']}, f'definitions of {list(defs)}')
    cfg = {**CONFIG, **s['info'].get('config', {})}
    j = Judge(s, cfg, kw['verbose'], kw['enum_style'])
    for t in s['types']:
        j.typ(defs[t[0]], t[1], O.opts(t[2]), t[4], t[0])
    for r in refs(d):
        at = d
        for x in r.split('/')[1:]:
            need(isinstance(at, dict) and x in at, f'reference {r} has no definition')
            at = at[x]


def run(pid, stats):
    import jadn
    from jadn.translate import json_schema_dumps
    r = C.rng('C17')
    for k in range(16000 if C.thorough() else 2000):
        if k % 2:
            s = c12.gen(r)
        else:
            g = G.SchemaGen(r, config=r.random() < 0.3)
            for _ in range(r.choice([1, 1, 2])):
                g.any(r.choice([1, 2, 2]))
            s = {'info': {'package': 'http://t/x'}, 'types': g.types}
        if r.random() < 0.3:
            s['info']['config'] = {c: r.choice([3, 50, 1000]) for c in CONFIG if r.random() < 0.6}
        if r.random() < 0.7:
            s['info']['exports'] = r.sample([t[0] for t in s['types']], min(len(s['types']), r.choice([1, 1, 2, 3])))
        if r.random() < 0.5:        # inline alternatives with options of their own
            for t in s['types']:
                if t[1] == 'Choice' and any(o[0] == 'C' for o in t[2]):
                    for f in t[4]:
                        if f[2] in ('Integer', 'String') and not f[3]:
                            f[3] = [r.choice(['{1', '}7'])]
        r.shuffle(s['types'])
        if call(jadn.check, dc(s))[0] == 'exc':
            continue
        kw = {'verbose': r.random() < 0.7, 'enum_style': r.choice(['enum', 'enum', 'const'])}
        s1 = dc(s)
        out = call(json_schema_dumps, s1, **kw)
        stats.case(repr(s), s)
        try:
            need(out[0] == 'ret', f'raised {out[1]!r}')
            judge(s, kw, out[1])
        except Bad as e:
            raise Violation(f'json_schema_dumps({kw}): {e}: schema {short(s, 700)}', {'schema': repr(s), 'result': repr(out)},
                            f'import jadn\nfrom jadn.translate import json_schema_dumps\ns={s!r}\nprint(json_schema_dumps(s, **{kw!r}))\n')
