"""Random core schemas and values for the codec properties"""
import ipaddress
from . import oracle as O

PATTERNS = ['^[a-c]+$', '^\\d{2,3}$', '^(ab)*$', '^[A-Z][a-z]{0,2}$', '^x$']
NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'a', 'b', 'c', 'x1', 'id', 'k_2']


class SchemaGen:
    def __init__(self, r, bases=None, unions=True, fmts=True, config=False, tags=True):
        self.r, self.unions, self.fmts, self.tags = r, unions, fmts, tags
        self.types, self.config = [], {}
        self.bases = bases
        if config and r.random() < 0.4:
            for k, hi in (('$MaxBinary', 12), ('$MaxString', 12), ('$MaxElements', 6)):
                if r.random() < 0.6:
                    self.config[k] = r.randint(1, hi)

    def schema(self):
        s = {'info': {'package': 'http://t/x'}, 'types': self.types}
        if self.config:
            s['info']['config'] = self.config
        return s

    def name(self):
        return f'T{len(self.types)}'

    def add(self, base, o=(), fields=()):
        n = self.name()
        o = list(o)
        self.r.shuffle(o)
        self.types.append([n, base, o, '', [list(f) for f in fields]])
        return n

    def scalar(self, base=None):
        r = self.r
        base = base or r.choice(['Boolean', 'Integer', 'Number', 'String', 'Binary', 'Enumerated'])
        o = []
        if base == 'Integer':
            if self.fmts and r.random() < 0.35:
                o.append('/' + r.choice(['i8', 'i16', 'i32', 'i64', 'datetime-ms']))
            lo = r.choice([-10, -1, 0, 1, 3, 100, -129, 32767])
            if r.random() < 0.5:
                o.append('{' + str(lo))
            if r.random() < 0.5:
                o.append('}' + str(lo + r.choice([0, 1, 2, 7, 300])))
        elif base == 'Number':
            lo = r.choice([-2.5, 0.0, 1.0, 0.1, 100.0])
            if r.random() < 0.5:
                o.append('y' + str(lo))
            if r.random() < 0.5:
                o.append('z' + str(lo + r.choice([0.0, 0.5, 3.25])))
            if self.fmts and r.random() < 0.2:
                o.append('/' + r.choice(['f16', 'f32', 'f64']))
        elif base == 'String':
            if r.random() < 0.3:
                o.append('%' + r.choice(PATTERNS))
            else:
                self.size(o, 6)
            if self.fmts and r.random() < 0.25:
                o.append('/' + r.choice(['hostname', 'email', 'ipv4']))
        elif base == 'Binary':
            if self.fmts and r.random() < 0.6:
                o.append('/' + r.choice(['x', 'X', 'b', 'eui', 'uuid', 'ipv4-addr', 'ipv6-addr']))
            self.size(o, 8)
        elif base == 'Enumerated':
            if r.random() < 0.4:
                o.append('=')
            n = r.choice([0, 1, 1, 2, 3, 5]) if r.random() < 0.3 else r.randint(1, 5)
            ids = r.sample([0, 1, 2, 3, 4, 5, 7, 10, 99], n)
            nm = r.sample(NAMES, n)
            return self.add(base, o, [[i, x, ''] for i, x in zip(ids, nm)])
        return self.add(base, o)

    def size(self, o, top, p=0.4):
        r = self.r
        lo = r.randint(0, top)
        if r.random() < p:
            o.append('{' + str(lo))
        if r.random() < p:
            o.append('}' + str(max(1, lo + r.choice([0, 0, 1, 3]))))

    def ref(self, depth):
        r = self.r
        if r.random() < 0.2:
            return r.choice(['Boolean', 'Integer', 'Number', 'String'])
        if self.types and r.random() < 0.25:
            return r.choice(self.types)[0]
        return self.any(depth - 1)

    def any(self, depth, base=None):
        r = self.r
        if base is None:
            base = 'scalar' if depth <= 0 or r.random() < 0.35 else r.choice(['Record', 'Record', 'Map', 'Array', 'ArrayOf', 'MapOf', 'Choice', 'Choice'])
        if base == 'scalar':
            return self.scalar()
        return getattr(self, 'g_' + base, lambda d: self.scalar(base))(depth)

    def optmix(self):
        return self.r.choice([0.0, 0.3, 0.5, 0.8, 1.0])

    def g_Record(self, depth, base='Record'):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 6]) if r.random() < 0.9 else 9
        ids = list(range(1, n + 1)) if base != 'Map' else r.sample(range(0, 15), n)
        names = r.sample(NAMES, n)
        po = self.optmix()
        fs = []
        for i in range(n):
            fo = ['[0'] if r.random() < po else []
            fs.append([ids[i], names[i], self.ref(depth), fo, ''])
        if self.tags and n >= 2 and r.random() < 0.3:     # external tag
            i, j = r.sample(range(n), 2)
            idopt = ['='] if r.random() < 0.3 else []
            m = r.randint(1, 3)
            ci, cn = r.sample(range(1, 9), m), r.sample(NAMES, m)
            e = self.add('Enumerated', idopt, [[a, b, ''] for a, b in zip(ci, cn)])
            c = self.add('Choice', idopt, [[a, b, self.ref(0), [], ''] for a, b in zip(ci, cn)])
            fs[i][2] = e
            fs[j][2] = c
            fs[j][3] = fs[j][3] + ['&' + str(ids[i])]
            r.shuffle(fs[j][3])
        o = []
        if base == 'Map' and r.random() < 0.35:
            o.append('=')
        if r.random() < 0.3:
            self.size(o, max(1, n), 0.6)
        if r.random() < 0.1:
            o.append('X')
        n_ = self.add(base, o, fs)
        if fs and r.random() < 0.15:        # recursive optional field
            k = r.randrange(len(fs))
            f = self.types[-1][4][k]
            if not any(x[0] == '&' for g in fs for x in g[3]):
                f[2], f[3] = n_, ['[0']
        return n_

    def g_Map(self, depth):
        return self.g_Record(depth, 'Map')

    def g_Array(self, depth):
        if self.fmts and self.r.random() < 0.2:
            k = self.r.choice(['ipv4-net', 'ipv6-net', 'tag-uuid'])
            if k == 'tag-uuid':
                u = self.add('Binary', ['/uuid'])
                return self.add('Array', ['/tag-uuid'], [[1, 'tag', 'String', [], ''], [2, 'uuid', u, [], '']])
            return self.add('Array', ['/' + k], [[1, 'addr', 'Binary', [], ''], [2, 'prefix', 'Integer', [], '']])
        return self.g_Record(depth, 'Array')

    def g_ArrayOf(self, depth):
        o = ['*' + self.ref(depth)]
        self.size(o, 3, 0.35)
        if self.r.random() < 0.35:
            o.append(self.r.choice(['q', 's', 'b']))
        return self.add('ArrayOf', o)

    def g_MapOf(self, depth):
        r = self.r
        k = r.choice(['Integer', 'String', None, None])
        if k is None:
            k = self.scalar(r.choice(['Integer', 'String', 'Binary']))
        o = ['*' + self.ref(depth), '+' + k]
        self.size(o, 3, 0.35)
        return self.add('MapOf', o)

    def g_Choice(self, depth):
        r = self.r
        n = r.randint(1, 4)
        ids, names = r.sample(range(0, 12), n), r.sample(NAMES, n)
        fs = [[ids[i], names[i], self.ref(depth), [], ''] for i in range(n)]
        o = []
        if self.unions and r.random() < 0.4:
            o.append('C' + r.choice('OAX'))
            if r.random() < 0.5:        # overlapping alternatives
                for f in fs:
                    f[2] = self.scalar(r.choice(['Integer', 'String', 'Number'])) if r.random() < 0.7 else f[2]
        elif r.random() < 0.3:
            o.append('=')
        return self.add('Choice', o, fs)


class ValueGen:
    """api(tn): a value that is often valid; junk(): any value"""

    def __init__(self, r, schema):
        self.r = r
        self.o = O.Oracle(schema, False, False)

    def api(self, tn, depth=5, bad=0.0):
        r = self.r
        if r.random() < bad:
            return self.junk()
        t = self.o.typ(tn)
        if t is None:
            return self.scalar(tn, {})
        base, o, fields = t
        if base in ('Boolean', 'Integer', 'Number', 'String', 'Binary'):
            return self.scalar(base, o)
        if base == 'Enumerated':
            return r.choice(fields)[0 if 'id' in o else 1] if fields else r.choice([1, 'a', True])
        lo, hi = self.o.size_limits(base, o)
        if base in ('Record', 'Map', 'Array'):
            fmt = o.get('format')
            if fmt in ('ipv4-net', 'ipv6-net'):
                n, w = (4, 32) if fmt == 'ipv4-net' else (16, 128)
                return [r.randbytes(r.choice([n] * 8 + [n - 1, n + 1])), r.choice([0, 1, w // 2, w - 1, w, w, w + 1, -1])]
            pres = r.choice([0.0, 0.5, 0.5, 0.9, 1.0])
            v = {}
            for f in fields:
                optional, tag = self.o.field_opt(f)
                if not optional or (depth > 0 and r.random() < pres):
                    if tag is not None:
                        continue
                    if r.random() < bad / 3:
                        continue
                    v[f[0]] = self.api(f[2], depth - 1, bad)
            for f in fields:
                optional, tag = self.o.field_opt(f)
                if tag is not None and (not optional or r.random() < pres) and tag in v and r.random() < 0.95:
                    ct = self.o.typ(f[2])
                    alt = [g for g in ct[2] if g[0] == v[tag] or g[1] == v[tag]]
                    v[f[0]] = self.api(alt[0][2] if alt else 'Integer', depth - 1, bad)
            if base == 'Array':
                a = [v.get(f[0]) for f in fields]
                while a and a[-1] is None and r.random() < 0.7:
                    a.pop()
                if r.random() < bad:
                    a.append(r.choice([None, 1, [], 'x']))
                return a
            d = {f[1]: v[f[0]] for f in fields if f[0] in v}
            if r.random() < bad:
                d[r.choice(['zzz', 1, 'alpha'])] = self.junk()
            if r.random() < bad and d:
                del d[r.choice(list(d))]
            if r.random() < 0.2:
                d = dict(sorted(d.items(), key=lambda kv: r.random()))
            return d
        if base == 'ArrayOf':
            n = self.count(lo, hi, depth)
            xs = [self.api(o['vtype'], depth - 1, bad / 2) for _ in range(n)]
            if xs and r.random() < 0.2:
                xs[r.randrange(len(xs))] = O_copy(r.choice(xs))
            return xs
        if base == 'MapOf':
            n = self.count(lo, hi, depth)
            d = {}
            for _ in range(n):
                k = self.api(o['ktype'], 0, bad / 2)
                try:
                    d[k] = self.api(o['vtype'], depth - 1, bad / 2)
                except TypeError:
                    pass
            return d
        if base == 'Choice':
            if not fields:
                return {}
            f = r.choice(fields)
            v = self.api(f[2], depth - 1, bad)
            if 'combine' in o:
                return v
            d = {f[0 if 'id' in o else 1]: v}
            if r.random() < bad:
                d[r.choice(['zzz', 1, 'alpha', 0])] = self.junk()
            return d
        raise AssertionError(base)

    def count(self, lo, hi, depth):
        r = self.r
        if depth <= 0:
            return lo
        if hi <= 6 and r.random() < 0.3:
            return r.choice([max(0, lo - 1), lo, hi, hi + 1])
        if r.random() < 0.01 and depth >= 4:
            return r.choice([hi, hi + 1])
        return max(0, min(lo + r.choice([0, 0, 1, 2]), hi + 1))

    def scalar(self, base, o):
        r = self.r
        fmt = o.get('format')
        if base == 'Boolean':
            return r.random() < 0.5
        if base == 'Integer':
            c = [0, 1, -1, 2, 5, 100, 2 ** 70, r.randint(-10**6, 10**13)]
            for k in ('minv', 'maxv'):
                if k in o:
                    c += [o[k] - 1, o[k], o[k], o[k] + 1] * 2
            if fmt in O.INT_BITS:
                b = 2 ** (O.INT_BITS[fmt] - 1)
                c += [-b - 1, -b, b - 1, b]
            if fmt == 'datetime-ms':
                c += [r.randint(0, 4 * 10**12) for _ in range(12)]
            return r.choice(c)
        if base == 'Number':
            c = [0, 0.0, 1.5, -3.25, 7, 1e300, r.random() * 10]
            for k in ('minf', 'maxf'):
                if k in o:
                    c += [o[k] - 0.001, o[k], o[k], o[k] + 0.001, int(o[k]), int(o[k]) + 1]
            return r.choice(c)
        lo, hi = self.o.size_limits(base, o)
        n = r.choice([lo, lo, hi if hi < 300 else lo, max(0, lo - 1), (hi + 1) if hi < 300 else lo, r.randint(lo, max(lo, min(hi, lo + 6)))])
        if base == 'Binary':
            if fmt in O.BIN_LEN:
                n = r.choice(list(O.BIN_LEN[fmt]) * 4 + [n, O.BIN_LEN[fmt][0] - 1, O.BIN_LEN[fmt][0] + 1])
            b = bytearray(r.randbytes(n))
            if fmt == 'uuid' and n == 16 and r.random() < 0.9:
                b[6] = r.choice([0x10, 0x40, 0x5f]) | (b[6] & 15)
                b[8] = 0x80 | (b[8] & 0x3f)
            if r.random() < 0.2:
                b = bytearray(n)
            return bytes(b)
        if 'pattern' in o:
            return r.choice(['abc', 'a', 'd', '', '12', '123', '1234', 'ab', 'abab', 'aba', 'X', 'Xy', 'Xyz', 'Xyzz', 'x', 'xx', 'abcA', ' abc'])
        if fmt == 'hostname':
            return r.choice(['example.com', 'a', 'a.b.', '-a', 'a-', 'a_b', '', '.', 'A1-b.c', 'a' * 63, 'a' * 64, 'x..y'])[:max(0, n) if r.random() < 0.2 else None]
        if fmt == 'email':
            return r.choice(['a@b.co', 'plain', '', 'foo@bar.org'])
        if fmt == 'ipv4':
            return r.choice(['1.2.3.4', '255.255.255.255', '256.1.1.1', '1.2.3', '', '1.2.3.4.5', 'x'])
        return ''.join(r.choice('abcXYZ 019-_/"\\\u00e9') for _ in range(n))

    def junk(self):
        r = self.r
        return r.choice([None, True, False, 0, 1, -1, 2.5, float('inf'), '', 'alpha', '1', b'', b'\x01\x02', [], [1], ['a', None], {},
                         {'alpha': 1}, {1: 1}, {'1': 2}, {'alpha': 1, 'beta': 2}, [[1], [1]], [None], 10**30, 'T0', ['alpha'], {'a': None}, (1, 2), {None: 1}])

    def mutate(self, v, depth=0):
        """A value close to v"""
        r = self.r
        if isinstance(v, dict) and v and r.random() < 0.85:
            d = dict(v)
            k = r.choice(list(d))
            op = r.random()
            if op < 0.5:
                d[k] = self.mutate(d[k], depth + 1)
            elif op < 0.65:
                del d[k]
            elif op < 0.8:
                x = d.pop(k)
                nk = r.choice([str(k), k + 1 if isinstance(k, int) else str(k) + 'x', 'alpha', 1, 0, True, None, k.encode() if isinstance(k, str) else 2])
                d[nk] = x
            elif op < 0.9:
                d[r.choice(['alpha', 'beta', 1, 2, 0, 'zzz', '1'])] = self.junk()
            else:
                d[k] = None
            return d
        if isinstance(v, list) and v and r.random() < 0.85:
            a = list(v)
            i = r.randrange(len(a))
            op = r.random()
            if op < 0.5:
                a[i] = self.mutate(a[i], depth + 1)
            elif op < 0.6:
                del a[i]
            elif op < 0.7:
                a.append(r.choice([None, self.junk(), O_copy(a[i])]))
            elif op < 0.8:
                a[i] = None
            elif op < 0.9:
                a.insert(i, O_copy(a[i]))
            else:
                a.reverse()
            return a
        if isinstance(v, str) and r.random() < 0.6:
            return r.choice([v + 'x', v[:-1], v[1:], v.upper(), v + ' ', v + '=', v[:len(v) // 2] + '*' + v[len(v) // 2:], v + '0', v + 'A', v.swapcase()])
        if isinstance(v, bytes) and r.random() < 0.6:
            return r.choice([v + b'\0', v[:-1], v.hex(), bytearray(v)])
        if isinstance(v, (int, float)) and not isinstance(v, bool) and r.random() < 0.6:
            return r.choice([v + 1, v - 1, -v, float(v) if abs(v) < 1e300 else v, str(v), bool(v)])
        return self.junk()


def O_copy(x):
    import copy
    return copy.deepcopy(x)
