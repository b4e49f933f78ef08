"""Independent reading of the codec properties: what encode and decode must do for a core schema.

Written from the statements in properties.jsonl, not from the code.  Three outcomes:
  ('ok', expected)   must return a value that matches expected
  BAD                must raise ValueError or TypeError
  ANY                the statement does not settle it (only the exception class is judged)
"""
import base64
import ipaddress
import re
from datetime import datetime, timedelta, timezone

BAD = ('bad',)
ANY = ('any',)
CORE = ('Binary', 'Boolean', 'Integer', 'Number', 'String', 'Enumerated', 'Choice', 'Array', 'ArrayOf', 'Map', 'MapOf', 'Record')
TOPT = {'=': 'id', '*': 'vtype', '+': 'ktype', '#': 'enum', '>': 'pointer', '/': 'format', '%': 'pattern', 'y': 'minf',
        'z': 'maxf', '{': 'minv', '}': 'maxv', 'q': 'unique', 's': 'set', 'b': 'unordered', 'o': 'sequence',
        'C': 'combine', 'X': 'extend', '!': 'default', '[': 'minc', ']': 'maxc', '&': 'tagid', '<': 'dir', 'K': 'key', 'L': 'link'}
CONV = {'minf': float, 'maxf': float, 'minv': int, 'maxv': int, 'minc': int, 'maxc': int, 'tagid': int}
FLAG = ('id', 'unique', 'set', 'unordered', 'sequence', 'extend', 'dir', 'key', 'link')
INT_BITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
BIN_LEN = {'eui': (6, 8), 'uuid': (16,), 'ipv4-addr': (4,), 'ipv6-addr': (16,)}
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
UUID_RE = re.compile(r'[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[1-5][0-9a-fA-F]{3}-[89abAB][0-9a-fA-F]{3}-[0-9a-fA-F]{12}')


class Alt(list):
    """any one of these is an acceptable result"""


class Approx:
    """text of an instant, compared as an instant"""
    def __init__(self, ms):
        self.ms = ms

    def __repr__(self):
        return f'<datetime text of {self.ms} ms>'


class IPText:
    """text of an address (and prefix length), compared as the bytes it denotes"""
    def __init__(self, b, prefix=None):
        self.b, self.prefix = b, prefix

    def __repr__(self):
        return f'<address text of {self.b!r}/{self.prefix}>'


def parse_ip(text):
    a, _, p = text.partition('/')
    ip = ipaddress.ip_address(a)
    return ip.packed, (int(p) if p else ip.max_prefixlen)


def match(exp, act):
    if isinstance(exp, Alt):
        return any(match(e, act) for e in exp)
    if isinstance(exp, Approx):
        try:
            d = datetime.fromisoformat(act.upper().replace('Z', '+00:00'))
            return (d - EPOCH) == timedelta(milliseconds=exp.ms)
        except Exception:
            return False
    if isinstance(exp, IPText):
        try:
            b, p = parse_ip(act)
            return b == exp.b and (exp.prefix is None or p == exp.prefix)
        except Exception:
            return False
    if isinstance(exp, bool) or isinstance(act, bool):
        return isinstance(exp, bool) and isinstance(act, bool) and exp == act
    if isinstance(exp, (int, float)) and isinstance(act, (int, float)):
        return type(exp) is type(act) and exp == act
    if isinstance(exp, dict):
        if type(act) is not dict or len(exp) != len(act):
            return False
        ks = {(type(k), k): v for k, v in act.items()}
        for k, v in exp.items():
            if isinstance(k, (Alt, Approx, IPText)):
                c = [kk for kk in act if match(k, kk)]
                if len(c) != 1 or not match(v, act[c[0]]):
                    return False
            elif (type(k), k) not in ks or not match(v, ks[type(k), k]):
                return False
        return True
    if isinstance(exp, list):
        return type(act) is list and len(exp) == len(act) and all(match(e, a) for e, a in zip(exp, act))
    return type(exp) is type(act) and exp == act


def opts(olist):
    o = {}
    for s in olist:
        n = TOPT[s[0]]
        o[n] = True if n in FLAG else CONV.get(n, str)(s[1:])
    return o


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def combine_all(rs):
    if any(r is BAD for r in rs):
        return BAD
    if any(r is ANY for r in rs):
        return ANY
    return None


def hostname(s):
    if not s.isascii():
        return None
    h = s[:-1] if s.endswith('.') else s
    return len(s) <= 253 and all(re.fullmatch(r'[A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?', x) for x in h.split('.'))


class Oracle:
    def __init__(self, schema, vr, vs, config=None):
        self.types = {}
        for t in schema['types']:
            t = list(t) + [None] * 5
            self.types[t[0]] = (t[1], opts(t[2] or []), t[4] or [])
        conf = (config or schema).get('info', {}).get('config', {})
        self.cfg = {'$MaxBinary': 255, '$MaxString': 255, '$MaxElements': 100, **conf}
        self.vr, self.vs = vr, vs

    def typ(self, tn):
        if tn in self.types:
            return self.types[tn]
        return None

    # ---- limits
    def size_limits(self, base, o):
        lo, hi = o.get('minv', 0), o.get('maxv', 0)
        if hi == 0:
            hi = self.cfg['$MaxBinary'] if base == 'Binary' else self.cfg['$MaxString'] if base == 'String' else self.cfg['$MaxElements']
        return lo, hi

    def scalar_ok(self, base, o, v, bare=False):
        """Is v a value of the scalar type: True, False or None (not settled)"""
        fmt = o.get('format')
        if base == 'Boolean':
            return isinstance(v, bool)
        if base == 'Integer':
            if not is_int(v):
                return False
            if 'minv' in o and v < o['minv'] or 'maxv' in o and v > o['maxv']:
                return False
            if fmt in INT_BITS:
                b = INT_BITS[fmt] - 1
                return -2 ** b <= v < 2 ** b
            if fmt == 'datetime-ms':
                try:
                    EPOCH + timedelta(milliseconds=v)
                except OverflowError:
                    return False
            return True
        if base == 'Number':
            if not is_num(v):
                return False
            if v != v:
                return None
            return not ('minf' in o and v < o['minf'] or 'maxf' in o and v > o['maxf'])
        lo, hi = self.size_limits(base, o)
        if base == 'Binary':
            if not isinstance(v, bytes):
                return False
            if not lo <= len(v) <= hi:
                return False
            if fmt in BIN_LEN:
                return len(v) in BIN_LEN[fmt]
            return True
        if base == 'String':
            if not isinstance(v, str):
                return False
            if bare:
                return True if len(v) <= 200 else None
            if not lo <= len(v) <= hi:
                return False
            if 'pattern' in o:
                p = o['pattern']
                if '\n' in v or not (p.startswith('^') and p.endswith('$')):
                    return None
                if not re.fullmatch(p[1:-1], v):
                    return False
            if fmt == 'hostname':
                return hostname(v)
            if fmt == 'ipv4':
                return bool(re.fullmatch(r'(25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)(\.(25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)){3}', v)) if v.isascii() else None
            if fmt == 'email':
                if re.fullmatch(r'[a-z]+@[a-z]+\.[a-z]+', v):
                    return True
                return False if '@' not in v else None
            if fmt:
                return None
            return True
        raise AssertionError(base)

    def text(self, base, o, v):
        """Serialized form of an accepted scalar; None when the statement does not settle it"""
        fmt = o.get('format')
        if base == 'Binary':
            if fmt in ('x',):
                return v.hex()
            if fmt in ('X', 'eui'):
                return v.hex().upper()
            if fmt == 'uuid':
                h = v.hex()
                u = f'{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}'
                return u if UUID_RE.fullmatch(u) else None
            if fmt in ('ipv4-addr', 'ipv6-addr'):
                return IPText(v)
            return base64.urlsafe_b64encode(v).decode().rstrip('=')
        if base == 'Integer' and fmt == 'datetime-ms':
            return Approx(v)
        return v

    def untext(self, base, o, s):
        """Value a serialized scalar denotes: ('ok', v) | BAD | ANY"""
        fmt = o.get('format')
        if base == 'Binary':
            if not isinstance(s, str):
                return BAD
            if fmt in ('x', 'X', 'eui'):
                if not s.isascii() or not re.fullmatch(r'([0-9a-fA-F]{2})*', s):
                    return BAD
                if fmt != 'x' and s != s.upper():
                    return BAD
                return ('ok', bytes.fromhex(s))
            if fmt == 'uuid':
                return ('ok', bytes.fromhex(s.replace('-', ''))) if UUID_RE.fullmatch(s) else BAD
            if fmt in ('ipv4-addr', 'ipv6-addr'):
                if '%' in s:
                    return ANY
                try:
                    return ('ok', (ipaddress.IPv4Address if fmt == 'ipv4-addr' else ipaddress.IPv6Address)(s).packed)
                except ValueError:
                    return BAD
            if not re.fullmatch(r'[A-Za-z0-9_=-]*', s):
                return BAD
            if '=' in s:
                return ANY
            if len(s) % 4 == 1:
                return BAD
            v = base64.b64decode(s + '=' * (-len(s) % 4), altchars=b'-_')
            return ('ok', v)
        if base == 'Integer' and fmt == 'datetime-ms':
            if not isinstance(s, str):
                return BAD
            m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)[Tt ](\d\d):(\d\d):(\d\d)(\.\d{3})?(Z|z|[+-]\d\d:\d\d)', s)
            if not m or not s.isascii():
                return ANY if re.search(r'\d', s) else BAD
            try:
                d = datetime.fromisoformat(s.upper().replace('Z', '+00:00').replace(' ', 'T'))
            except ValueError:
                return BAD
            ms = (d - EPOCH) / timedelta(milliseconds=1)
            return ('ok', int(ms))
        return ('ok', s)

    # ---- encode
    def enc(self, tn, v):
        t = self.typ(tn)
        if t is None:
            if tn not in CORE:
                return BAD
            if tn == 'Binary':
                return ANY
            if tn not in ('Boolean', 'Integer', 'Number', 'String'):
                return ANY
            ok = self.scalar_ok(tn, {}, v, bare=True)
            return ('ok', v) if ok else ANY if ok is None else BAD
        base, o, fields = t
        return getattr(self, 'e_' + base)(base, o, fields, v)

    def e_scalar(self, base, o, fields, v):
        ok = self.scalar_ok(base, o, v)
        if ok is None:
            return ANY
        if not ok:
            return BAD
        s = self.text(base, o, v)
        return ANY if s is None else ('ok', s)
    e_Boolean = e_Integer = e_Number = e_String = e_Binary = e_scalar

    def d_scalar(self, base, o, fields, s):
        r = self.untext(base, o, s)
        if r is BAD or r is ANY:
            return r
        ok = self.scalar_ok(base, o, r[1])
        return r if ok else ANY if ok is None else BAD
    d_Boolean = d_Integer = d_Number = d_String = d_Binary = d_scalar

    def keys(self, base, o):
        """(column of the api key, column of the serialized key)"""
        api = 0 if 'id' in o else 1
        ser = 1 if self.vs and 'id' not in o else 0
        return api, ser

    @staticmethod
    def key_is(k, want):
        return type(k) is type(want) and k == want

    def e_Enumerated(self, base, o, fields, v):
        api, ser = self.keys(base, o)
        for f in fields:
            if self.key_is(v, f[api]):
                return ('ok', f[ser])
        return BAD if isinstance(v, (bool, str, bytes, list, dict, type(None))) or is_int(v) else ANY

    def d_Enumerated(self, base, o, fields, s):
        api, ser = self.keys(base, o)
        for f in fields:
            if self.key_is(s, f[ser]):
                return ('ok', f[api])
        return BAD if isinstance(s, (bool, str, bytes, list, dict, type(None))) or is_int(s) else ANY

    def union(self, o, fields, v, coder):
        rs = [coder(f[2], v) for f in fields]
        if any(r is ANY for r in rs):
            return ANY
        good = [r[1] for r in rs if r is not BAD]
        c = o['combine']
        if c == 'O':
            return ('ok', good[0]) if good else BAD
        if c == 'A':
            return ('ok', Alt(good)) if len(good) == len(rs) else BAD
        return ('ok', good[0]) if len(good) == 1 else BAD

    def e_Choice(self, base, o, fields, v):
        if 'combine' in o:
            return self.union(o, fields, v, self.enc)
        if not isinstance(v, dict) or len(v) != 1:
            return BAD
        (k, x), = v.items()
        api, ser = self.keys(base, o)
        for f in fields:
            if self.key_is(k, f[api]):
                r = self.enc(f[2], x)
                return r if r is BAD or r is ANY else ('ok', {f[ser]: r[1]})
        return BAD if isinstance(k, (str, type(None), bytes)) or is_int(k) else ANY

    def lenient(self, k):
        """serialized keys of integer form may arrive as text or other numbers: not settled"""
        if is_int(k):
            return False
        try:
            int(k)
            return True
        except (ValueError, TypeError, OverflowError):
            return False

    def d_Choice(self, base, o, fields, s):
        if 'combine' in o:
            return self.union(o, fields, s, self.dec)
        if not isinstance(s, dict) or len(s) != 1:
            return BAD
        (k, x), = s.items()
        api, ser = self.keys(base, o)
        for f in fields:
            if self.key_is(k, f[ser]):
                r = self.dec(f[2], x)
                return r if r is BAD or r is ANY else ('ok', {f[api]: r[1]})
        if ser == 0 and self.lenient(k):
            return ANY
        return BAD

    def field_opt(self, f):
        o = opts(f[3])
        return o.get('minc', 1) == 0, o.get('tagid')

    def e_Record(self, base, o, fields, v):
        if type(v) is not dict:
            return BAD if not isinstance(v, dict) else ANY
        lo, hi = self.size_limits(base, o)
        if not lo <= len(v) <= hi:
            return BAD
        names = {f[1]: f for f in fields}
        if any(not isinstance(k, str) or k not in names for k in v):
            return BAD
        rs, out = [], {}
        for f in fields:
            optional, tag = self.field_opt(f)
            if f[1] not in v:
                if not optional:
                    rs.append(BAD)
                continue
            x = v[f[1]]
            if x is None:
                rs.append(BAD if not optional else ANY)
                continue
            if tag is not None:
                tf = [g for g in fields if g[0] == tag][0]
                if tf[1] not in v:
                    rs.append(BAD)
                    continue
                try:
                    r = self.enc(f[2], {v[tf[1]]: x})
                except TypeError:
                    r = BAD
                if r is not BAD and r is not ANY:
                    r = ('ok', next(iter(r[1].values())))
            else:
                r = self.enc(f[2], x)
            rs.append(r)
            if r is not BAD and r is not ANY:
                out[f[0]] = r[1]
        c = combine_all(rs)
        if c:
            return c
        if base == 'Record' and not self.vr:
            s = [out.get(f[0]) for f in fields]
            while s and s[-1] is None:
                s.pop()
            return ('ok', s)
        _, ser = self.keys(base, o)
        return ('ok', {f[ser]: out[f[0]] for f in fields if f[0] in out})
    e_Map = e_Record

    def d_Record(self, base, o, fields, s):
        lo, hi = self.size_limits(base, o)
        concise = base == 'Record' and not self.vr
        _, ser = self.keys(base, o)
        rs, vals = [], {}
        if concise:
            if type(s) is not list:
                return BAD if not isinstance(s, list) else ANY
            if len(s) > len(fields):
                return BAD
            n = sum(x is not None for x in s)
            for i, x in enumerate(s):
                if x is not None:
                    vals[fields[i][0]] = x
        else:
            if type(s) is not dict:
                return BAD if not isinstance(s, dict) else ANY
            n = len(s)
            if any(x is None for x in s.values()):      # null entries: how they are counted is not settled
                if not (lo <= sum(x is not None for x in s.values()) and n <= hi):
                    return ANY
            for k, x in s.items():
                fs = [f for f in fields if self.key_is(k, f[ser])]
                if not fs:
                    if ser == 0 and self.lenient(k):
                        return ANY
                    return BAD
                if x is not None:
                    vals[fs[0][0]] = x
        if not lo <= n <= hi:
            return BAD
        out = {}
        for f in fields:
            optional, tag = self.field_opt(f)
            if f[0] not in vals:
                if not optional:
                    rs.append(BAD)
                continue
            if tag is not None:
                if tag not in vals:
                    rs.append(BAD)
                    continue
                try:
                    r = self.dec(f[2], {vals[tag]: vals[f[0]]})
                except TypeError:
                    r = BAD
                if r is not BAD and r is not ANY:
                    r = ('ok', next(iter(r[1].values())))
            else:
                r = self.dec(f[2], vals[f[0]])
            rs.append(r)
            if r is not BAD and r is not ANY:
                out[f[1]] = r[1]
        return combine_all(rs) or ('ok', out)
    d_Map = d_Record

    def positions(self, base, o, fields, v, coder):
        if type(v) is not list:
            return BAD if not isinstance(v, list) else ANY
        lo, hi = self.size_limits(base, o)
        if len(v) > len(fields):
            return BAD
        if not lo <= sum(x is not None for x in v) <= hi:
            return BAD
        rs, out = [], []
        for i, f in enumerate(fields):
            optional, tag = self.field_opt(f)
            x = v[i] if i < len(v) else None
            if x is None:
                out.append(None)
                if not optional:
                    rs.append(BAD)
                continue
            if tag is not None:
                t = v[tag - 1] if tag - 1 < len(v) else None
                if t is None:
                    rs.append(BAD)
                    continue
                try:
                    r = coder(f[2], {t: x})
                except TypeError:
                    r = BAD
                if r is not BAD and r is not ANY:
                    r = ('ok', next(iter(r[1].values())))
            else:
                r = coder(f[2], x)
            rs.append(r)
            out.append(r[1] if r is not BAD and r is not ANY else None)
        c = combine_all(rs)
        if c:
            return c
        while out and out[-1] is None:
            out.pop()
        return ('ok', out)

    def e_Array(self, base, o, fields, v):
        fmt = o.get('format')
        if fmt in ('ipv4-net', 'ipv6-net'):
            n, w = (4, 32) if fmt == 'ipv4-net' else (16, 128)
            if type(v) is not list or len(v) != 2 or not isinstance(v[0], bytes) or not is_int(v[1]):
                return BAD
            lo, hi = self.size_limits(base, o)
            if not lo <= 2 <= hi:
                return BAD
            if len(v[0]) != n or not 0 <= v[1] <= w:
                return BAD
            return ('ok', IPText(v[0], v[1]))
        if fmt == 'tag-uuid':
            r = self.positions(base, o, fields, v, self.enc)
            return r if r is BAD or r is ANY else ('ok', r[1][0] + '-' + r[1][1])
        return self.positions(base, o, fields, v, self.enc)

    def d_Array(self, base, o, fields, s):
        fmt = o.get('format')
        if fmt in ('ipv4-net', 'ipv6-net'):
            if not isinstance(s, str):
                return BAD
            m = re.fullmatch(r'([0-9a-fA-F:.]+)(?:/(0|[1-9]\d{0,3}))?', s)
            if not m:
                return ANY if re.fullmatch(r'[0-9a-fA-F:.]+/.*\d.*', s) else BAD
            w = 32 if fmt == 'ipv4-net' else 128
            lo, hi = self.size_limits(base, o)
            if not lo <= 2 <= hi:
                return BAD
            try:
                b = (ipaddress.IPv4Address if w == 32 else ipaddress.IPv6Address)(m.group(1)).packed
            except ValueError:
                return BAD
            p = int(m.group(2)) if m.group(2) else w
            return ('ok', [b, p]) if p <= w else BAD
        if fmt == 'tag-uuid':
            if not isinstance(s, str):
                return BAD
            if not UUID_RE.fullmatch(s[-36:]) or s[-37:-36] != '-' or '\n' in s:
                return ANY if '-' in s else BAD
            return self.positions(base, o, fields, [s[:-37], s[-36:]], self.dec)
        return self.positions(base, o, fields, s, self.dec)

    def elements(self, base, o, v, coder):
        if type(v) is not list:
            return BAD if not isinstance(v, list) else ANY
        lo, hi = self.size_limits(base, o)
        if not lo <= len(v) <= hi:
            return BAD
        rs = [coder(o['vtype'], x) for x in v]
        c = combine_all(rs)
        if c is BAD:
            return BAD
        if 'unique' in o or 'set' in o:
            for i in range(len(v)):
                for j in range(i):
                    if v[i] == v[j]:
                        return BAD
        return c or ('ok', [r[1] for r in rs])

    def e_ArrayOf(self, base, o, fields, v):
        return self.elements(base, o, v, self.enc)

    def d_ArrayOf(self, base, o, fields, s):
        r = self.elements(base, o, s, self.dec)
        if r is not BAD and r is not ANY and ('unique' in o or 'set' in o):
            for i in range(len(r[1])):
                for j in range(i):
                    if r[1][i] == r[1][j]:
                        return ANY          # distinct texts of equal values
        return r

    def entries(self, base, o, v, coder):
        if type(v) is not dict:
            return BAD if not isinstance(v, dict) else ANY
        lo, hi = self.size_limits(base, o)
        if not lo <= len(v) <= hi:
            return BAD
        ks = [coder(o['ktype'], k) for k in v]
        xs = [coder(o['vtype'], x) for x in v.values()]
        c = combine_all(ks + xs)
        if c:
            return c
        out = {}
        for k, x in zip(ks, xs):
            try:
                if not isinstance(k[1], (Approx, IPText)) and k[1] in out:
                    return ANY
                out[k[1]] = x[1]
            except TypeError:
                return ANY
        return ('ok', out)

    def e_MapOf(self, base, o, fields, v):
        return self.entries(base, o, v, self.enc)

    def d_MapOf(self, base, o, fields, s):
        return self.entries(base, o, s, self.dec)

    # ---- decode
    def dec(self, tn, s):
        t = self.typ(tn)
        if t is None:
            return self.enc(tn, s)
        base, o, fields = t
        return getattr(self, 'd_' + base)(base, o, fields, s)


def unalt(x):
    """A plain value out of an expected result"""
    if isinstance(x, Alt):
        return unalt(x[0])
    if isinstance(x, Approx):
        return (EPOCH + timedelta(milliseconds=x.ms)).isoformat()
    if isinstance(x, IPText):
        a = str(ipaddress.ip_address(x.b))
        return a if x.prefix is None else f'{a}/{x.prefix}'
    if isinstance(x, list):
        return [unalt(v) for v in x]
    if isinstance(x, dict):
        return {unalt(k): unalt(v) for k, v in x.items()}
    return x


def judge(exp, outcome):
    """None if the outcome agrees, else what is wrong"""
    kind, r = outcome
    if kind == 'exc' and not isinstance(r, (ValueError, TypeError)):
        return f'raised {type(r).__name__} ({r}), neither ValueError nor TypeError'
    if exp is ANY:
        return None
    if exp is BAD:
        return None if kind == 'exc' else 'accepted a value the type does not allow'
    if kind == 'exc':
        return f'rejected a value the type allows ({type(r).__name__}: {str(r)[:200]})'
    return None if match(exp[1], r) else f'returned a wrong result (expected {exp[1]!r}'[:400] + ')'
