"""C09: format validators and text conversions"""
import ipaddress
import itertools
import re
from datetime import datetime, timedelta, timezone
from . import common as C
from . import oracle as O
from .common import Violation, call, short, strict_eq, dc


def vio(what, kw, base, op, v, out):
    raise Violation(f'format {kw} ({base}): {what}: {short(v)} -> {short(out)}', {'format': kw, 'base': base, 'op': op, 'value': repr(v)},
                    'from jadn.codec.format_validate import *\nfrom jadn.codec.format_serialize_json import *\n'
                    f'v={v!r}\nt=format_validators(); c=json_format_codecs()\n'
                    + {'validate': f'print(get_format_validate_function(t,{base!r},{kw!r})(v))', 'encode': f'print(get_format_encode_function(c,{base!r},{kw!r})(v))',
                       'decode': f'print(get_format_decode_function(c,{base!r},{kw!r})(v))'}[op] + '\n')


def run(pid, stats):
    from jadn.codec.format_validate import format_validators, get_format_validate_function
    from jadn.codec.format_serialize_json import json_format_codecs, get_format_encode_function, get_format_decode_function
    r = C.rng('C09')
    big = C.thorough()
    tv, tc = format_validators(), json_format_codecs()

    def val(base, kw, v, want):
        out = call(get_format_validate_function(tv, base, kw), dc(v))
        stats.case((base, kw, repr(v)), (kw, v))
        if out[0] == 'exc' and not isinstance(out[1], (ValueError, TypeError)):
            vio('raised neither ValueError nor TypeError', kw, base, 'validate', v, out)
        if want is not None and (out[0] == 'ret') != want:
            vio('accepted a value outside the format' if out[0] == 'ret' else 'rejected a value of the format', kw, base, 'validate', v, out)

    def enc(base, kw, v):
        return call(get_format_encode_function(tc, base, kw), dc(v))

    def dec(base, kw, s):
        return call(get_format_decode_function(tc, base, kw), s)

    junk = [None, '', 'x', 1.5, [], {}, b'', [1], [b'', 0], [None, None], ['a', b'x' * 16, 1], (b'1234', 3), object, [b'1234'], [b'1234', 'x'], ['1.2.3.4', 3]]
    for kw, bits in O.INT_BITS.items():
        b = 2 ** (bits - 1)
        vs = set(range(-300, 300)) | {s * 2 ** e + d for e in range(0, 130) for d in range(-2, 3) for s in (1, -1)} | {r.randint(-3 * b, 3 * b) for _ in range(200)}
        for v in vs:
            val('Integer', kw, v, -b <= v < b)
        for v in junk:
            val('Integer', kw, v, False)
    for kw, ls in O.BIN_LEN.items():
        for n in range(0, 80):
            val('Binary', kw, r.randbytes(n), n in ls)
        for v in junk:
            val('Binary', kw, v, None if isinstance(v, bytes) else False)
    for kw, n, w in (('ipv4-net', 4, 32), ('ipv6-net', 16, 128)):
        for ln in (0, 1, 3, 4, 5, 8, 15, 16, 17, 32):
            for p in range(-3, 300) if ln == n else (-1, 0, 8, 32, 33, 128, 129):
                val('Array', kw, [r.randbytes(ln), p], ln == n and 0 <= p <= w)
        for v in junk:
            val('Array', kw, v, None if isinstance(v, tuple) else False)
    for n in range(0, 40):
        val('Array', 'tag-uuid', ['tag', r.randbytes(n)], n == 16)
    for v in junk:
        val('Array', 'tag-uuid', v, False)
    for n in range(0, 6 if not big else 8):
        for t in itertools.product('a1-.', repeat=n):
            s = ''.join(t)
            val('String', 'hostname', s, O.hostname(s))
    for s in ['a' * k for k in (62, 63, 64, 65)] + ['.'.join(['a' * 49] * k) for k in range(1, 8)] + ['a.' * 126, 'a.' * 126 + 'a', 'a.' * 127, 'a_b', 'a b', 'A.B', 'é', 'x\n']:
        val('String', 'hostname', s, None if not s.isascii() or '\n' in s else bool(O.hostname(s)))
    for s in ['a@b.co', 'x.y@example.org', 'plain', '', '@', 'a@', '@b.co', 'a b@c.de'] + [None, 1, b'a@b.co']:
        val('String', 'email', s, True if s in ('a@b.co', 'x.y@example.org') else None if isinstance(s, str) and '@' in s else False)
    for s, ok in (('1.2.3.4', True), ('1.2.3', False), ('256.1.1.1', False), ('x', False), ('::1', False)):
        val('String', 'ipv4', s, ok)
    for s, ok in (('::1', True), ('1.2.3.4', False), ('1::2::3', False), ('x', False)):
        val('String', 'ipv6', s, ok)
    for s, ok in (('2020-02-29', True), ('2021-02-29', False), ('x', False)):
        val('String', 'date', s, ok)
    for base, kw in (('Integer', 'i8'), ('Binary', 'uuid'), ('String', 'hostname')):      # a keyword that is not one
        if call(get_format_validate_function, tv, base, 'no-such-format')[0] == 'ret':
            vio('unknown format keyword accepted', 'no-such-format', base, 'validate', None, None)

    # conversions: there and back
    n = 4000 if big else 500
    for kw in ('', 'b', 'x', 'X', 'eui', 'ipv4-addr', 'ipv6-addr', 'uuid'):
        for i in range(n):
            ln = r.choice(O.BIN_LEN[kw]) if kw in O.BIN_LEN else r.choice([0, 1, 2, 3, 4, 5, 6, 7, 16, 33])
            b = bytearray(r.randbytes(ln))
            if i % 7 == 0 and ln:
                b = bytearray([r.choice([0, 255])] * ln)
            if kw == 'uuid':
                b[6] = (r.randint(1, 5) << 4) | (b[6] & 15)
                b[8] = 0x80 | (b[8] & 0x3f)
            b = bytes(b)
            stats.case((kw, b))
            e = enc('Binary', kw, b)
            want = O.Oracle({'types': []}, 0, 0).text('Binary', {'format': kw}, b)
            if e[0] == 'exc' or not O.match(want, e[1]):
                vio(f'wrong text, expected {want!r}', kw, 'Binary', 'encode', b, e)
            d = dec('Binary', kw, e[1])
            if d[0] == 'exc' or d[1] != b or type(d[1]) is not bytes:
                vio(f'text {e[1]!r} does not convert back to {b!r}', kw, 'Binary', 'decode', e[1], d)
    nets = []
    for kw, ln, w in (('ipv4-net', 4, 32), ('ipv6-net', 16, 128)):
        for p in list(range(0, w + 1)) * (3 if big else 1):
            a = r.choice([r.randbytes(ln), bytes(ln), b'\xff' * ln])
            nets.append((kw, [a, p], O.IPText(a, p)))
    for kw, v, want in nets:
        e = enc('Array', kw, v)
        stats.case((kw, repr(v)))
        if e[0] == 'exc' or not O.match(want, e[1]):
            vio('wrong text', kw, 'Array', 'encode', v, e)
        d = dec('Array', kw, e[1])
        if d[0] == 'exc' or not strict_eq(d[1], v):
            vio(f'text {e[1]!r} does not convert back', kw, 'Array', 'decode', e[1], d)
    for _ in range(200):
        tag = ''.join(r.choice('ab-1_é ') for _ in range(r.randint(0, 6)))
        u = str(__import__('uuid').UUID(bytes=r.randbytes(16), version=r.randint(1, 5)))
        e = enc('Array', 'tag-uuid', [tag, u])
        d = dec('Array', 'tag-uuid', e[1]) if e[0] == 'ret' else e
        if e[0] == 'exc' or e[1] != f'{tag}-{u}' or d[0] == 'exc' or not strict_eq(d[1], [tag, u]):
            vio('does not convert to text and back', 'tag-uuid', 'Array', 'encode', [tag, u], (e, d))
    ms = [0, 1, 999, 1000, 1001, 1003, -1, -999, -1001, 951782400000, 1709164800000 - 1, 253402300799999, -62135596800000] + [r.randint(-62135596800000, 253402300799999) for _ in range(n * 4)]
    for v in ms:
        e = enc('Integer', 'datetime-ms', v)
        stats.case(('dt', v))
        if e[0] == 'exc' or not O.match(O.Approx(v), e[1]):
            vio('wrong text', 'datetime-ms', 'Integer', 'encode', v, e)
        d = dec('Integer', 'datetime-ms', e[1])
        if d[0] == 'exc' or not strict_eq(d[1], v):
            vio(f'text {e[1]!r} does not convert back', 'datetime-ms', 'Integer', 'decode', e[1], d)
    for v in [10**15, 10**30, -10**15, 10**400, 253402300800000, -62135596800001]:
        e = enc('Integer', 'datetime-ms', v)
        if e[0] != 'exc' or not isinstance(e[1], (ValueError, TypeError)):
            vio('a time that cannot be expressed was not rejected with ValueError', 'datetime-ms', 'Integer', 'encode', v, e)
    for s in ('2020-01-02T03:04:05Z', '2020-01-02t03:04:05z', '2020-01-02 03:04:05+01:00', '2020-01-02T03:04:05.678-05:30', '1969-12-31T23:59:59.999Z'):
        d = dec('Integer', 'datetime-ms', s)
        x = datetime.fromisoformat(s.upper().replace('Z', '+00:00'))
        want = (x - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(milliseconds=1)
        if d[0] == 'exc' or d[1] != want:
            vio(f'expected {want}', 'datetime-ms', 'Integer', 'decode', s, d)
    # passing formats
    for base, kw, v in [('Integer', k, 5) for k in O.INT_BITS] + [('Number', k, 2.5) for k in ('f16', 'f32', 'f64', '')] + [('Integer', '', 7), ('String', '', 'q'), ('String', 'hostname', 'a.b'), ('Array', '', [1]), ('Boolean', '', True)]:
        if not strict_eq(enc(base, kw, v), ('ret', v)) or not strict_eq(dec(base, kw, v), ('ret', v)):
            vio('value changed by a format without text form', kw, base, 'encode', v, (enc(base, kw, v), dec(base, kw, v)))
    # texts that denote nothing
    orc = O.Oracle({'types': []}, 0, 0)
    for kw in ('b', 'x', 'X', 'eui', 'ipv4-addr', 'ipv6-addr', 'uuid'):
        for i in range(n * 2):
            if i % 3 == 0:
                s = ''.join(r.choice('0123456789abcdefABCDEFg-_=:./+ \né') for _ in range(r.randint(0, 14)))
            else:
                b = r.randbytes(r.choice(O.BIN_LEN.get(kw, (3, 4, 5))))
                s = O.unalt(orc.text('Binary', {'format': kw}, b) or b.hex())
                k = r.randint(0, len(s))
                s = r.choice([s[:k] + r.choice('g-_=:./ 0aF\né+') + s[k:], s[:k] + s[k + 1:], s.swapcase(), s + s[-1:], s[:k]])
            check_text(kw, s, orc, dec, stats)
        for v in (None, 1, b'00', ['00'], 1.5, True, {}):
            d = dec('Binary', kw, v)
            if d[0] != 'exc' or not isinstance(d[1], (ValueError, TypeError)):
                vio('a value that is not text was not rejected', kw, 'Binary', 'decode', v, d)
    for kw, base in (('ipv4-net', '1.2.3.4'), ('ipv6-net', '1:2::8')):
        for s in [base] + [f'{base}/{p}' for p in list(range(0, 140)) + ['', 'x', '-1', '1/2', '8x', '999']] + ['', '/', '/8', 'x/8', base[:-1] + '/8', base + ':/8', base + '.1/3']:
            want = orc.d_Array('Array', {'format': kw}, [], s)
            bad = O.judge(want, dec('Array', kw, s))
            stats.case((kw, s))
            if bad:
                vio(bad, kw, 'Array', 'decode', s, dec('Array', kw, s))
        for v in (None, 1, b'1.2.3.4', ['1.2.3.4', 8]):
            d = dec('Array', kw, v)
            if d[0] != 'exc' or not isinstance(d[1], (ValueError, TypeError)):
                vio('a value that is not text was not rejected', kw, 'Array', 'decode', v, d)
    for s in ('', 'nonsense', '2020-13-01T00:00:00Z', '2020-02-30T00:00:00Z', '2020-01-01T25:00:00Z', None, 5, b'2020-01-01T00:00:00Z', '12:00', '2020-01-01T00:00:00Q'):
        d = dec('Integer', 'datetime-ms', s)
        if d[0] != 'exc' or not isinstance(d[1], (ValueError, TypeError)):
            vio('text that is no date-time was not rejected', 'datetime-ms', 'Integer', 'decode', s, d)
    for s in ('', 'nodash', None, 5, b'a-b'):
        d = dec('Array', 'tag-uuid', s)
        if d[0] != 'exc' or not isinstance(d[1], (ValueError, TypeError)):
            vio('text that is no tagged UUID was not rejected', 'tag-uuid', 'Array', 'decode', s, d)


def check_text(kw, s, orc, dec, stats):
    want = orc.untext('Binary', {'format': kw}, s)
    d = dec('Binary', kw, s)
    stats.case((kw, s), (kw, s))
    bad = O.judge(want, d)
    if bad and want is O.BAD and '\n' in s:
        bad = None
    if bad:
        vio(bad, kw, 'Binary', 'decode', s, d)
