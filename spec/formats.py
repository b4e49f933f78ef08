"""C09: validators of the format keywords against their definitions, and the text conversions over contracts of the
library functions they use (base64, ipaddress, datetime)."""
from .base import *
from jadn.codec import format_validate as fv, format_serialize_json as fs

x = z3.Const('x', Val)


def intval(v):
    return z3.If(th.is_bool(v), z3.If(Val.bv(v), z3.IntVal(1), z3.IntVal(0)), Val.iv(v))


def isint(v):
    return z3.Or(th.is_int(v), th.is_bool(v))


def accepts(ok):
    def post(m, o):
        if o.kind == 'raise':
            yield 'rejected values raise ValueError or TypeError', z3.BoolVal(exc_ok(o))
            yield 'only invalid values are rejected', z3.Not(ok)
        else:
            yield 'only valid values are accepted', ok
            yield 'the value is returned', m.box(o.value) == x
    return post


def validator(base, kw, ok):
    def run(P):
        f = fv.format_validators()[base][kw]
        P.contract(f'validator {base} {kw}', lambda m: m.call(K(f), [Sym(x)]), accepts(ok))
    return (f'validator {base}/{kw}', run)


def sized(n):
    return z3.And(th.is_byt(x), z3.Or(*[th.blen(Val.yv(x)) == k for k in n]))


def net(n, w):
    a, b = th.lat(Val.lv(x), 0), th.lat(Val.lv(x), 1)
    return z3.And(th.is_lst(x), th.llen(Val.lv(x)) == 2, th.is_byt(a), isint(b), th.blen(Val.yv(a)) == n, intval(b) >= 0, intval(b) <= w)


def parts(pid, tier):
    out = [validator('Integer', f'i{b}', z3.And(isint(x), intval(x) >= -2**(b - 1), intval(x) < 2**(b - 1))) for b in (8, 16, 32, 64)]
    out += [validator('Binary', 'eui', sized((6, 8))), validator('Binary', 'uuid', sized((16,))),
            validator('Binary', 'ipv4-addr', sized((4,))), validator('Binary', 'ipv6-addr', sized((16,)))]
    out += [validator('Array', 'ipv4-net', net(4, 32)), validator('Array', 'ipv6-net', net(16, 128))]
    a, b = th.lat(Val.lv(x), 0), th.lat(Val.lv(x), 1)
    out += [validator('Array', 'tag-uuid', z3.And(th.is_lst(x), th.llen(Val.lv(x)) == 2, th.is_str(a), th.is_byt(b), th.blen(Val.yv(b)) == 16))]
    return out
