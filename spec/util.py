"""Building blocks of the contracts of the schema utilities: symbolic definitions, options and results."""
from .base import *
from pyvc.models import simp

F = z3.Function
Int, Bool, Str, Real = th.Int, th.Bool, th.Str, th.Real
N = z3.Int('N')             # number of fields
POS = z3.Int('POS')         # an arbitrary position
KEY = z3.Const('KEY', Val)  # an arbitrary key
fid, fname, ftype, fdesc = F('fid', Int, Int), F('fname', Int, Str), F('ftype', Int, Str), F('fdesc', Int, Str)


class Ctx:
    pass


def lst(m, items):
    return m.alloc(HList([Items(items)]))


def run(m, n, at):
    return m.alloc(HList([Run(n, at)]))


def dct(m, **kw):
    return m.alloc(HDict([('w', K(k), v) for k, v in kw.items()]))


def pdct(m, items):
    return m.alloc(HDict([('w', k, v) for k, v in items]))


def mine(m):
    """everything built so far belongs to the caller: it must not change"""
    for o in m.heap.values():
        o.owner = 'input'


def sstr(name):
    return S(z3.Const(name, Str))


def entry(m, r, key):
    """value of a key of a mapping (forks), or None"""
    if isinstance(r, K) and isinstance(r.v, dict):
        return K(r.v[key]) if key in r.v else None
    if not (isinstance(r, Ref) and isinstance(m.heap[r.oid], HDict)):
        return None
    f = m.dict_find(m.heap[r.oid], K(key) if isinstance(key, str) else key)
    return None if f is None else f()


def is_map(m, r):
    return isinstance(r, K) and isinstance(r.v, dict) or isinstance(r, Ref) and isinstance(m.heap[r.oid], HDict)


def same(m, v, t):
    """goal: the value v equals t (a python value or a term)"""
    if v is None:
        return z3.BoolVal(False)
    if isinstance(t, Sym):
        return m.box(v) == t.t
    if isinstance(t, V):
        e = m.eq(v, t)
        return m.box(v) == m.box(t) if e is None else z3.BoolVal(e) if isinstance(e, bool) else e
    if isinstance(t, (bool, int, str, type(None))):
        t = m.box(K(t))
    elif t.sort() == Int:
        t = Val.VInt(t)
    elif t.sort() == Str:
        t = Val.VStr(t)
    return m.box(v) == t


def holds(m, r, key, t):
    """(label, goal): the entry key of the mapping r is t, or there is none if t is None"""
    v = entry(m, r, key)
    if t is None:
        return (f'there is no {key}', z3.BoolVal(v is None))
    return (f'{key} is as stated', same(m, v, t))


def returns(post):
    """the function returns, and post(m, c, value) holds of what it returns"""
    def p(m, o):
        if o.kind == 'raise':
            yield f'no exception is raised', z3.BoolVal(False)
            return
        for x in post(m, m.ctxobj, o.value):
            yield x
    return p
