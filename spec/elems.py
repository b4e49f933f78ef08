"""C04: Enumerated and Choice types (tagged)."""
from .codec import *


def ekey_(c, j):
    """key of item j in the serialized form of the mode"""
    return Val.VInt(c.fid(j)) if c.id else z3.If(VS, S_(fname(j)), Val.VInt(c.fid(j)))


def akey(c, j):
    """key of item j in the application"""
    return Val.VInt(c.fid(j)) if c.id else S_(fname(j))


def idx_e(c, k):
    byid = fidx(Val.iv(k))
    return byid if c.id else z3.If(VS, fnidx(Val.sv(k)), byid)


def idx_a(c, k):
    return fidx(Val.iv(k)) if c.id else fnidx(Val.sv(k))


def isid(c, k):
    j = fidx(Val.iv(k))
    return z3.And(th.is_int(k), rng(j), c.fid(j) == Val.iv(k))


def listed_e(c, k):
    return isid(c, k) if c.id else z3.If(VS, isfname(k), isid(c, k))


def listed_a(c, k):
    return isid(c, k) if c.id else isfname(k)


def opts(m, c):
    return [K('=')] if m.branch(z3.Bool('has_id')) else []


def enum(pid, op):
    listed = listed_a if op == 'enc' else listed_e

    def res(m, c, r):
        j = idx_a(c, c.v) if op == 'enc' else idx_e(c, c.v)
        return [('the result is the same item in the other form', m.box(r) == (ekey_(c, j) if op == 'enc' else akey(c, j)))]

    def run(P):
        P.contract(f'Enumerated {op}', lambda m: codec_body(m, 'Enumerated', op, opts), wanted(pid, lambda m, c: listed(c, c.v), res, always=True))
    run.ok, run.listed = (lambda m, c: listed(c, c.v)), listed
    return (f'Enumerated {op}', run)


def choice(pid, op):
    ok_, val_ = (encok, encV) if op == 'enc' else (decok, decV)

    def key(c):
        """the key of the entry, as a listed key: an integer key may be given by any value equal to it (decoding: by any
        value int() takes to it)"""
        k = th.dkey(vd(c), 0)
        if op == 'enc':
            return z3.BoolVal(True), th.knorm(k)
        if c.id:
            return th.intok(k), Val.VInt(th.vint(k))
        return z3.If(VS, z3.BoolVal(True), th.intok(k)), z3.If(VS, k, Val.VInt(th.vint(k)))

    def ok(m, c):
        good, k = key(c)
        listed, ix = (listed_a, idx_a) if op == 'enc' else (listed_e, idx_e)
        return z3.And(th.is_dct(c.v), th.dcard(vd(c)) == 1, good, listed(c, k), ok_(ftype(ix(c, k)), th.dval(vd(c), 0)))

    def res(m, c, r):
        good, k = key(c)
        j = (idx_a if op == 'enc' else idx_e)(c, k)
        b = m.box(r)
        d = Val.dv(b)
        nk = ekey_(c, j) if op == 'enc' else akey(c, j)
        return [('the result has one entry', z3.And(th.is_dct(b), th.dcard(d) == 1)),
                ('its key is that of the alternative in the other form', th.dkey(d, 0) == nk),
                ('its value is that of the component', z3.And(has(d, nk), get(d, nk) == val_(ftype(j), th.dval(vd(c), 0))))]

    def run(P):
        P.contract(f'Choice {op}', lambda m: codec_body(m, 'Choice', op, opts, tagged=False), wanted(pid, ok, res, always=True))
    run.ok, run.key = ok, key
    return (f'Choice {op}', run)


def parts(pid, tier):
    return [f(pid, op) for op in (('enc',) if pid == 'C07' else ('enc', 'dec')) for f in (enum, choice)]
