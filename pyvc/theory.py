"""First-order theory of Python values used by the verification conditions.

Sorts: Val (a Python value), Str, Byt (bytes), Lst (list/tuple contents), Dct (dict contents), Oth (any other object).
Integers are mathematical (as in Python), floats are reals or nan/+inf/-inf; no float arithmetic occurs in the code
under contract, only comparison, which is exact.
"""
import z3

Str = z3.DeclareSort('Str')
Byt = z3.DeclareSort('Byt')
Lst = z3.DeclareSort('Lst')
Dct = z3.DeclareSort('Dct')
Oth = z3.DeclareSort('Oth')
Int, Bool, Real = z3.IntSort(), z3.BoolSort(), z3.RealSort()

_V = z3.Datatype('Val')
_V.declare('VNone')
_V.declare('VBool', ('bv', Bool))
_V.declare('VInt', ('iv', Int))
_V.declare('VFlt', ('fk', Int), ('fr', Real))       # fk: 0 finite, 1 nan, 2 +inf, 3 -inf
_V.declare('VStr', ('sv', Str))
_V.declare('VByt', ('yv', Byt))
_V.declare('VLst', ('lv', Lst))
_V.declare('VTup', ('tv', Lst))
_V.declare('VDct', ('dv', Dct))
_V.declare('VSet', ('ev', Lst))
_V.declare('VOth', ('ov', Oth))
Val = _V.create()

F = z3.Function
slen = F('slen', Str, Int)
schar = F('schar', Str, Int, Str)
sdrop = F('sdrop', Str, Int, Str)
stake = F('stake', Str, Int, Str)
scat = F('scat', Str, Str, Str)
sord = F('sord', Str, Int)              # code point of a character
schr = F('schr', Int, Str)
fltok = F('fltok', Str, Bool)           # float(s) succeeds
fltk, fltr = F('fltk', Str, Int), F('fltr', Str, Real)
scode = F('scode', Str, Int)            # distinguishes literals
sint = F('sint', Int, Str)              # decimal text of an integer
sflt = F('sflt', Int, Real, Str)        # text of a float
sany = F('sany', Val, Str)              # str() of any other value
blen = F('blen', Byt, Int)
bcode = F('bcode', Byt, Int)
llen = F('llen', Lst, Int)
lat = F('lat', Lst, Int, Val)
dcard = F('dcard', Dct, Int)
dkey = F('dkey', Dct, Int, Val)
didx = F('didx', Dct, Val, Int)
dhas = F('dhas', Dct, Val, Bool)
dget = F('dget', Dct, Val, Val)
dval = F('dval', Dct, Int, Val)         # value of entry j
ocode = F('ocode', Oth, Int)
peq = F('peq', Val, Val, Bool)          # == of containers and other objects
hashable = F('hashable', Val, Bool)
intok = F('intok', Val, Bool)           # int(v) succeeds
vint = F('vint', Val, Int)             # what it returns
rematch = F('rematch', Str, Str, Bool)  # re.match(pattern, string) is not None

VNone = Val.VNone
is_none, is_bool, is_int, is_flt = Val.is_VNone, Val.is_VBool, Val.is_VInt, Val.is_VFlt
is_str, is_byt, is_lst, is_dct = Val.is_VStr, Val.is_VByt, Val.is_VLst, Val.is_VDct
is_tup, is_set, is_oth = Val.is_VTup, Val.is_VSet, Val.is_VOth


def knorm(v):
    """Dictionary keys True, 1 and 1.0 are the same key."""
    if z3.is_app(v) and v.decl().name() in ('VStr', 'VInt', 'VNone', 'VByt', 'VLst', 'VDct', 'VTup'):
        return v
    return z3.If(is_bool(v), Val.VInt(z3.If(Val.bv(v), z3.IntVal(1), z3.IntVal(0))),
                 z3.If(z3.And(is_flt(v), Val.fk(v) == 0, z3.IsInt(Val.fr(v))), Val.VInt(z3.ToInt(Val.fr(v))), v))


def num(v):
    return z3.If(is_bool(v), z3.If(Val.bv(v), z3.RealVal(1), z3.RealVal(0)),
                 z3.If(is_int(v), z3.ToReal(Val.iv(v)), Val.fr(v)))


_lits = {}
_blits = {}
_names = {}
_axioms_cache = [None, 0]


def strlit(s):
    t = _lits.get(s)
    if t is None:
        t = z3.Const(f'str!{len(_lits)}_' + ''.join(c if c.isalnum() and c.isascii() else '_' for c in s[:24]), Str)
        _lits[s] = t
        _names[t.decl().name()] = s
    return t


def bytlit(b):
    t = _blits.get(b)
    if t is None:
        t = z3.Const(f'byt!{len(_blits)}', Byt)
        _blits[b] = t
    return t


def lit_of(t):
    """python literal of a Str term made by strlit, or None"""
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('str!'):
        return _names.get(t.decl().name())
    return None


def ground_axioms():
    """Facts on the literals that occur so far: distinct codes, lengths, characters of short literals."""
    while True:
        n0 = len(_lits)
        if _axioms_cache[0] is not None and _axioms_cache[1] == n0 + len(_blits):
            return _axioms_cache[0]
        out = []
        for n, (s, t) in enumerate(list(_lits.items())):
            out += [scode(t) == n + 1, slen(t) == len(s)]
            if 0 < len(s) <= 3:
                out += [schar(t, i) == strlit(c) for i, c in enumerate(s)]
            if len(s) == 1:
                out += [sord(t) == ord(s), schr(ord(s)) == t]
        for n, (b, t) in enumerate(list(_blits.items())):
            out += [bcode(t) == n + 1, blen(t) == len(b)]
        if len(_lits) == n0:
            _axioms_cache[:] = [out, n0 + len(_blits)]


def _q(vs, body, *pats):
    return z3.ForAll(vs, body, patterns=list(pats))


def axioms():
    """Quantified axioms of the theory (the trusted theory of Python values)."""
    s, u = z3.Consts('s u', Str)
    b = z3.Const('b', Byt)
    l = z3.Const('l', Lst)
    d = z3.Const('d', Dct)
    k, v = z3.Consts('k v', Val)
    i, j = z3.Ints('i j')
    return [
        _q([s], slen(s) >= 0, slen(s)),
        _q([b], blen(b) >= 0, blen(b)),
        _q([l], llen(l) >= 0, llen(l)),
        _q([d], dcard(d) >= 0, dcard(d)),
        _q([d, j], z3.Implies(z3.And(0 <= j, j < dcard(d)),
                              z3.And(dhas(d, knorm(dkey(d, j))), didx(d, knorm(dkey(d, j))) == j, hashable(dkey(d, j)))), dkey(d, j)),
        _q([d, j], z3.Implies(z3.And(0 <= j, j < dcard(d)), dget(d, knorm(dkey(d, j))) == dval(d, j)), dkey(d, j)),
        _q([d, j], z3.Implies(z3.And(0 <= j, j < dcard(d)), dget(d, knorm(dkey(d, j))) == dval(d, j)), dval(d, j)),
        _q([d, k], z3.Implies(dhas(d, k), dval(d, didx(d, k)) == dget(d, k)), dhas(d, k)),
        _q([d, k], z3.Implies(dhas(d, k), z3.And(0 <= didx(d, k), didx(d, k) < dcard(d), knorm(dkey(d, didx(d, k))) == k)), dhas(d, k)),
        _q([s], hashable(Val.VStr(s)), hashable(Val.VStr(s))),
        _q([i], hashable(Val.VInt(i)), hashable(Val.VInt(i))),
        _q([v], z3.Implies(z3.Or(is_none(v), is_bool(v), is_int(v), is_flt(v), is_str(v), is_byt(v)), hashable(v)), hashable(v)),
        _q([v], z3.Implies(z3.Or(is_lst(v), is_dct(v), is_set(v)), z3.Not(hashable(v))), hashable(v)),
        _q([v], z3.Implies(intok(v), z3.Or(is_bool(v), is_int(v), is_flt(v), is_str(v), is_byt(v))), intok(v)),
        _q([v], peq(v, v), peq(v, v)),
        _q([i], z3.And(slen(sint(i)) >= 1, z3.Not(scode(schar(sint(i), 0)) == scode(strlit('$')))), sint(i)),
    ]
