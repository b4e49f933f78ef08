"""Semantics of Python operations, builtins and library functions on symbolic values."""
import ast
import dataclasses
import inspect
import numbers
import operator
import re as _re
import types

import z3

from . import theory as th
from .theory import Val
from .values import *
from .loops import disj

KINDS = [('none', th.is_none, type(None)), ('bool', th.is_bool, bool), ('int', th.is_int, int), ('float', th.is_flt, float),
         ('str', th.is_str, str), ('bytes', th.is_byt, bytes), ('list', th.is_lst, list), ('dict', th.is_dct, dict),
         ('tuple', th.is_tup, tuple), ('set', th.is_set, set)]
PYT = {k: t for k, _, t in KINDS}
NUM = ('bool', 'int', 'float')
_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_,
        ast.BitAnd: operator.and_, ast.BitXor: operator.xor}
_CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
_sparse = th.F('sparse', th.Str, th.Int)
_isnum = th.F('isnum', th.Str, th.Bool)
_bparse = th.F('bparse', th.Byt, th.Int)
_bisnum = th.F('bisnum', th.Byt, th.Bool)
_scontains = th.F('scontains', th.Str, th.Str, th.Bool)
_sstarts = th.F('sstarts', th.Str, th.Str, th.Bool)
_sends = th.F('sends', th.Str, th.Str, th.Bool)
_sfunc = {}


def sfunc(name, n=1):
    if (name, n) not in _sfunc:
        _sfunc[name, n] = th.F('s_' + name, *[th.Str] * n, th.Str)
    return _sfunc[name, n]


def simp(t):
    return z3.simplify(t) if z3.is_expr(t) else t


def is_lit(v):
    return isinstance(v, K)


def decls(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x.decl())
        todo += x.children()
    return out


def is_pattern(t, var):
    todo, found = [t], False
    while todo:
        x = todo.pop()
        found = found or x.eq(var)
        if not z3.is_app(x) or x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ANUM, z3.Z3_OP_DT_CONSTRUCTOR):
            return False
        todo += x.children()
    return found


def new_name(d, nid):
    n = d.name().rsplit('!', 1)[-1]
    return n.isdigit() and not d.name().startswith(('str!', 'byt!')) and int(n) >= nid


class ModelMixin:
    absent = None       # (comprehension, key term) -> True if the contract's precondition excludes the key

    def init_models(self):
        pass

    # ------------------------------------------------------------------ kinds
    def kind(self, v):
        if isinstance(v, K):
            x = v.v
            for k, _, t in KINDS:
                if type(x) is t:
                    return k
            if isinstance(x, frozenset):
                return 'set'
            if isinstance(x, dict):
                return 'dict'
            return 'obj'
        if isinstance(v, I):
            return 'int'
        if isinstance(v, B):
            return 'bool'
        if isinstance(v, S):
            return 'str'
        if isinstance(v, Y):
            return 'bytes'
        if isinstance(v, Fl):
            return 'float'
        if isinstance(v, T):
            return 'tuple'
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            return {HList: 'list', HDict: 'dict', HSet: 'set', HInst: 'inst', HIter: 'iter'}[type(o)]
        if isinstance(v, Sym):
            for k, rec, _ in KINDS[:-1]:
                if self.branch(rec(v.t)):
                    return k
            self.assume(th.is_set(v.t))
            return 'set'
        if isinstance(v, SeqV):
            return 'view'
        if isinstance(v, Gen):
            return 'gen'
        return 'func'

    def conc(self, v):
        """Scalars of unknown kind are split by kind; containers stay symbolic."""
        if not isinstance(v, Sym):
            return v
        k = self.kind(v)
        t = v.t
        if k == 'none':
            return K(None)
        if k == 'bool':
            return B(simp(Val.bv(t)))
        if k == 'int':
            return I(simp(Val.iv(t)))
        if k == 'float':
            return Fl(simp(Val.fk(t)), simp(Val.fr(t)))
        if k == 'str':
            return S(simp(Val.sv(t)))
        if k == 'bytes':
            return Y(simp(Val.yv(t)))
        return v

    def is_instance(self, v, cls):
        if isinstance(cls, tuple):
            r = [self.is_instance(v, c) for c in cls]
            if any(x is True for x in r):
                return True
            r = [x for x in r if x is not False]
            return False if not r else (r[0] if len(r) == 1 else z3.Or(*r))
        if cls in (None,) or not isinstance(cls, type):
            try:
                isinstance(0, cls)
            except TypeError:
                raise PyRaise(TypeError, note='isinstance')
        if isinstance(v, K):
            return isinstance(v.v, cls)
        if isinstance(v, Sym):
            ks = [rec(v.t) for k, rec, t in KINDS if issubclass(t, cls)]
            return z3.Or(*ks) if ks else False
        k = self.kind(v)
        if k == 'inst':
            return issubclass(self.heap[v.oid].cls, cls)
        if k in PYT:
            return issubclass(PYT[k], cls)
        return cls is object

    # ------------------------------------------------------------------ truth and comparison
    def truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, B):
            return self.branch(v.t)
        if isinstance(v, I):
            return self.branch(v.t != 0)
        if isinstance(v, S):
            if v.parts and any(isinstance(p, K) and p.v for p in v.parts):
                return True
            return self.branch(th.slen(self.strterm(v)) > 0)
        if isinstance(v, Y):
            return self.branch(th.blen(v.t) > 0)
        if isinstance(v, Fl):
            return self.branch(z3.Not(z3.And(v.k == 0, v.r == 0)))
        if isinstance(v, T):
            return bool(v.items)
        if isinstance(v, Sym):
            k = self.kind(v)
            if k in ('list', 'dict', 'tuple'):
                return self.truth(self.length(v))
            if k == 'set':
                return self.branch(th.llen(Val.ev(v.t)) > 0)
            return self.truth(self.conc(v))
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if isinstance(o, HSet):
                return self.set_nonempty(o)
            if isinstance(o, HInst):
                f = getattr(o.cls, '__len__', None)
                if f is not None:
                    return self.truth(self.call(K(f), [v]))
                return True
            if isinstance(o, HIter):
                return True
            if isinstance(o, HDict):
                if any(l[0] == 'w' for l in o.layers) and not any(l[0] == 'del' for l in o.layers):
                    return True
                for l in o.layers:
                    if l[0] == 'comp' and l[1].guard is not None:
                        return self.comp_nonempty(l[1])
            return self.truth(self.length(v))
        if isinstance(v, SeqV):
            return self.truth(self.mkint(v.n))
        return True

    def mkint(self, n):
        n = simp(n)
        if isinstance(n, int):
            return K(n)
        return K(n.as_long()) if z3.is_int_value(n) else I(n)

    def mkbool(self, c):
        if isinstance(c, bool):
            return K(c)
        c = simp(c) if not self.has_quant(c) else c
        return K(True) if z3.is_true(c) else K(False) if z3.is_false(c) else B(c)

    def flt(self, v):
        """(kind, real) of a number"""
        if isinstance(v, Fl):
            return v.k, v.r
        if isinstance(v, K) and isinstance(v.v, float):
            return self.float_parts(v.v)
        return z3.IntVal(0), z3.ToReal(self.intterm(v))

    def eq(self, a, b):
        """bool or formula"""
        if a is b:
            return True if not isinstance(a, (Fl, Sym)) else (simp(z3.Or(z3.Not(th.is_flt(a.t)), Val.fk(a.t) != 1)) if isinstance(a, Sym) else a.k != 1)
        if isinstance(a, K) and isinstance(b, K):
            return bool(a.v == b.v)
        if isinstance(a, K) and not isinstance(b, K):
            a, b = b, a
        if isinstance(a, Sym) and isinstance(b, Sym):
            x, y = a.t, b.t
            nm = lambda t: z3.Or(th.is_bool(t), th.is_int(t), th.is_flt(t))
            con = lambda t: z3.Or(th.is_lst(t), th.is_dct(t), th.is_tup(t), th.is_set(t), th.is_oth(t))
            fin = lambda t: z3.Implies(th.is_flt(t), Val.fk(t) == 0)
            numeq = z3.If(z3.And(fin(x), fin(y)), th.num(x) == th.num(y), z3.And(th.is_flt(x), th.is_flt(y), Val.fk(x) == Val.fk(y), Val.fk(x) >= 2))
            return z3.If(z3.And(nm(x), nm(y)), numeq, z3.If(z3.And(con(x), con(y)), th.peq(x, y), x == y))
        if isinstance(b, Sym):
            a, b = b, a
        if isinstance(a, Sym):
            t = a.t
            k = self.kind(b)
            if k == 'none':
                return th.is_none(t)
            if k == 'str':
                return z3.And(th.is_str(t), Val.sv(t) == self.strterm(b))
            if k == 'bytes':
                return z3.And(th.is_byt(t), Val.yv(t) == (b.t if isinstance(b, Y) else th.bytlit(b.v)))
            if k in NUM:
                if k != 'float':
                    return th.knorm(t) == Val.VInt(self.intterm(b))
                fk, fr = self.flt(b)
                return z3.Or(z3.And(z3.Or(th.is_bool(t), th.is_int(t)), fk == 0, th.num(t) == fr),
                             z3.And(th.is_flt(t), Val.fk(t) == fk, fk != 1, z3.Or(fk >= 2, Val.fr(t) == fr)))
            if k in ('obj', 'inst', 'func', 'iter'):
                return False
            rec = {'list': th.is_lst, 'dict': th.is_dct, 'tuple': th.is_tup, 'set': th.is_set}[k]
            if not self.branch(rec(t)):
                return False
            if k == 'list' and self.is_empty_list(b):
                return th.llen(Val.lv(t)) == 0
            return th.peq(t, self.box(b))
        ka, kb = self.kind(a), self.kind(b)
        if ka in NUM and kb in NUM:
            if 'float' not in (ka, kb):
                if ka == kb == 'bool':
                    return self.boolterm(a) == self.boolterm(b)
                return self.intterm(a) == self.intterm(b)
            (k1, r1), (k2, r2) = self.flt(a), self.flt(b)
            return z3.And(k1 == k2, k1 != 1, z3.Or(k1 >= 2, r1 == r2))
        if ka != kb:
            if {ka, kb} <= {'list', 'view'} or 'inst' in (ka, kb) and {ka, kb} & {'obj', 'none'} == set() and ka == kb:
                raise Unsupported('comparison')
            return False
        if ka == 'str':
            return self.str_eq(a, b)
        if ka == 'bytes':
            tb = lambda v: v.t if isinstance(v, Y) else th.bytlit(v.v)
            return tb(a) == tb(b)
        if ka == 'tuple':
            xs, ys = self.concrete_items(a), self.concrete_items(b)
            return self.eq_seq(xs, ys)
        if ka == 'list':
            return self.list_eq(a, b)
        if ka == 'set':
            return self.set_eq(a, b)
        if ka == 'dict':
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = self.heap[a.oid], self.heap[b.oid]
                if not oa.layers or not ob.layers:
                    o = ob if not oa.layers else oa
                    r = a if o is oa else b
                    return z3.Not(self.boolterm(self.mkbool(self.truth(r)))) if False else (not self.truth(r))
            return th.peq(self.box(a), self.box(b))
        if ka in ('func', 'obj'):
            return a is b
        if ka == 'inst':
            if a.oid == b.oid:
                return True
            raise Unsupported('comparison of objects')
        raise Unsupported(f'comparison of {ka}')

    def is_empty_list(self, v):
        return isinstance(v, Ref) and all(isinstance(s, Items) and not s.vs for s in self.heap[v.oid].segs) or isinstance(v, K) and v.v == []

    def eq_seq(self, xs, ys):
        if len(xs) != len(ys):
            return False
        cs = []
        for x, y in zip(xs, ys):
            c = self.eq(x, y)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return True if not cs else z3.And(*cs)

    def list_eq(self, a, b):
        def items(v):
            if isinstance(v, K):
                return [K(x) for x in v.v]
            segs = self.heap[v.oid].segs
            if all(isinstance(s, Items) for s in segs):
                return [x for s in segs for x in s.vs]
            return None
        xs, ys = items(a), items(b)
        if xs is not None and ys is not None:
            return self.eq_seq(xs, ys)
        if xs == [] or ys == []:
            return self.intterm(self.length(a if ys == [] else b)) == 0
        return th.peq(self.box(a), self.box(b))

    def boolterm(self, v):
        return z3.BoolVal(v.v) if isinstance(v, K) else v.t

    def str_eq(self, a, b):
        if isinstance(a, K):
            a, b = b, a
        if isinstance(a, S) and a.parts and isinstance(b, K):
            p = a.parts[0]
            if isinstance(p, K):
                if not b.v.startswith(p.v):
                    return False
                rest = a.parts[1:]
                if not rest:
                    return p.v == b.v
                return self.str_eq(self.concat(rest), K(b.v[len(p.v):])) if not (isinstance(r := self.concat(rest), K)) else r.v == b.v[len(p.v):]
        if isinstance(a, S) and isinstance(b, S) and a.parts and b.parts and isinstance(a.parts[0], K) and isinstance(b.parts[0], K):
            x, y = a.parts[0].v, b.parts[0].v
            if x == y and len(a.parts) == len(b.parts) == 2:
                return self.str_eq(a.parts[1], b.parts[1])
            if len(x) == len(y) and x != y:
                return False
        return self.strterm(a) == self.strterm(b)

    def compare(self, op, l, r):
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.identical(l, r)
            return self.mkbool(c if isinstance(op, ast.Is) else (not c if isinstance(c, bool) else z3.Not(c)))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.eq(l, r)
            return self.mkbool(c if isinstance(op, ast.Eq) else (not c if isinstance(c, bool) else z3.Not(c)))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(r, l)
            return self.mkbool(c if isinstance(op, ast.In) else (not c if isinstance(c, bool) else z3.Not(c)))
        l, r = self.conc(l), self.conc(r)
        if isinstance(l, K) and isinstance(r, K):
            return self.native(_CMP[type(op)], l.v, r.v)
        kl, kr = self.kind(l), self.kind(r)
        if kl in NUM and kr in NUM:
            if 'float' not in (kl, kr):
                return self.mkbool(_CMP[type(op)](self.intterm(l), self.intterm(r)))
            (k1, r1), (k2, r2) = self.flt(l), self.flt(r)
            lt = lambda k1, r1, k2, r2: z3.And(k1 != 1, k2 != 1, z3.Or(z3.And(k1 == 3, k2 != 3), z3.And(k2 == 2, k1 != 2), z3.And(k1 == 0, k2 == 0, r1 < r2)))
            le = lambda k1, r1, k2, r2: z3.And(k1 != 1, k2 != 1, z3.Or(k1 == 3, k2 == 2, z3.And(k1 == 0, k2 == 0, r1 <= r2)))
            c = {ast.Lt: lambda: lt(k1, r1, k2, r2), ast.LtE: lambda: le(k1, r1, k2, r2),
                 ast.Gt: lambda: lt(k2, r2, k1, r1), ast.GtE: lambda: le(k2, r2, k1, r1)}[type(op)]()
            return self.mkbool(c)
        if kl == kr == 'set':
            raise Unsupported('set order')
        if kl == kr and kl in ('str', 'bytes', 'list', 'tuple'):
            raise Unsupported(f'order of {kl}')
        raise PyRaise(TypeError, note=f'{kl} < {kr}')

    def identical(self, l, r):
        for a, b in ((l, r), (r, l)):
            if isinstance(b, K) and (b.v is None or isinstance(b.v, bool)):
                if isinstance(a, K):
                    return a.v is b.v
                if isinstance(a, Sym):
                    return th.is_none(a.t) if b.v is None else z3.And(th.is_bool(a.t), Val.bv(a.t) == b.v)
                if isinstance(a, B) and b.v is not None:
                    return a.t == b.v
                return False
        if isinstance(l, K) and isinstance(r, K):
            return l.v is r.v
        if isinstance(l, Ref) and isinstance(r, Ref):
            if self.heap[l.oid].owner == 'elem' or self.heap[r.oid].owner == 'elem':
                raise Unsupported('identity of list elements')
            return l.oid == r.oid
        if isinstance(l, Ref) != isinstance(r, Ref) and not isinstance(l, Sym) and not isinstance(r, Sym):
            return False
        raise Unsupported('is')

    def contains(self, cont, x):
        if isinstance(cont, Sym):
            k = self.kind(cont)
            if k == 'dict':
                return self.dict_has(cont, x)
            if k in ('list', 'tuple'):
                l = Val.lv(cont.t) if k == 'list' else Val.tv(cont.t)
                return self.seq_contains(SeqV(th.llen(l), lambda j: Sym(th.lat(l, j))), x)
            if k == 'str':
                cont = self.conc(cont)
            else:
                if k in ('none',) + NUM:
                    raise PyRaise(TypeError, note=f'in {k}')
                raise Unsupported(f'in {k}')
        if isinstance(cont, K):
            if isinstance(cont.v, str):
                if isinstance(x, K):
                    return self.native(operator.contains, cont.v, x.v).v
                return self.substr(cont, x)
            if isinstance(x, K):
                return self.native(operator.contains, cont.v, x.v).v
            if isinstance(cont.v, (dict, set, frozenset)):
                self.need_hashable(x)
            try:
                items = list(cont.v)
            except TypeError:
                raise PyRaise(TypeError, note='not iterable')
            return self.any_eq(x, [K(y) for y in items])
        if isinstance(cont, S):
            return self.substr(cont, x)
        if isinstance(cont, T):
            return self.any_eq(x, cont.items)
        if isinstance(cont, Ref):
            o = self.heap[cont.oid]
            if isinstance(o, HDict):
                return self.dict_has(cont, x)
            if isinstance(o, HSet):
                self.need_hashable(x)
                return self.set_has(o, x)
            if isinstance(o, HList):
                for s in o.segs:
                    if isinstance(s, Items):
                        c = self.any_eq(x, s.vs)
                        if self.truth(self.mkbool(c)):
                            return True
                    elif s.src is not None:
                        if self.filtered_contains(*s.src, x):
                            return True
                    elif self.seq_contains(SeqV(s.n, s.at), x):
                        return True
                return False
            if isinstance(o, HInst):
                f = getattr(o.cls, '__contains__', None)
                if f is not None:
                    return self.truth(self.call(K(f), [cont, x]))
        if isinstance(cont, SeqV):
            return self.seq_contains(cont, x)
        raise Unsupported(f'in {cont}')

    def any_eq(self, x, items):
        cs = []
        for y in items:
            c = self.eq(x, y)
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return False if not cs else (cs[0] if len(cs) == 1 else z3.Or(*cs))

    def substr(self, cont, x):
        x = self.conc(x)
        if self.kind(x) != 'str':
            raise PyRaise(TypeError, note='in str')
        if isinstance(cont, S) and cont.parts and isinstance(x, K):
            if any(isinstance(p, K) and x.v in p.v for p in cont.parts):
                return True
        return _scontains(self.strterm(cont), self.strterm(x))

    def seq_contains(self, seq, x):
        """membership in a sequence of unknown length (forks)"""
        from .interp import is_concrete_int, as_int
        if is_concrete_int(seq.n):
            return self.truth(self.mkbool(self.any_eq(x, [seq.at(j) for j in range(as_int(seq.n))])))
        b = self.fresh('in', th.Bool)
        if self.branch(b):
            j = self.fresh('ix', th.Int)
            self.assume(z3.And(0 <= j, j < seq.n))
            if not self.truth(self.mkbool(self.eq(seq.at(j), x))):
                raise PathDead()
            return True
        self.forall(seq.n, lambda j: self.deny(self.eq(seq.at(j), x)))
        return False

    def filtered_contains(self, m, guard, elem, x):
        """x is elem(j) for a j in [0, m) with guard(j) (forks)"""
        b = self.fresh('in', th.Bool)
        if self.branch(b):
            j = self.fresh('ix', th.Int)
            self.assume(z3.And(0 <= j, j < m, guard(j)))
            if not self.truth(self.mkbool(self.eq(elem(j), x))):
                raise PathDead()
            return True

        def no(j):
            if self.branch(guard(j)):
                self.deny(self.eq(elem(j), x))
        self.forall(m, no)
        return False

    def deny(self, c):
        if self.truth(self.mkbool(c)):
            raise PathDead()

    def forall(self, n, fn, lo=0):
        """assume: for every j in [lo, n) some path of fn(j) is taken"""
        j = z3.Int(f'q!{self.new_id()}')
        self.idx.append(j)
        try:
            def one():
                self.assume(z3.And(lo <= j, j < n))
                fn(j)
            outs = self.query(one)
        finally:
            self.idx.pop()
        if any(o.kind != 'normal' for o in outs):
            raise Unsupported('exception inside a quantified condition')
        if not outs:
            self.assume(n <= lo)
            return
        rng = {self.simp_id(lo <= j), self.simp_id(j < n)}
        body = disj([[f for f in o.facts if f.get_id() not in rng] for o in outs])
        if not z3.is_true(z3.simplify(body)):
            self.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < n), body)))

    # ------------------------------------------------------------------ strings
    def concat(self, parts):
        out = []
        for p in parts:
            for q in (p.parts if isinstance(p, S) and p.parts else [p]):
                if out and isinstance(out[-1], K) and isinstance(q, K):
                    out[-1] = K(out[-1].v + q.v)
                elif not (isinstance(q, K) and q.v == ''):
                    out.append(q)
        if not out:
            return K('')
        if len(out) == 1:
            return out[0]
        return S(None, out)

    def to_str(self, v, repr_=False):
        if isinstance(v, Sym):
            # only the text of messages: any string
            return S(th.sany(v.t)) if not repr_ else S(self.fresh('repr', th.Str))
        if isinstance(v, K) and not callable(v.v):
            return self.native(repr if repr_ else str, v.v)
        if not repr_:
            if isinstance(v, S):
                return v
            if isinstance(v, I):
                return S(th.sint(v.t))
            if isinstance(v, Fl):
                return S(th.sflt(v.k, v.r))
            if isinstance(v, Ref) and isinstance(self.heap[v.oid], HInst):
                o = self.heap[v.oid]
                if issubclass(o.cls, BaseException):
                    return S(self.fresh('msg', th.Str))
        return S(self.fresh('text', th.Str))

    def binop(self, op, a, b):
        a, b = self.conc(a), self.conc(b)
        if isinstance(a, K) and isinstance(b, K) and not isinstance(a.v, (list, dict, set)) and not isinstance(b.v, (list, dict, set)):
            return self.native(_OPS[type(op)], a.v, b.v)
        ka, kb = self.kind(a), self.kind(b)
        if ka == kb == 'str' and isinstance(op, ast.Add):
            return self.concat([a, b])
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            x, y = self.intterm(a), self.intterm(b)
            if isinstance(op, ast.Add):
                return self.mkint(x + y)
            if isinstance(op, ast.Sub):
                return self.mkint(x - y)
            if isinstance(op, ast.Mult):
                return self.mkint(x * y)
            if isinstance(op, ast.Mod) and isinstance(b, K) and b.v > 0:
                return self.mkint(x % y)
            if isinstance(op, ast.FloorDiv) and isinstance(b, K) and b.v > 0:
                return self.mkint(x / y)
            raise Unsupported('integer operation')
        if ka == kb == 'set':
            if isinstance(op, ast.Sub):
                return self.set_minus(a, b)
            if isinstance(op, ast.BitOr):
                r = self.alloc(self.hset(a).copy())
                self.heap[r.oid].owner = None
                self.set_update(r, b)
                return r
            if isinstance(op, ast.BitAnd):
                oa, ob = self.hset(a), self.hset(b)
                if all(p[0] == 'items' for p in oa.parts) and not oa.minus:
                    xs = [x for p in oa.parts for x in p[1] if self.truth(self.mkbool(self.set_has(ob, x)))]
                    return self.alloc(HSet([('items', xs)]))
            raise Unsupported('set operation')
        if ka == kb == 'list' and isinstance(op, ast.Add):
            r = self.alloc(HList())
            self.list_extend(r, a)
            self.list_extend(r, b)
            return r
        if ka == 'list' and kb == 'int' and isinstance(op, ast.Mult):
            raise Unsupported('list repetition')
        if ka == kb == 'tuple' and isinstance(op, ast.Add):
            return T(self.concrete_items(a) + self.concrete_items(b))
        if isinstance(op, ast.Add) and {ka, kb} & {'none', 'dict'} or isinstance(op, ast.Add) and 'str' in (ka, kb):
            raise PyRaise(TypeError, note=f'{ka} + {kb}')
        if ka == 'dict' and kb == 'dict' and isinstance(op, ast.BitOr):
            r = self.alloc(HDict())
            self.dict_update(r, a)
            self.dict_update(r, b)
            return r
        raise Unsupported(f'{ka} {type(op).__name__} {kb}')

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Ref):
            h = self.heap[o.oid]
            if isinstance(h, HInst):
                if name in h.attrs:
                    v = h.attrs[name]
                    v = self.real(v)
                    from .loops import Carried
                    if isinstance(v, Carried):
                        v = self.read_carried(v)
                    return v
                if hasattr(h.cls, name):
                    raw = inspect.getattr_static(h.cls, name)
                    v = getattr(h.cls, name)
                    if isinstance(raw, staticmethod):
                        return K(v)
                    if isinstance(raw, property):
                        return self.call(K(raw.fget), [o])
                    if isinstance(raw, classmethod):
                        return K(v)
                    if isinstance(v, types.FunctionType):
                        return BM(o, name, K(v))
                    if name == '__class__':
                        return K(h.cls)
                    return K(v)
                if name == '__dict__':
                    raise Unsupported('__dict__')
                raise PyRaise(AttributeError, note=name)
        if isinstance(o, K):
            if isinstance(o.v, (str, bytes, list, dict, set, frozenset, tuple, int, float)) and not isinstance(o.v, bool) or isinstance(o.v, _re.Pattern):
                if not hasattr(o.v, name):
                    raise PyRaise(AttributeError, note=name)
                return BM(o, name)
            try:
                return K(getattr(o.v, name))
            except AttributeError:
                raise PyRaise(AttributeError, note=name)
        if isinstance(o, Sym):
            k = self.kind(o)
            if not hasattr(PYT[k], name):
                raise PyRaise(AttributeError, note=f'{k}.{name}')
            return BM(self.conc(o), name)
        k = self.kind(o)
        if k in PYT:
            if not hasattr(PYT[k], name):
                raise PyRaise(AttributeError, note=f'{k}.{name}')
        return BM(o, name)

    def own(self, ref):
        o = self.heap[ref.oid]
        if o.owner == 'input':
            from .interp import FrameViolation
            raise FrameViolation('modifies an object of the caller')
        if o.owner == 'elem':
            raise Unsupported('modifies an element of a list built by a loop')
        return o

    def setattr(self, o, name, v):
        if isinstance(o, Ref) and isinstance(self.heap[o.oid], HInst):
            h = self.own(o)
            h.attrs[name] = v
            self.wlog.add(('attr', o.oid, name))
            return
        if isinstance(o, Sym):
            raise PyRaise(AttributeError, note='setattr')
        if isinstance(o, K):
            from .interp import FrameViolation
            raise FrameViolation(f'sets attribute {name} of {o}')
        raise Unsupported('setattr')

    # ------------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(k, tuple):
            return self.getslice(o, k)
        if isinstance(k, K) and isinstance(k.v, slice):
            return self.getslice(o, ('slice', K(k.v.start), K(k.v.stop), K(k.v.step)))
        if isinstance(o, K):
            if not hasattr(o.v, '__getitem__') and not hasattr(o.v, '__class_getitem__'):
                raise PyRaise(TypeError, note='not subscriptable')
            if isinstance(k, K):
                return self.wrap(self.native(operator.getitem, o.v, k.v).v)
            if isinstance(o.v, dict):
                self.need_hashable(k)
                if len(o.v) > 4 and all(type(v) is int for v in o.v.values()):
                    eqs = [(self.eq(k, K(key)), v) for key, v in o.v.items()]
                    if all(z3.is_expr(e) for e, _ in eqs):      # one case, not one for each key
                        if not self.branch(z3.Or(*[e for e, _ in eqs])):
                            raise PyRaise(KeyError, note='key')
                        r = z3.IntVal(eqs[-1][1])
                        for e, v in eqs[-2::-1]:
                            r = z3.If(e, z3.IntVal(v), r)
                        return I(r)
                for key in o.v:
                    if self.truth(self.mkbool(self.eq(k, K(key)))):
                        return self.wrap(o.v[key])
                raise PyRaise(KeyError, note='key')
            if isinstance(o.v, (list, tuple, str)):
                k = self.conc(k)
                if self.kind(k) not in ('int', 'bool'):
                    raise PyRaise(TypeError, note='index')
                for j in range(-len(o.v), len(o.v)):
                    if self.truth(self.mkbool(self.intterm(k) == j)):
                        return self.wrap(o.v[j])
                raise PyRaise(IndexError, note='index')
            raise Unsupported('subscript')
        if isinstance(o, Sym):
            kd = self.kind(o)
            if kd == 'dict':
                return self.dict_get(o, k)
            if kd in ('list', 'tuple'):
                l = Val.lv(o.t) if kd == 'list' else Val.tv(o.t)
                return self.seq_index(th.llen(l), lambda j: Sym(th.lat(l, j)), k)
            if kd == 'str':
                return self.getitem(self.conc(o), k)
            if kd == 'bytes':
                raise Unsupported(f'bytes index {o} {k}')
            raise PyRaise(TypeError, note=f'{kd} not subscriptable')
        if isinstance(o, T):
            return self.seq_index(len(o.items), lambda j: o.items[j], k, o.items)
        if isinstance(o, S):
            k = self.conc(k)
            if isinstance(k, K) and k.v == 0 and o.parts and isinstance(o.parts[0], K):
                return K(o.parts[0].v[0])
            if isinstance(k, K) and isinstance(k.v, int) and k.v > 0 and o.parts and isinstance(o.parts[0], K):
                p = o.parts[0].v
                if k.v < len(p):
                    return K(p[k.v])
                return self.getitem(self.concat(o.parts[1:]), K(k.v - len(p)))
            if self.kind(k) not in ('int', 'bool'):
                raise PyRaise(TypeError, note='string index')
            t, j = self.strterm(o), self.intterm(k)
            n = th.slen(t)
            if not self.branch(z3.And(j < n, j >= -n)):
                raise PyRaise(IndexError, note='string index')
            return S(th.schar(t, simp(j if self.implied(j >= 0) else z3.If(j >= 0, j, j + n))))
        if isinstance(o, Ref):
            h = self.heap[o.oid]
            if isinstance(h, HDict):
                return self.dict_get(o, k)
            if isinstance(h, HList):
                return self.seq_index(self.list_len(h), lambda j: self.list_at(h, j), k)
            if isinstance(h, HInst):
                f = getattr(h.cls, '__getitem__', None)
                if f is not None:
                    return self.call(K(f), [o, k])
            raise PyRaise(TypeError, note='not subscriptable')
        if isinstance(o, Y):
            raise Unsupported(f'bytes index {o} {k}')
        raise PyRaise(TypeError, note='not subscriptable')

    def seq_index(self, n, at, k, items=None):
        k = self.conc(k)
        if self.kind(k) not in ('int', 'bool'):
            raise PyRaise(TypeError, note='index type')
        j = self.intterm(k)
        if not self.branch(simp(z3.And(j < n, j >= -n))):
            raise PyRaise(IndexError, note='index')
        if items is not None:
            if isinstance(k, K):
                return items[k.v]
            for q in range(len(items)):
                if self.branch(z3.Or(j == q, j == q - len(items))):
                    return items[q]
            raise PathDead()
        if isinstance(k, K):
            return at(simp(j) if k.v >= 0 else simp(n + j))
        if self.branch(j >= 0):
            return at(j)
        return at(simp(j + n))

    def getslice(self, o, sl):
        _, a, b, c = sl
        if isinstance(o, K) and all(isinstance(x, K) for x in (a, b, c)):
            return self.wrap(self.native(operator.getitem, o.v, slice(a.v, b.v, c.v)).v)
        if not (isinstance(c, K) and c.v in (None, 1)):
            raise Unsupported('slice step')
        if isinstance(o, K) and isinstance(o.v, str):
            o = S(th.strlit(o.v))
        if isinstance(o, Ref) and isinstance(self.heap[o.oid], HInst):
            f = getattr(self.heap[o.oid].cls, '__getitem__', None)
            return self.call(K(f), [o, K(slice(a.v, b.v, c.v))])
        k = self.kind(o)
        if k == 'str':
            o = self.conc(o)
            if isinstance(b, K) and b.v is None and isinstance(a, K):
                if a.v in (None, 0):
                    return o
                if isinstance(o, S) and o.parts and isinstance(o.parts[0], K) and 0 < a.v <= len(o.parts[0].v):
                    return self.concat([K(o.parts[0].v[a.v:])] + list(o.parts[1:]))
            t = self.strterm(o)
            n = th.slen(t)
            lo = self.clip(a, 0, n)
            hi = self.clip(b, n, n)
            r = S(self.fresh('sub', th.Str)) if not (isinstance(b, K) and b.v is None) else S(th.sdrop(t, lo))
            if isinstance(a, K) and a.v in (None, 0):
                r = S(th.stake(t, hi))
            self.assume(th.slen(r.t) == z3.If(hi >= lo, hi - lo, 0))
            return r
        if k in ('list', 'tuple'):
            if isinstance(o, T) and isinstance(a, K) and isinstance(b, K):
                return T(o.items[a.v:b.v])
            if isinstance(o, Ref):
                h = self.heap[o.oid]
                if all(isinstance(s, Items) for s in h.segs) and isinstance(a, K) and isinstance(b, K):
                    return self.alloc(HList([Items([x for s in h.segs for x in s.vs][a.v:b.v])]))
                n, at = self.list_len(h), (lambda j: self.list_at(h, j))
            else:
                l = Val.lv(o.t) if k == 'list' else Val.tv(o.t)
                n, at = th.llen(l), (lambda j: Sym(th.lat(l, j)))
            if k == 'tuple':
                raise Unsupported('tuple slice')
            lo, hi = self.clip(a, 0, n), self.clip(b, n, n)
            m = simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            return self.alloc(HList([Run(m, lambda j: at(simp(j + lo)))]))
        if k == 'bytes':
            raise Unsupported('bytes slice')
        raise PyRaise(TypeError, note=f'slice of {k}')

    def clip(self, v, default, n):
        v = self.conc(v)
        if isinstance(v, K) and v.v is None:
            return z3.IntVal(default) if isinstance(default, int) else default
        j = self.intterm(v)
        n = z3.IntVal(n) if isinstance(n, int) else n
        if isinstance(v, K):
            if v.v >= 0:
                return simp(z3.If(n < v.v, n, z3.IntVal(v.v)))
            return simp(z3.If(n + v.v < 0, z3.IntVal(0), n + v.v))
        return simp(z3.If(j < 0, z3.If(j + n < 0, z3.IntVal(0), j + n), z3.If(j > n, n, j)))

    def setitem(self, o, k, v):
        if isinstance(o, Ref):
            h = self.heap[o.oid]
            if isinstance(h, HDict):
                return self.dict_set(o, k, v)
            if isinstance(h, HInst):
                f = getattr(h.cls, '__setitem__', None)
                if f is not None:
                    return self.call(K(f), [o, k, v])
                raise PyRaise(TypeError, note='item assignment')
            if isinstance(h, HList):
                h = self.own(o)
                k = self.conc(k) if isinstance(k, V) else k
                if all(isinstance(s, Items) for s in h.segs) and isinstance(k, K) and isinstance(k.v, int):
                    vs = [x for s in h.segs for x in s.vs]
                    if not -len(vs) <= k.v < len(vs):
                        raise PyRaise(IndexError, note='assignment index')
                    vs[k.v] = v
                    h.segs = [Items(vs)]
                    self.wlog.add(('list', o.oid))
                    self.wlog.add(('listset', o.oid))
                    return
                raise Unsupported('list item assignment')
        if isinstance(o, (K, Sym)):
            from .interp import FrameViolation
            k2 = self.kind(o)
            if k2 in ('list', 'dict'):
                raise FrameViolation('assigns an item of an object of the caller')
            raise PyRaise(TypeError, note='item assignment')
        raise Unsupported('item assignment')

    def delitem(self, o, k):
        if isinstance(o, Ref):
            h = self.own(o)
            if isinstance(h, HDict):
                if not self.truth(self.mkbool(self.dict_has(o, k))):
                    raise PyRaise(KeyError, note='del')
                h = self.heap[o.oid]
                h.layers.append(('del', k))
                self.wlog.add(('dict', o.oid))
                return
            if isinstance(h, HList):
                if isinstance(k, K) and k.v == -1:
                    self.list_pop(o)
                    return
                if all(isinstance(s, Items) for s in h.segs) and isinstance(k, K):
                    vs = [x for s in h.segs for x in s.vs]
                    try:
                        del vs[k.v]
                    except Exception as e:
                        raise PyRaise(type(e))
                    h.segs = [Items(vs)]
                    self.wlog.add(('list', o.oid))
                    return
                if len(h.segs) == 1 and isinstance(h.segs[0], Run) and self.kind(k) in ('int', 'bool'):
                    n, at, t = h.segs[0].n, h.segs[0].at, self.intterm(k)
                    if not self.branch(z3.And(-n <= t, t < n)):
                        raise PyRaise(IndexError, note='del')
                    t = t if self.implied(t >= 0) else simp(z3.If(t >= 0, t, t + n))
                    h.segs = [Run(t, at), Run(simp(n - t - 1), lambda j: at(simp(j + t + 1)))]
                    self.wlog.add(('list', o.oid))
                    return
        if isinstance(o, (K, Sym)):
            from .interp import FrameViolation
            raise FrameViolation('deletes an item of an object of the caller')
        raise Unsupported('del item')

    # ------------------------------------------------------------------ lists
    def list_len(self, h):
        n = z3.IntVal(0)
        for s in h.segs:
            n = n + (len(s.vs) if isinstance(s, Items) else s.n)
        return simp(n)

    def list_at(self, h, j):
        """element j (known to be in range)"""
        off = z3.IntVal(0)
        live = [s for s in h.segs if not (isinstance(s, Items) and not s.vs)]
        for q, s in enumerate(live):
            n = z3.IntVal(len(s.vs)) if isinstance(s, Items) else s.n
            if q == len(live) - 1 or self.branch(simp(j < off + n)):
                r = simp(j - off)
                if isinstance(s, Run):
                    return s.at(r)
                if z3.is_int_value(r):
                    if not 0 <= r.as_long() < len(s.vs):
                        raise PathDead()
                    return self.real(s.vs[r.as_long()])
                for p in range(len(s.vs) - 1):
                    if self.branch(r == p):
                        return self.real(s.vs[p])
                return self.real(s.vs[-1])
            off = simp(off + n)
        raise PathDead()

    def list_append(self, ref, v):
        h = self.own(ref)
        if h.segs and isinstance(h.segs[-1], Items):
            h.segs[-1] = Items(h.segs[-1].vs + [v])
        else:
            h.segs.append(Items([v]))
        self.wlog.add(('list', ref.oid))
        self.added_to(ref.oid)

    def added_to(self, oid):
        if self.stop is not None and self.stop == oid:
            from .interp import _Stop
            raise _Stop()

    def unknown_in(self, rec):
        """membership in a container that the loop being replayed extends: not known here (forks, over-approximation)"""
        return rec is not None and rec in self.abstract

    def list_extend(self, ref, v):
        h = self.own(ref)
        seq = self.iter_seq(v)
        for s in (seq if isinstance(seq, list) else [seq]):
            from .interp import is_concrete_int, as_int
            if is_concrete_int(s.n):
                xs = [s.at(j) for j in range(as_int(s.n))]
                if xs:
                    if h.segs and isinstance(h.segs[-1], Items):
                        h.segs[-1] = Items(h.segs[-1].vs + xs)
                    else:
                        h.segs.append(Items(xs))
            else:
                h.segs.append(Run(s.n, s.at, None, s.src))
        self.wlog.add(('list', ref.oid))

    def list_pop(self, ref, k=None):
        h = self.own(ref)
        n = self.list_len(h)
        if not self.branch(simp(n > 0)):
            raise PyRaise(IndexError, note='pop from empty list')
        live = [s for s in h.segs if not (isinstance(s, Items) and not s.vs)]
        self.wlog.add(('list', ref.oid))
        if k is not None and not (isinstance(k, K) and k.v == -1):
            if all(isinstance(s, Items) for s in live) and isinstance(k, K):
                vs = [x for s in live for x in s.vs]
                try:
                    x = vs.pop(k.v)
                except Exception as e:
                    raise PyRaise(type(e))
                h.segs = [Items(vs)]
                return x
            raise Unsupported('list.pop(index)')
        last = live[-1]
        if isinstance(last, Items):
            h.segs = live[:-1] + [Items(last.vs[:-1])]
            return last.vs[-1]
        if len(live) > 1 and not self.implied(last.n > 0):
            raise Unsupported('pop')
        x = last.at(simp(last.n - 1))
        h.segs = live[:-1] + [Run(simp(last.n - 1), last.at)]
        return x

    # ------------------------------------------------------------------ sequences
    def iter_seq(self, v):
        """SeqV, or a list of SeqV"""
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Gen):
            r = self.alloc(HList())
            self.run_gen(v, lambda x: self.list_append(r, x))
            return self.iter_seq(r)
        if isinstance(v, K):
            try:
                xs = list(v.v)
            except TypeError:
                raise PyRaise(TypeError, note='not iterable')
            if isinstance(v.v, (set, frozenset)):
                xs = sorted(xs, key=repr)
            return SeqV(len(xs), lambda j: self.wrap(xs[j]))
        if isinstance(v, T):
            return SeqV(len(v.items), lambda j: v.items[j])
        if isinstance(v, Sym):
            k = self.kind(v)
            if k in ('list', 'tuple'):
                l = Val.lv(v.t) if k == 'list' else Val.tv(v.t)
                return SeqV(simp(th.llen(l)), lambda j: Sym(th.lat(l, j)))
            if k == 'dict':
                return self.keys_seq(v)
            if k == 'str':
                return self.iter_seq(self.conc(v))
            if k == 'set':
                l = Val.ev(v.t)
                return SeqV(th.llen(l), lambda j: Sym(th.lat(l, j)))
            if k == 'bytes':
                raise Unsupported('iterate bytes')
            raise PyRaise(TypeError, note=f'{k} not iterable')
        if isinstance(v, S):
            t = self.strterm(v)
            return SeqV(th.slen(t), lambda j: S(th.schar(t, j)))
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if isinstance(o, HList):
                segs = [s for s in o.segs if not (isinstance(s, Items) and not s.vs)]
                out = [SeqV(len(s.vs), (lambda j, vs=tuple(s.vs): self.real(vs[j]))) if isinstance(s, Items) else SeqV(s.n, s.at, src=s.src) for s in segs]
                if not out:
                    return SeqV(0, None)
                return out[0] if len(out) == 1 else out
            if isinstance(o, HDict):
                return self.keys_seq(v)
            if isinstance(o, HSet):
                if all(p[0] == 'items' for p in o.parts) and not o.minus:
                    xs = self.distinct([x for p in o.parts for x in p[1]])
                    return SeqV(len(xs), lambda j: xs[j])
                return self.opaque_seq(o)
            if isinstance(o, HIter):
                if o.pos == 0:
                    return SeqV(o.n, o.at)
                p = o.pos
                return SeqV(simp(o.n - p), lambda j: o.at(simp(j + p)))
            if isinstance(o, HInst):
                n = getattr(o.cls, '__len__', None)
                g = getattr(o.cls, '__getitem__', None)
                if n is not None and g is not None and not hasattr(o.cls, '__iter__'):
                    ln = self.call(K(n), [v])
                    if isinstance(ln, K):
                        xs = [self.call(K(g), [v, K(j)]) for j in range(ln.v)]
                        return SeqV(len(xs), lambda j: xs[j])
                raise PyRaise(TypeError, note='object not iterable')
        if isinstance(v, (I, B, Fl, Clo, BM)):
            raise PyRaise(TypeError, note='not iterable')
        raise Unsupported(f'iterate {v}')

    def distinct(self, xs):
        out = []
        for x in xs:
            if not any(self.truth(self.mkbool(self.eq(x, y))) for y in out):
                out.append(x)
        return out

    def opaque_seq(self, o):
        """elements of a set in some order: number and values unknown (over-approximation)"""
        n = self.fresh('ns', th.Int)
        self.assume(n >= 0)
        parts = [p for p in o.parts if p[0] == 'run' or p[1]]
        if len(parts) == 1 and parts[0][0] == 'run' and not o.minus:
            return self.permuted(n, *parts[0][1:])
        f = self.idx_fn('elt', th.Val)
        return SeqV(n, lambda j: Sym(f(j if z3.is_expr(j) else z3.IntVal(j))))

    def permuted(self, n, m, at, guard):
        """the distinct values among at(q), q < m, with guard(q), in some order"""
        src, pos = self.idx_fn('src', th.Int), self.idx_fn('pos', th.Int)
        q = z3.Int(f'q!{self.new_id()}')
        inr = z3.And(0 <= q, q < m)
        g = guard(q) if guard is not None else z3.BoolVal(True)
        self.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= src(q), src(q) < m, pos(src(q)) == q)), patterns=[src(q)]))
        c = self.fresh('q', th.Int)

        def probe():
            self.assume(z3.And(0 <= c, c < m))
            if guard is not None:
                self.assume(guard(c))
            return self.box(at(c))
        nid = self.nid
        outs = self.query(probe)
        if len(outs) == 1 and outs[0].kind == 'normal' and not any(new_name(d, nid) for d in decls(outs[0].value) if not d.eq(c.decl())):
            e = lambda t: z3.substitute(outs[0].value, (c, t))      # noqa
            pat = e(q)
            while z3.is_app(pat) and pat.num_args() == 1 and pat.decl().name() in ('VStr', 'VInt'):
                pat = pat.arg(0)
            pats = [pos(q)] + ([pat] if is_pattern(pat, q) else [])
            self.assume(z3.ForAll([q], z3.Implies(z3.And(inr, g), z3.And(0 <= pos(q), pos(q) < n, e(src(pos(q))) == e(q))), patterns=pats))

        def elem(j):
            k = src(j)
            jt = j if z3.is_expr(j) else z3.IntVal(j)
            self.assume(z3.Implies(z3.And(0 <= jt, jt < n), z3.And(0 <= k, k < m)))
            if guard is not None:
                self.assume(z3.Implies(z3.And(0 <= jt, jt < n), guard(k)))
            return at(k)
        return SeqV(n, elem)

    def concrete_items(self, v):
        from .interp import is_concrete_int, as_int
        if isinstance(v, T):
            return list(v.items)
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HList) and all(isinstance(s, Items) for s in self.heap[v.oid].segs):
            return [x for s in self.heap[v.oid].segs for x in s.vs]
        seq = self.iter_seq(v)
        out = []
        for s in (seq if isinstance(seq, list) else [seq]):
            if not is_concrete_int(s.n):
                n = next((q for q in range(8) if self.implied(s.n == q)), None)
                if n is None:
                    raise Unsupported('length of a sequence must be known here')
                out += [s.at(j) for j in range(n)]
                continue
            out += [s.at(j) for j in range(as_int(s.n))]
        return out

    def unpack(self, v, n):
        from .interp import is_concrete_int, as_int
        if isinstance(v, T):
            if len(v.items) != n:
                raise PyRaise(ValueError, note='unpack')
            return v.items
        seq = self.iter_seq(v)
        if isinstance(seq, list):
            items = self.concrete_items(v)
            if len(items) != n:
                raise PyRaise(ValueError, note='unpack')
            return items
        if is_concrete_int(seq.n):
            if as_int(seq.n) != n:
                raise PyRaise(ValueError, note='unpack')
        elif not self.branch(simp(seq.n == n)):
            raise PyRaise(ValueError, note='unpack')
        return [seq.at(z3.IntVal(j) if not is_concrete_int(seq.n) else j) for j in range(n)]

    def real(self, v):
        """the value of a list element that is made when it is read"""
        if not isinstance(v, Stale):
            return v
        key = ('stale', id(v), len(self.idx))
        r = self.inst_cache.get(key)
        if r is None:
            r = self.inst_cache[key] = (v.fn(), v)
        return r[0]

    # ------------------------------------------------------------------ dictionaries
    def need_hashable(self, k):
        if isinstance(k, (K,)):
            try:
                hash(k.v)
            except TypeError:
                raise PyRaise(TypeError, note='unhashable')
            return
        if isinstance(k, (S, I, B, Y, Fl, Clo, BM)):
            return
        if isinstance(k, Sym):
            t = k.t
            h = th.hashable(t)
            self.inst(z3.Implies(z3.Or(th.is_none(t), th.is_bool(t), th.is_int(t), th.is_flt(t), th.is_str(t), th.is_byt(t)), h))
            self.inst(z3.Implies(z3.Or(th.is_lst(t), th.is_dct(t), th.is_set(t)), z3.Not(h)))
            if not self.branch(h):
                raise PyRaise(TypeError, note='unhashable')
            return
        if isinstance(k, T):
            for x in k.items:
                self.need_hashable(x)
            return
        if isinstance(k, Ref):
            o = self.heap[k.oid]
            if isinstance(o, HInst) and not dataclasses.is_dataclass(o.cls):
                return
            raise PyRaise(TypeError, note='unhashable')
        raise Unsupported('hash')

    def ktm(self, k):
        """normalised key term"""
        return simp(th.knorm(self.box(k)))

    def key_fact(self, d, j):
        k = th.dkey(d, j)
        self.inst(z3.Implies(z3.And(0 <= j, j < th.dcard(d)), z3.And(th.dhas(d, th.knorm(k)), th.didx(d, th.knorm(k)) == j, th.hashable(k))))
        return Sym(k)

    def has_fact(self, d, kt):
        self.inst(z3.Implies(th.dhas(d, kt), z3.And(0 <= th.didx(d, kt), th.didx(d, kt) < th.dcard(d), th.dkey(d, th.didx(d, kt)) == kt if z3.is_app(kt) and kt.decl().name() == 'VStr' else th.knorm(th.dkey(d, th.didx(d, kt))) == kt)))
        self.inst(th.dcard(d) >= 0)

    def dict_has(self, d, k):
        """bool or formula"""
        self.need_hashable(k)
        if isinstance(d, Sym):
            kt = self.ktm(k)
            self.has_fact(Val.dv(d.t), kt)
            return th.dhas(Val.dv(d.t), kt)
        o = self.heap[d.oid]
        if len(o.layers) == 1 and o.layers[0][0] == 'sym':
            kt = self.ktm(k)
            self.has_fact(o.layers[0][1], kt)
            return th.dhas(o.layers[0][1], kt)
        recs = [getattr(l[1].key, 'rec', None) for l in o.layers if l[0] == 'comp']
        if any(self.unknown_in(r) for r in recs):
            return self.branch(self.fresh('in', th.Bool))
        if any(r is not None and not r.done for r in recs) and all(l[0] in ('w', 'comp') for l in o.layers):
            for l in reversed(o.layers):        # within the loop that fills it
                if self.truth(self.mkbool(self.eq(k, l[1]))) if l[0] == 'w' else self.run_has(l[1], k):
                    return True
            return False
        return self.dict_find(o, k) is not None

    def dict_find(self, o, k):
        """thunk of the value, or None (forks)"""
        for lay in reversed(o.layers):
            if lay[0] in ('w', 'del'):
                if self.truth(self.mkbool(self.eq(k, lay[1]))):
                    return (lambda v=lay[2]: v) if lay[0] == 'w' else None
            elif lay[0] == 'sym':
                kt = self.ktm(k)
                self.has_fact(lay[1], kt)
                if self.branch(th.dhas(lay[1], kt)):
                    return lambda: Sym(th.dget(lay[1], kt))
            elif lay[0] == 'comp':
                j = self.comp_find(lay[1], k)
                if j is not None:
                    return lambda: lay[1].val(j)
            elif lay[0] == 'opt':
                raise Unsupported('option layer')
        return None

    def dict_get(self, d, k):
        self.need_hashable(k)
        if isinstance(d, Sym):
            kt = self.ktm(k)
            dt = Val.dv(d.t)
            self.has_fact(dt, kt)
            if not self.branch(th.dhas(dt, kt)):
                raise PyRaise(KeyError, note='key')
            return Sym(th.dget(dt, kt))
        o = self.heap[d.oid]
        f = self.dict_find(o, k)
        if f is None:
            df = getattr(o, 'default_factory', None)
            if df is not None:
                v = self.call(df, [])
                self.dict_set(d, k, v)
                return v
            raise PyRaise(KeyError, note='key')
        return f()

    def dict_set(self, d, k, v):
        self.need_hashable(k)
        o = self.own(d)
        if all(l[0] in ('w', 'del') for l in o.layers):
            for n, l in enumerate(o.layers):
                if l[0] == 'w' and self.same_key(l[1], k):
                    if any(l2[0] == 'del' for l2 in o.layers[n:]):
                        break
                    o.layers = o.layers[:n] + [('w', l[1], v)] + o.layers[n + 1:]
                    self.wlog.add(('dict', d.oid))
                    self.wlog.add(('dictset', d.oid))
                    return
        o.layers.append(('w', k, v))
        self.wlog.add(('dict', d.oid))
        self.added_to(d.oid)

    def same_key(self, a, b):
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        return False

    def dict_update(self, d, v):
        o = self.own(d)
        self.wlog.add(('dict', d.oid))
        if isinstance(v, K) and isinstance(v.v, dict):
            for k, x in v.v.items():
                self.dict_set(d, K(k), self.wrap(x))
            return
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HDict):
            src = self.heap[v.oid]
            if all(l[0] == 'w' for l in src.layers):
                for l in list(src.layers):
                    self.dict_set(d, l[1], l[2])
                return
            if not o.layers:
                o.layers = list(src.layers)
                return
            if any(l[0] == 'del' for l in src.layers):
                raise Unsupported('merge of dictionaries with removed keys')
            o.layers.extend(src.layers)
            return
        if isinstance(v, Sym) and self.kind(v) == 'dict':
            o.layers.append(('sym', Val.dv(v.t)))
            return
        if isinstance(v, (Ref, T, SeqV, Gen)):
            for p in self.concrete_items(v):
                k, x = self.unpack(p, 2)
                self.dict_set(d, k, x)
            return
        raise Unsupported('dict update')

    def dict_len_const(self, o):
        ks = []
        for l in o.layers:
            if l[0] == 'w':
                if not any(self.truth(self.mkbool(self.eq(l[1], k))) for k in ks):
                    ks.append(l[1])
            elif l[0] == 'del':
                ks = [k for k in ks if not self.truth(self.mkbool(self.eq(l[1], k)))]
            else:
                return None
        return len(ks)

    def dict_len(self, o):
        if not o.layers:
            return z3.IntVal(0)
        l0 = o.layers[0]
        if l0[0] in ('w', 'del'):
            n = self.dict_len_const(o)
            if n is None:
                raise Unsupported('length of dictionary')
            return z3.IntVal(n)
        if l0[0] == 'sym':
            n = th.dcard(l0[1])
            self.inst(n >= 0)
        elif l0[0] == 'comp':
            c = l0[1]
            if not self.comp_injective(c):
                raise Unsupported('length of a dictionary whose keys may collide')
            if c.guard is None:
                n = c.n
            else:
                n = self.count_of(c.n, c.guard)
        seen = HDict([l0])
        for l in o.layers[1:]:
            if l[0] not in ('w', 'del'):
                raise Unsupported('length of dictionary')
            has = self.dict_find(seen, l[1]) is not None
            if l[0] == 'w' and not has:
                n = n + 1
            if l[0] == 'del' and has:
                n = n - 1
            seen.layers.append(l)
        return simp(n)

    def count_of(self, n, P):
        c = self.fresh('cnt', th.Int)
        self.count_lemma(c, n, P)
        return c

    # comprehension-like dictionaries
    def comp_injective(self, c):
        """keys of different indices differ"""
        key = ('inj', c.tag, z3.simplify(c.n if z3.is_expr(c.n) else z3.IntVal(c.n)).get_id(), tuple(x.get_id() for x in self.idx))
        if c.tag is not None and key in self.memo:
            return self.memo[key][0]
        here = {f.get_id() for f in self.facts}
        for c2, n2, facts in self.injective.get(id(c), []):
            if n2 == key[2] and all(f.get_id() in here for f in facts):     # proved from fewer facts
                return True
        a, b = z3.Int('inj!a'), z3.Int('inj!b')
        if any(x.eq(a) for x in self.idx):
            a, b = z3.Int(f'q!{self.new_id()}'), z3.Int(f'q!{self.new_id()}')
        self.idx += [a, b]
        nid = self.nid
        try:
            def one():
                self.assume(z3.And(0 <= a, a < b, b < c.n))
                if c.guard is not None:
                    self.assume(z3.And(c.guard(a), c.guard(b)))
                return self.mkbool(self.eq(c.key(a), c.key(b)))
            outs = self.query(one)
            ok = True
            for o in outs:
                if isinstance(o.value, K) and o.value.v is False:
                    continue
                if o.kind != 'normal' or isinstance(o.value, K):
                    ok = False
                    break
                g = z3.Not(o.value.t)
                known = list(o.facts) + o.state[6][len(self.ginst):]
                mk = ('injp', g.get_id(), tuple(sorted(f.get_id() for f in known)))
                if mk in self.memo:
                    continue
                s = z3.Solver()
                s.set('timeout', 500)
                s.add(*[f for f in known if not self.has_quant(f)], z3.Not(g))
                if s.check() == z3.unsat:
                    self.memo[mk] = (g, known)
                    continue
                if not self.prove_now(known, g):
                    ok = False
                    break
        finally:
            self.idx.pop()
            self.idx.pop()
            self.nid = nid
        if c.tag is not None:
            self.memo[key] = (ok, c)
        if ok:
            self.injective.setdefault(id(c), []).append((c, key[2], list(self.facts)))
        return ok

    def prove_now(self, facts, goal, timeout=2000):
        """Is the goal implied by all facts of the path (quantified ones included)?"""
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in th.axioms() + th.ground_axioms() + list(self.axioms) + list(self.ginst) + list(self.facts) + list(facts):
            s.add(f)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def comp_member(self, c, k):
        """formula: the key term k (normalised) is a key of c"""
        j = z3.Int(f'q!{self.new_id()}')
        self.idx.append(j)
        try:
            def one():
                self.assume(z3.And(0 <= j, j < c.n))
                if c.guard is not None:
                    self.assume(c.guard(j))
                return th.knorm(self.box(c.key(j)))
            outs = self.query(one)
        finally:
            self.idx.pop()
        return z3.Or(*[z3.Exists([j], z3.And(*o.facts, k == o.value)) for o in outs if o.kind == 'normal'], z3.BoolVal(False))

    def comp_nonempty(self, c):
        b = self.fresh('ne', th.Bool)
        if self.branch(b):
            j = self.fresh('ix', th.Int)
            self.assume(z3.And(0 <= j, j < c.n, c.guard(j)))
            return True
        q = z3.Int(f'q!{self.new_id()}')
        self.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c.n), z3.Not(c.guard(q)))))
        return False

    def comp_find(self, c, k):
        """index of the (last) entry with key k, or None (forks)"""
        from .interp import is_concrete_int, as_int
        if is_concrete_int(c.n) and as_int(c.n) == 0:
            return None
        kt = self.box(k)
        if self.absent is not None and self.absent(c, kt):
            return None
        for cand in self.candidates(c, kt):
            g = z3.And(0 <= cand, cand < c.n)
            if c.guard is not None:
                g = z3.And(g, c.guard(cand))
            if not self.implied(z3.And(0 <= cand, cand < c.n)):
                continue
            e = self.eq(c.key(cand), k)
            if e is True or e is not False and self.implied(e):
                if not self.comp_injective(c):
                    break
                if c.guard is not None and not self.branch(c.guard(cand)):
                    return None
                return cand
        d = self.comp_source(c)
        if d is not None:               # the keys are those of the dictionary d
            kt = self.ktm(k)
            self.has_fact(d, kt)
            return th.didx(d, kt) if self.branch(th.dhas(d, kt)) else None
        ck = ('find', id(c), kt.get_id())
        if ck in self.inst_cache:
            return self.inst_cache[ck][0]
        j = self.comp_search(c, k)
        self.inst_cache[ck] = (j, c, kt)
        return j

    def comp_search(self, c, k):
        inj = self.comp_injective(c)
        b = self.fresh('haskey', th.Bool)
        if self.branch(b):
            j = self.fresh('ix', th.Int)
            self.assume(z3.And(0 <= j, j < c.n))
            if c.guard is not None:
                self.assume(c.guard(j))
            if not self.truth(self.mkbool(self.eq(c.key(j), k))):
                raise PathDead()
            if not inj:                 # a later entry with the same key would have replaced the value
                def later(q):
                    if not self.branch(q > j) or c.guard is not None and not self.branch(c.guard(q)):
                        return
                    self.deny(self.eq(c.key(q), k))
                self.forall(c.n, later)
            return j

        def no(j):
            if c.guard is not None:
                if not self.branch(c.guard(j)):
                    return
            self.deny(self.eq(c.key(j), k))
        self.forall(c.n, no)
        return None

    def comp_source(self, c):
        """the dictionary whose keys, in order, are the keys of c, if that is evident"""
        if c.guard is not None or c.tag is None:
            return None
        key = ('src', c.tag, z3.simplify(c.n if z3.is_expr(c.n) else z3.IntVal(c.n)).get_id(), tuple(x.get_id() for x in self.idx))
        if key in self.memo:
            return self.memo[key][0]
        q = z3.Int(f'q!{self.new_id()}')
        nid = self.nid
        self.idx.append(q)
        try:
            def one():
                self.assume(z3.And(0 <= q, q < c.n))
                k = c.key(q)
                return k.t if isinstance(k, Sym) else None
            outs = self.query(one)
        finally:
            self.idx.pop()
            self.nid = nid
        d = None
        for o in outs:
            t = o.value
            if o.kind != 'normal' or t is None or not (z3.is_app(t) and t.decl().eq(th.dkey) and t.arg(1).eq(q)) or d is not None and not d.eq(t.arg(0)) or self.mentions(t.arg(0), q):
                d = None
                break
            d = t.arg(0)
        if d is not None and not (z3.is_expr(c.n) and z3.simplify(c.n).eq(th.dcard(d))):
            d = None
        self.memo[key] = (d, c, q)
        return d

    @staticmethod
    def mentions(t, x):
        todo = [t]
        while todo:
            u = todo.pop()
            if u.eq(x):
                return True
            todo += u.children()
        return False

    def candidates(self, c, kt):
        """index terms at which the key of c may be kt: integer arguments of function applications inside kt"""
        out, todo, seen = [], [kt], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                for a in t.children():
                    if a.sort() == th.Int and not z3.is_int_value(a) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.append(a)
                    todo.append(a)
                if not t.children() and t.sort() == th.Int and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(t)
        if kt.decl().name() == 'VInt':          # positions count from one
            out += [simp(kt.arg(0) - 1), simp(kt.arg(0))]
        return list({a.get_id(): a for a in out}.values())

    def keys_seq(self, d):
        if isinstance(d, Sym):
            dt = Val.dv(d.t)
            self.inst(th.dcard(dt) >= 0)
            return SeqV(th.dcard(dt), lambda j: self.key_fact(dt, j if z3.is_expr(j) else z3.IntVal(j)))
        o = self.heap[d.oid]
        if not o.layers:
            return SeqV(0, None)
        if all(l[0] in ('w', 'del') for l in o.layers):
            if any(l[0] == 'del' for l in o.layers):
                ks = []
                for l in o.layers:
                    hit = [n for n, x in enumerate(ks) if self.truth(self.mkbool(self.eq(l[1], x)))]
                    if l[0] == 'w' and not hit:
                        ks.append(l[1])
                    if l[0] == 'del':
                        ks = [x for n, x in enumerate(ks) if n not in hit]
            else:
                ks = self.distinct([l[1] for l in o.layers])
            return SeqV(len(ks), lambda j: ks[j])
        if len(o.layers) == 1:
            l = o.layers[0]
            if l[0] == 'sym':
                return SeqV(th.dcard(l[1]), lambda j: self.key_fact(l[1], j if z3.is_expr(j) else z3.IntVal(j)))
            if l[0] == 'comp' and l[1].guard is None:
                if not self.comp_injective(l[1]):
                    raise Unsupported('keys may collide')
                return SeqV(l[1].n, l[1].key)
        n = self.fresh('nk', th.Int)
        self.assume(n >= 0)
        f = self.idx_fn('key', th.Val)

        def at(j):
            k = Sym(f(j if z3.is_expr(j) else z3.IntVal(j)))
            self.inst(th.hashable(k.t))
            if self.dict_find(self.heap[d.oid], k) is None:
                raise PathDead()
            return k
        return SeqV(n, at)

    def items_seq(self, d):
        ks = self.keys_seq(d)
        o = None if isinstance(d, Sym) else self.heap[d.oid]
        if o is not None and len(o.layers) == 1 and o.layers[0][0] == 'comp' and o.layers[0][1].guard is None:
            c = o.layers[0][1]
            return SeqV(ks.n, lambda j: T([c.key(j), c.val(j)]))
        dt = Val.dv(d.t) if o is None else o.layers[0][1] if len(o.layers) == 1 and o.layers[0][0] == 'sym' else None

        def at(j):
            k = ks.at(j)
            if dt is not None:
                j = j if z3.is_expr(j) else z3.IntVal(j)
                v = th.dval(dt, j)
                self.inst(z3.Implies(z3.And(0 <= j, j < th.dcard(dt)), th.dget(dt, th.knorm(th.dkey(dt, j))) == v))
                return T([k, Sym(v)])
            return T([k, self.dict_value(d, k)])
        return SeqV(ks.n, at)

    def dict_value(self, d, k):
        """value of a key known to be present"""
        if isinstance(d, Sym):
            return Sym(th.dget(Val.dv(d.t), self.ktm(k)))
        o = self.heap[d.oid]
        if len(o.layers) == 1 and o.layers[0][0] == 'sym':
            return Sym(th.dget(o.layers[0][1], self.ktm(k)))
        f = self.dict_find(o, k)
        if f is None:
            raise PathDead()
        return f()

    # ------------------------------------------------------------------ sets
    def hset(self, v):
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HSet):
            return self.heap[v.oid]
        if isinstance(v, K):
            return HSet([('items', [K(x) for x in sorted(v.v, key=repr)])])
        if isinstance(v, Sym):
            l = Val.ev(v.t)
            return HSet([('run', th.llen(l), lambda j: Sym(th.lat(l, j)), None)])
        raise Unsupported('set')

    def make_set(self, v):
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HSet):
            o = self.heap[v.oid].copy()
            o.owner = None
            return self.alloc(o)
        r = self.alloc(HSet())
        self.set_update(r, v)
        return r

    def set_add(self, ref, v):
        self.need_hashable(v)
        o = self.own(ref)
        if o.minus:
            raise Unsupported('add to a difference')
        if o.parts and o.parts[-1][0] == 'items':
            o.parts[-1] = ('items', o.parts[-1][1] + [v])
        else:
            o.parts.append(('items', [v]))
        self.wlog.add(('set', ref.oid))
        self.added_to(ref.oid)

    def set_update(self, ref, v):
        from .interp import is_concrete_int, as_int
        o = self.own(ref)
        self.wlog.add(('set', ref.oid))
        if self.kind(v) == 'set' and not isinstance(v, K):
            src = self.hset(v)
            if o.minus or src.minus:
                if not o.parts:
                    o.parts, o.minus = list(src.parts), list(src.minus)
                    return
                raise Unsupported('union with a difference')
            o.parts += [('items', list(p[1])) if p[0] == 'items' else p for p in src.parts]
            return
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HDict):
            for l in self.heap[v.oid].layers:
                if l[0] == 'w':
                    o.parts.append(('items', [l[1]]))
                elif l[0] == 'sym':
                    d = l[1]
                    o.parts.append(('run', th.dcard(d), (lambda j, d=d: self.key_fact(d, j if z3.is_expr(j) else z3.IntVal(j))), None))
                elif l[0] == 'comp':
                    o.parts.append(('run', l[1].n, l[1].key, l[1].guard))
                else:
                    raise Unsupported('set of dictionary')
            return
        seq = self.iter_seq(v)
        for s in (seq if isinstance(seq, list) else [seq]):
            if is_concrete_int(s.n):
                xs = [s.at(j) for j in range(as_int(s.n))]
                for x in xs:
                    self.need_hashable(x)
                if xs:
                    o.parts.append(('items', xs))
            else:
                if not self.keys_known_hashable(v):
                    b = self.fresh('unh', th.Bool)
                    if self.some_unhashable(s) and self.branch(b):
                        j = self.fresh('ix', th.Int)
                        self.assume(z3.And(0 <= j, j < s.n))
                        self.need_hashable(s.at(j))
                        raise PathDead()
                    if self.some_unhashable(s):
                        self.forall(s.n, lambda j: self.need_hashable_ok(s.at(j)))
                o.parts.append(('run', s.n, s.at, None))

    def some_unhashable(self, s):
        j = z3.Int(f'q!{self.new_id()}')
        nid = self.nid
        key = ('unhash', j.get_id(), self.stamp())
        if key in self.memo:
            return self.memo[key][0]
        self.idx.append(j)
        try:
            def one():
                self.assume(z3.And(0 <= j, j < s.n))
                self.need_hashable(s.at(j))
            outs = self.query(one)
        finally:
            self.idx.pop()
        self.nid = nid
        r = any(o.kind != 'normal' for o in outs)
        self.memo[key] = (r, j)
        return r

    def keys_known_hashable(self, v):
        return isinstance(v, Sym) and self.kind(v) == 'dict'

    def need_hashable_ok(self, x):
        try:
            self.need_hashable(x)
        except PyRaise:
            raise PathDead()

    def set_has(self, o, x):
        for p in o.parts:
            if p[0] == 'items':
                if self.truth(self.mkbool(self.any_eq(x, p[1]))):
                    return not any(self.set_has(m, x) for m in o.minus)
            else:
                if self.unknown_in(getattr(p[2], 'rec', None)):
                    if self.branch(self.fresh('in', th.Bool)):
                        return True
                    continue
                c = Comp(p[1], p[2], None, p[3])
                if self.run_has(c, x):
                    return not any(self.set_has(m, x) for m in o.minus)
        return False

    def run_has(self, c, x):
        kt = self.box(x)
        for cand in self.candidates(c, kt):
            if not self.implied(z3.And(0 <= cand, cand < c.n)):
                continue
            if c.guard is not None and not self.implied(c.guard(cand)):
                continue
            e = self.eq(c.key(cand), x)
            if e is True or e is not False and self.implied(e):
                return True
        b = self.fresh('in', th.Bool)
        if self.branch(b):
            j = self.fresh('ix', th.Int)
            self.assume(z3.And(0 <= j, j < c.n))
            if c.guard is not None:
                self.assume(c.guard(j))
            if not self.truth(self.mkbool(self.eq(c.key(j), x))):
                raise PathDead()
            return True

        def no(j):
            if c.guard is not None and not self.branch(c.guard(j)):
                return
            self.deny(self.eq(c.key(j), x))
        self.forall(c.n, no)
        return False

    def set_minus(self, a, b):
        oa, ob = self.hset(a), self.hset(b)
        if all(p[0] == 'items' for p in oa.parts) and not oa.minus:
            xs = [x for p in oa.parts for x in p[1] if not self.set_has(ob, x)]
            return self.alloc(HSet([('items', xs)]))
        o = oa.copy()
        o.owner = None
        o.minus = list(o.minus) + [ob.copy()]
        return self.alloc(o)

    def set_nonempty(self, o):
        """forks: nonempty with a witness, or every element is subtracted"""
        if not o.minus and any(p[0] == 'items' and p[1] for p in o.parts):
            return True
        b = self.fresh('ne', th.Bool)
        parts = [p for p in o.parts if p[0] == 'run' or p[1]]
        if not parts:
            return False
        if self.branch(b):
            p = parts[self.choose(len(parts))]
            if p[0] == 'items':
                x = p[1][self.choose(len(p[1]))]
            else:
                j = self.fresh('ix', th.Int)
                self.assume(z3.And(0 <= j, j < p[1]))
                if p[3] is not None:
                    self.assume(p[3](j))
                x = p[2](j)
            for m in o.minus:
                if self.set_has(m, x):
                    raise PathDead()
            return True

        def gone(x):
            if not any(self.set_has(m, x) for m in o.minus):
                raise PathDead()
        for p in parts:
            if p[0] == 'items':
                for x in p[1]:
                    gone(x)
            elif not o.minus:
                if p[3] is None:
                    self.assume(p[1] <= 0)
                else:
                    q = z3.Int(f'q!{self.new_id()}')
                    self.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p[1]), z3.Not(p[3](q)))))
            else:
                def one(j, p=p):
                    if p[3] is not None and not self.branch(p[3](j)):
                        return
                    gone(p[2](j))
                self.forall(p[1], one)
        return False

    def set_eq(self, a, b):
        oa, ob = self.hset(a), self.hset(b)
        for x, y in ((oa, ob), (ob, oa)):
            if not x.parts or all(p[0] == 'items' and not p[1] for p in x.parts):
                return not self.set_nonempty(y)
        if all(p[0] == 'items' for p in oa.parts + ob.parts) and not oa.minus and not ob.minus:
            xs = [x for p in oa.parts for x in p[1]]
            ys = [x for p in ob.parts for x in p[1]]
            return all(self.truth(self.mkbool(self.any_eq(x, ys))) for x in xs) and all(self.truth(self.mkbool(self.any_eq(y, xs))) for y in ys)
        d1 = HSet(oa.parts, list(oa.minus) + [ob])
        d2 = HSet(ob.parts, list(ob.minus) + [oa])
        return not self.set_nonempty(d1) and not self.set_nonempty(d2)

    def set_len(self, o):
        if all(p[0] == 'items' for p in o.parts) and not o.minus:
            return z3.IntVal(len(self.distinct([x for p in o.parts for x in p[1]])))
        if len(o.parts) == 1 and not o.minus and getattr(o, 'distinct_of', None) is not None:
            return o.distinct_of
        n = self.fresh('nset', th.Int)
        self.assume(n >= 0)
        return n

    # ------------------------------------------------------------------ length
    def length(self, v):
        if isinstance(v, K):
            return self.native(len, v.v)
        if isinstance(v, S):
            if v.parts:
                n = sum((len(p.v) for p in v.parts if isinstance(p, K)), 0)
                t = z3.IntVal(n)
                for p in v.parts:
                    if not isinstance(p, K):
                        t = t + th.slen(self.strterm(p))
                        self.inst(th.slen(self.strterm(p)) >= 0)
                return self.mkint(t)
            self.inst(th.slen(v.t) >= 0)
            return I(th.slen(v.t))
        if isinstance(v, Y):
            self.inst(th.blen(v.t) >= 0)
            return I(th.blen(v.t))
        if isinstance(v, T):
            return K(len(v.items))
        if isinstance(v, SeqV):
            return self.mkint(v.n)
        if isinstance(v, Sym):
            k = self.kind(v)
            if k in ('str', 'bytes'):
                return self.length(self.conc(v))
            if k in ('list', 'tuple', 'set'):
                n = th.llen({'list': Val.lv, 'tuple': Val.tv, 'set': Val.ev}[k](v.t))
            elif k == 'dict':
                n = th.dcard(Val.dv(v.t))
            else:
                raise PyRaise(TypeError, note=f'len of {k}')
            self.inst(n >= 0)
            return self.mkint(n)
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if isinstance(o, HList):
                return self.mkint(self.list_len(o))
            if isinstance(o, HDict):
                return self.mkint(self.dict_len(o))
            if isinstance(o, HSet):
                return self.mkint(self.set_len(o))
            if isinstance(o, HInst):
                f = getattr(o.cls, '__len__', None)
                if f is not None:
                    return self.call(K(f), [v])
        raise PyRaise(TypeError, note='len')

    # ------------------------------------------------------------------ construction
    def construct(self, cls, args, kwargs):
        if cls in (list, tuple, dict, set, frozenset, str, int, float, bool, type, range, enumerate, zip, reversed, map, filter, object, bytes):
            return self.builtin(cls, args, kwargs)
        if issubclass(cls, BaseException):
            return self.alloc(HInst(cls, {'args': T(args)}))
        if dataclasses.is_dataclass(cls) and '__init__' in cls.__dict__ and not self.user_init(cls):
            h = HInst(cls)
            r = self.alloc(h)
            fs = [f for f in dataclasses.fields(cls) if f.init]
            if len(args) > len(fs):
                raise PyRaise(TypeError, note=f'{cls.__name__}: too many arguments')
            for f, v in zip(fs, args):
                h.attrs[f.name] = v
            kw = dict(kwargs)
            for f in fs[len(args):]:
                if f.name in kw:
                    h.attrs[f.name] = kw.pop(f.name)
                elif f.default is not dataclasses.MISSING:
                    h.attrs[f.name] = self.wrap(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    h.attrs[f.name] = self.call(K(f.default_factory), [])
                else:
                    raise PyRaise(TypeError, note=f'{cls.__name__}: missing {f.name}')
            if kw:
                raise PyRaise(TypeError, note=f'{cls.__name__}: unexpected {list(kw)}')
            if hasattr(cls, '__post_init__'):
                self.call(K(cls.__post_init__), [r])
            return r
        if cls.__module__.startswith('jadn'):
            r = self.alloc(HInst(cls))
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(K(init), [r] + list(args), kwargs)
            return r
        return self.external(cls, args, kwargs)

    def user_init(self, cls):
        f = cls.__dict__['__init__']
        return isinstance(f, types.FunctionType) and f.__code__.co_filename.endswith('.py')

    # ------------------------------------------------------------------ builtins
    def builtin(self, fn, args, kwargs):
        name = getattr(fn, '__name__', None)
        if all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kwargs.values()) and fn in self.PURE:
            r = self.native(fn, *[a.v for a in args], **{k: a.v for k, a in kwargs.items()})
            if isinstance(r.v, (list, dict, set)) and fn in (list, dict, set, sorted):
                return self.lift(r.v)
            return r
        if isinstance(fn, type):
            m = getattr(self, 'b_' + fn.__name__, None)
        else:
            m = getattr(self, 'b_' + name, None) if getattr(fn, '__module__', None) == 'builtins' and name else None
        if m is not None:
            return m(*args, **kwargs)
        if name == '__getattribute__' and len(args) == 2 and isinstance(args[1], K):
            return self.getattr(args[0], args[1].v)
        if name == '__setattr__' and len(args) == 3 and isinstance(args[1], K):
            self.setattr(args[0], args[1].v, args[2])
            return K(None)
        return self.external(fn, args, kwargs)

    PURE = {len, isinstance, int, str, float, bool, ord, chr, abs, min, max, sum, sorted, list, tuple, dict, set, frozenset, repr,
            type, getattr, hasattr, issubclass, range, callable, round, any, all, hash}

    def b_len(self, v):
        return self.length(v)

    def b_isinstance(self, v, cls):
        if isinstance(cls, T):
            c = tuple(x.v for x in cls.items)
        elif isinstance(cls, K):
            c = cls.v
        else:
            raise Unsupported('isinstance class')
        return self.mkbool(self.is_instance(v, c))

    def b_issubclass(self, a, b):
        raise Unsupported('issubclass')

    def b_bool(self, v=K(False)):
        return K(self.truth(v))

    def b_type(self, v):
        if isinstance(v, K):
            return K(type(v.v))
        k = self.kind(v)
        if k in PYT:
            return K(PYT[k])
        if k == 'inst':
            return K(self.heap[v.oid].cls)
        raise Unsupported('type()')

    def b_callable(self, v):
        return K(isinstance(v, (Clo, BM)) or isinstance(v, K) and callable(v.v))

    def b_int(self, v=K(0), base=None):
        if base is not None:
            raise Unsupported('int base')
        if isinstance(v, Sym):
            return self.int_of(v.t)
        k = self.kind(v)
        if isinstance(v, K) and k != 'list':
            return self.native(int, v.v)
        if k == 'int':
            return v
        if k == 'bool':
            return I(self.intterm(v))
        if k == 'float':
            if self.branch(v.k == 1):
                raise PyRaise(ValueError, note='int(nan)')
            if self.branch(v.k >= 2):
                raise PyRaise(OverflowError, note='int(inf)')
            return I(z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r)))
        if k == 'str':
            t = self.strterm(v)
            if z3.is_app(t) and t.decl().name() == 'sint':
                return I(t.arg(0))
            if not self.branch(_isnum(t)):
                raise PyRaise(ValueError, note='int(str)')
            return I(_sparse(t))
        if k == 'bytes':
            t = v.t
            if not self.branch(_bisnum(t)):
                raise PyRaise(ValueError, note='int(bytes)')
            return I(_bparse(t))
        raise PyRaise(TypeError, note=f'int({k})')

    def int_of(self, t):
        """int() of a value of unknown kind"""
        fin = z3.And(th.is_flt(t), Val.fk(t) == 0)
        sn, bn = z3.And(th.is_str(t), _isnum(Val.sv(t))), z3.And(th.is_byt(t), _bisnum(Val.yv(t)))
        r = Val.fr(t)
        self.inst(th.intok(t) == z3.Or(th.is_bool(t), th.is_int(t), fin, sn, bn))
        self.inst(z3.Implies(th.is_int(t), th.vint(t) == Val.iv(t)))
        self.inst(z3.Implies(th.is_bool(t), th.vint(t) == z3.If(Val.bv(t), z3.IntVal(1), z3.IntVal(0))))
        self.inst(z3.Implies(fin, th.vint(t) == z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))))
        self.inst(z3.Implies(sn, th.vint(t) == _sparse(Val.sv(t))))
        self.inst(z3.Implies(bn, th.vint(t) == _bparse(Val.yv(t))))
        if self.branch(th.intok(t)):
            return I(th.vint(t))
        if self.branch(z3.And(th.is_flt(t), Val.fk(t) >= 2)):
            raise PyRaise(OverflowError, note='int(inf)')
        if self.branch(z3.Or(th.is_flt(t), th.is_str(t), th.is_byt(t))):
            raise PyRaise(ValueError, note='int')
        raise PyRaise(TypeError, note='int')

    def b_float(self, v=K(0.0)):
        v = self.conc(v)
        k = self.kind(v)
        if k == 'float':
            return v
        if k in ('int', 'bool'):
            raise Unsupported('float of an integer')
        if k == 'str':
            if isinstance(v, K):
                return self.native(float, v.v)
            t = self.strterm(v)
            if z3.is_app(t) and t.decl().name() == 'sflt':
                return Fl(t.arg(0), t.arg(1))
            if not self.branch(th.fltok(t)):
                raise PyRaise(ValueError, note='float(str)')
            fk = th.fltk(t)
            self.assume(z3.And(0 <= fk, fk <= 3))
            return Fl(fk, th.fltr(t))
        raise PyRaise(TypeError, note=f'float({k})')

    def b_str(self, v=K('')):
        return self.to_str(v)

    def b_repr(self, v):
        return S(self.fresh('repr', th.Str))

    def b_ord(self, v):
        v = self.conc(v)
        if isinstance(v, K):
            return self.native(ord, v.v)
        if not isinstance(v, S):
            raise Unsupported('ord')
        t = self.strterm(v)
        if not (z3.is_app(t) and t.decl().name() == 'schar') and not self.branch(th.slen(t) == 1):
            raise PyRaise(TypeError, note='ord')
        self.assume(th.schr(th.sord(t)) == t)
        return I(th.sord(t))

    def b_print(self, *a, **k):
        return K(None)

    def b_list(self, v=None):
        r = self.alloc(HList())
        if v is not None:
            self.list_extend(r, v)
        return r

    def b_tuple(self, v=None):
        if v is None:
            return T([])
        if isinstance(v, T):
            return v
        try:
            return T(self.concrete_items(v))
        except Unsupported:
            seq = self.iter_seq(v)
            if isinstance(seq, list):
                raise
            return Sym(Val.VTup(self.reify_list([Run(seq.n, seq.at)])))

    def b_dict(self, *a, **kw):
        r = self.alloc(HDict())
        for v in a:
            self.dict_update(r, v)
        for k, v in kw.items():
            self.dict_set(r, K(k), v)
        return r

    def b_set(self, v=None):
        return self.make_set(v) if v is not None else self.alloc(HSet())

    b_frozenset = b_set

    def b_range(self, *a):
        a = [self.conc(x) for x in a]
        if len(a) == 1:
            lo, hi = z3.IntVal(0), self.intterm(a[0])
        elif len(a) == 2:
            lo, hi = self.intterm(a[0]), self.intterm(a[1])
        else:
            raise Unsupported('range step')
        n = simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return SeqV(n, lambda j: self.mkint(lo + j))

    def one_seq(self, v):
        s = self.iter_seq(v)
        if isinstance(s, list):
            ref = self.b_list(v)
            h = self.heap[ref.oid]
            return SeqV(self.list_len(h), lambda j: self.list_at(h, j if z3.is_expr(j) else z3.IntVal(j)))
        return s

    def b_enumerate(self, v, start=K(0)):
        s = self.one_seq(v)
        st = self.intterm(start)
        return SeqV(s.n, lambda j: T([self.mkint(st + j), s.at(j)]))

    def b_zip(self, *vs):
        ss = [self.one_seq(v) for v in vs]
        n = ss[0].n
        for s in ss[1:]:
            n = simp(z3.If(s.n < n, s.n, n)) if z3.is_expr(n) or z3.is_expr(s.n) else min(n, s.n)
        return SeqV(n, lambda j: T([s.at(j) for s in ss]))

    def b_reversed(self, v):
        s = self.one_seq(v)
        return SeqV(s.n, lambda j: s.at(simp(s.n - 1 - j) if z3.is_expr(s.n) or z3.is_expr(j) else s.n - 1 - j))

    def b_iter(self, v):
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HIter):
            return v
        s = self.one_seq(v)
        return self.alloc(HIter(s.n, s.at))

    def b_next(self, it, default=None):
        from .interp import is_concrete_int, as_int
        if isinstance(it, Gen):
            s = self.one_seq(it)
            it = self.alloc(HIter(s.n, s.at))
        if not (isinstance(it, Ref) and isinstance(self.heap[it.oid], HIter)):
            raise PyRaise(TypeError, note='not an iterator')
        o = self.heap[it.oid]
        if self.branch(o.pos < o.n if not z3.is_expr(o.n) else simp(o.pos < o.n)):
            p = o.pos
            o.pos += 1
            self.wlog.add(('iter', it.oid))
            return o.at(p if is_concrete_int(o.n) else z3.IntVal(p))
        if default is not None:
            return default
        raise PyRaise(StopIteration, note='next')

    def b_any(self, v):
        return K(self.find_first(v, True))

    def b_all(self, v):
        return K(not self.find_first(v, False))

    def find_first(self, v, want):
        from .interp import _Break

        def leaf(x):
            if self.truth(x) == want:
                raise _Break()
        if isinstance(v, Gen):
            return self.run_gen(v, leaf) == 'break'
        return self.loop(self.iter_seq(v), leaf, self) == 'break'

    def b_sorted(self, v, key=None, reverse=K(False)):
        raise Unsupported('sorted')

    def b_min(self, *a, **k):
        return self.minmax(a, k, ast.Lt())

    def b_max(self, *a, **k):
        return self.minmax(a, k, ast.Gt())

    def minmax(self, a, k, op):
        if k:
            raise Unsupported('min/max with key')
        xs = list(a) if len(a) > 1 else self.concrete_items(a[0])
        r = xs[0]
        for x in xs[1:]:
            if self.truth(self.compare(op, x, r)):
                r = x
        return r

    def b_sum(self, v, start=K(0)):
        if isinstance(v, Gen):
            # sum of 0/1 values counts
            cell = self.alloc(HInst(object, {'n': start}))
            self.run_gen(v, lambda x: self.setattr(cell, 'n', self.binop(ast.Add(), self.getattr(cell, 'n'), x)))
            return self.getattr(cell, 'n')
        xs = self.concrete_items(v)
        r = start
        for x in xs:
            r = self.binop(ast.Add(), r, x)
        return r

    def b_abs(self, v):
        v = self.conc(v)
        if isinstance(v, I):
            return I(z3.If(v.t < 0, -v.t, v.t))
        raise Unsupported('abs')

    def b_map(self, f, v):
        s = self.one_seq(v)
        r = self.alloc(HList())
        self.loop(s, lambda x: self.list_append(r, self.call(f, [x])), f)
        return r

    def b_filter(self, f, v):
        s = self.one_seq(v)
        r = self.alloc(HList())

        def leaf(x):
            if self.truth(x if isinstance(f, K) and f.v is None else self.call(f, [x])):
                self.list_append(r, x)
        self.loop(s, leaf, f)
        return r

    def b_getattr(self, o, name, default=None):
        try:
            return self.getattr(o, name.v)
        except PyRaise as e:
            if default is None or not issubclass(e.cls, AttributeError):
                raise
            return default

    def b_hasattr(self, o, name):
        try:
            self.getattr(o, name.v)
            return K(True)
        except PyRaise as e:
            if not issubclass(e.cls, AttributeError):
                raise
            return K(False)

    def b_setattr(self, o, name, v):
        self.setattr(o, name.v, v)
        return K(None)

    # ------------------------------------------------------------------ library
    def external(self, fn, args, kwargs):
        name = getattr(fn, '__qualname__', getattr(fn, '__name__', str(fn)))
        mod = getattr(fn, '__module__', '') or ''
        if mod in ('re', 'regex') and name in ('match', 'fullmatch', 'search') and len(args) == 2:
            p, s = args
            s = self.conc(s)
            if self.kind(s) != 'str':
                raise PyRaise(TypeError, note='re on non-string')
            if isinstance(p, K) and isinstance(s, K):
                return self.native(fn, p.v, s.v)
            f = {'match': th.rematch, 'fullmatch': th.F('refull', th.Str, th.Str, th.Bool), 'search': th.F('research', th.Str, th.Str, th.Bool)}[name]
            if self.branch(f(self.strterm(p), self.strterm(s))):
                return self.alloc(HInst(_re.Match, {}))
            return K(None)
        if mod == 'copy' and name == 'deepcopy' or mod == 'copy' and name == 'copy':
            return self.deepcopy(args[0], {})
        if name == 'defaultdict':
            r = self.alloc(HDict())
            if args:
                self.heap[r.oid].default_factory = args[0]
            return r
        h = self.contracts.get(('ext', name))
        if h is not None:
            return h(self, args, kwargs)
        if all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kwargs.values()) and name in ('reduce', 'compile'):
            return self.native(fn, *[a.v for a in args], **{k: a.v for k, a in kwargs.items()})
        raise Unsupported(f'call of {mod}.{name}')

    def deepcopy(self, v, memo):
        if isinstance(v, (K, I, B, S, Y, Fl, Clo, BM)):
            if isinstance(v, K) and isinstance(v.v, (list, dict, set)):
                return self.lift(v.v)
            return v
        if isinstance(v, T):
            return T([self.deepcopy(x, memo) for x in v.items])
        if isinstance(v, Sym):
            return v          # same value; a later write to it is reported as a frame violation, so sharing is not observable
        if isinstance(v, Ref):
            if v.oid in memo:
                return memo[v.oid]
            o = self.heap[v.oid]
            if isinstance(o, HList):
                r = self.alloc(HList())
                memo[v.oid] = r
                self.heap[r.oid].segs = [Items([self.deepcopy(x, memo) for x in s.vs]) if isinstance(s, Items) else
                                         Run(s.n, (lambda j, at=s.at: self.deepcopy(at(j), {}))) for s in o.segs]
                return r
            if isinstance(o, HDict):
                r = self.alloc(HDict())
                memo[v.oid] = r
                ls = []
                for l in o.layers:
                    if l[0] == 'w':
                        ls.append(('w', self.deepcopy(l[1], memo), self.deepcopy(l[2], memo)))
                    elif l[0] == 'comp':
                        c = l[1]
                        ls.append(('comp', Comp(c.n, c.key, (lambda j, val=c.val: self.deepcopy(val(j), {})), c.guard, c.find, c.tag)))
                    else:
                        ls.append(l)
                self.heap[r.oid].layers = ls
                return r
            if isinstance(o, HInst):
                r = self.alloc(HInst(o.cls))
                memo[v.oid] = r
                self.heap[r.oid].attrs = {k: self.deepcopy(x, memo) for k, x in o.attrs.items()}
                return r
            if isinstance(o, HSet):
                return self.alloc(o.copy())
        raise Unsupported('deepcopy')

    # ------------------------------------------------------------------ methods
    def method(self, o, name, args, kwargs):
        if isinstance(o, K) and all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kwargs.values()):
            if isinstance(o.v, (list, dict, set)) and name in ('append', 'extend', 'update', 'pop', 'popitem', 'clear', 'insert', 'remove', 'sort', 'add', 'setdefault', 'reverse', 'discard'):
                from .interp import FrameViolation
                raise FrameViolation(f'modifies a module-level object with {name}')
            if name in ('items', 'keys', 'values'):
                xs = list(getattr(o.v, name)())
                return SeqV(len(xs), lambda j: T([self.wrap(x) for x in xs[j]]) if name == 'items' else self.wrap(xs[j]))
            return self.wrap(self.native(getattr(o.v, name), *[a.v for a in args], **{k: a.v for k, a in kwargs.items()}).v)
        k = self.kind(o)
        m = getattr(self, f'm_{k}_{name}', None)
        if m is None:
            raise Unsupported(f'method {k}.{name}')
        return m(o, *args, **kwargs)

    def m_list_append(self, o, v):
        if not isinstance(o, Ref):
            from .interp import FrameViolation
            raise FrameViolation('append to an object of the caller')
        self.list_append(o, v)
        return K(None)

    def m_list_extend(self, o, v):
        if not isinstance(o, Ref):
            from .interp import FrameViolation
            raise FrameViolation('extend an object of the caller')
        self.list_extend(o, v)
        return K(None)

    def m_list_pop(self, o, k=None):
        if not isinstance(o, Ref):
            from .interp import FrameViolation
            raise FrameViolation('pop from an object of the caller')
        return self.list_pop(o, k)

    def m_list_copy(self, o):
        return self.b_list(o)

    def m_list_sort(self, o, key=None, reverse=None):
        """the elements in the order of their keys, which must be integers; equal ones keep their order"""
        h = self.own(o)
        if reverse is not None or len(h.segs) != 1 or not isinstance(h.segs[0], Run):
            raise Unsupported('list.sort')
        n, at = h.segs[0].n, h.segs[0].at
        kf, src, pos = self.idx_fn('key', th.Int), self.idx_fn('src', th.Int), self.idx_fn('pos', th.Int)

        def of(j):
            k = self.conc(at(j) if key is None else self.call(key, [at(j)]))
            if self.kind(k) not in ('int', 'bool'):
                raise Unsupported('sort by something other than integers')
            return self.intterm(k)
        if self.branch(self.fresh('bad', th.Bool)):
            j = self.fresh('ix', th.Int)
            self.assume(z3.And(0 <= j, j < n))
            of(j)
            raise PathDead()

        def good(j):
            try:
                self.assume(kf(j) == of(j))
            except PyRaise:
                raise PathDead()
        self.forall(n, good)
        a, b = z3.Int(f'q!{self.new_id()}'), z3.Int(f'q!{self.new_id()}')
        inr = lambda q: z3.And(0 <= q, q < n)     # noqa
        self.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(inr(src(a)), pos(src(a)) == a)), patterns=[src(a)]))
        self.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(inr(pos(a)), src(pos(a)) == a)), patterns=[pos(a)]))
        self.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), z3.And(
            kf(src(a)) <= kf(src(b)), z3.Implies(kf(src(a)) == kf(src(b)), src(a) < src(b)))), patterns=[z3.MultiPattern(src(a), src(b))]))
        c = self.fresh('q', th.Int)     # where an element went
        nid = self.nid

        def probe():
            self.assume(inr(c))
            return self.box(at(c))
        outs = self.query(probe)
        if len(outs) == 1 and outs[0].kind == 'normal' and not any(new_name(d, nid) for d in decls(outs[0].value) if not d.eq(c.decl())):
            pat = z3.substitute(outs[0].value, (c, a))
            while z3.is_app(pat) and pat.num_args() == 1 and pat.decl().name() in ('VStr', 'VInt'):
                pat = pat.arg(0)
            if is_pattern(pat, a):
                self.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(inr(pos(a)), src(pos(a)) == a)), patterns=[pat]))

        def elem(j):
            k = src(j)
            jt = j if z3.is_expr(j) else z3.IntVal(j)
            self.assume(z3.Implies(inr(jt), inr(k)))
            return at(k)
        h.segs = [Run(n, elem)]
        self.wlog.add(('list', o.oid))
        return K(None)

    def m_list_remove(self, o, v):
        raise Unsupported('list.remove')

    def m_dict_items(self, o):
        if isinstance(o, K):
            xs = list(o.v.items())
            return SeqV(len(xs), lambda j: T([self.wrap(x) for x in xs[j]]))
        return self.items_seq(o)

    def m_dict_keys(self, o):
        return self.keys_seq(o)

    def m_dict_values(self, o):
        s = self.items_seq(o)
        return SeqV(s.n, lambda j: s.at(j).items[1])

    def m_dict_get(self, o, k, default=K(None)):
        try:
            return self.getitem(o, k)
        except PyRaise as e:
            if e.cls is KeyError:
                return default
            raise

    def m_dict_update(self, o, v=None, **kw):
        if not isinstance(o, Ref):
            from .interp import FrameViolation
            raise FrameViolation('update an object of the caller')
        if v is not None:
            self.dict_update(o, v)
        for k, x in kw.items():
            self.dict_set(o, K(k), x)
        return K(None)

    def m_dict_setdefault(self, o, k, d=K(None)):
        if not isinstance(o, Ref):
            raise Unsupported('setdefault')
        if self.truth(self.mkbool(self.dict_has(o, k))):
            return self.dict_get(o, k)
        self.dict_set(o, k, d)
        return d

    def m_dict_pop(self, o, k, default=None):
        if not isinstance(o, Ref):
            from .interp import FrameViolation
            raise FrameViolation('pop from an object of the caller')
        if not self.truth(self.mkbool(self.dict_has(o, k))):
            if default is None:
                raise PyRaise(KeyError, note='pop')
            return default
        v = self.dict_get(o, k)
        self.delitem(o, k)
        return v

    def m_dict_copy(self, o):
        return self.b_dict(o)

    def m_set_add(self, o, v):
        self.set_add(o, v)
        return K(None)

    def m_set_update(self, o, *vs):
        for v in vs:
            self.set_update(o, v)
        return K(None)

    def m_set_copy(self, o):
        return self.make_set(o)

    def m_str_join(self, o, v):
        if isinstance(v, Gen):
            self.run_gen(v, lambda x: None)     # text of messages only: any string
            return S(self.fresh('joined', th.Str))
        try:
            xs = self.concrete_items(v)
        except Unsupported:
            return S(self.fresh('joined', th.Str))
        out = []
        for n, x in enumerate(xs):
            x = self.conc(x)
            if self.kind(x) != 'str':
                raise PyRaise(TypeError, note='join')
            out += ([o] if n else []) + [x]
        return self.concat(out)

    def m_str_startswith(self, o, p):
        if isinstance(o, S) and o.parts and isinstance(o.parts[0], K) and isinstance(p, K) and len(o.parts[0].v) >= len(p.v):
            return K(o.parts[0].v.startswith(p.v))
        return B(_sstarts(self.strterm(o), self.strterm(p)))

    def m_str_endswith(self, o, p):
        return B(_sends(self.strterm(o), self.strterm(p)))

    def s_fn(self, name, o, *args):
        return S(sfunc(name, 1 + len(args))(self.strterm(o), *[self.strterm(a) for a in args]))

    def m_str_lower(self, o):
        return self.s_fn('lower', o)

    def m_str_upper(self, o):
        return self.s_fn('upper', o)

    def m_str_strip(self, o, *a):
        return self.s_fn('strip', o, *a)

    def m_str_lstrip(self, o, *a):
        return self.s_fn('lstrip', o, *a)

    def m_str_rstrip(self, o, *a):
        return self.s_fn('rstrip', o, *a)

    def m_str_replace(self, o, a, b):
        return self.s_fn('replace', o, a, b)

    def m_str_format(self, o, *a, **k):
        return S(self.fresh('fmt', th.Str))
