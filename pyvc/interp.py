"""Symbolic interpreter for the Python of /repo: turns the current source into verification conditions.

Every feasible path of a function is executed on symbolic arguments.  Branches fork; loops over collections of unknown
length are summarised by executing the body once at a symbolic index (see loops.py), with no bound on the number of
iterations.  Anything outside the supported subset raises Unsupported: the obligation is then undecided.
"""
import ast
import builtins
import copy as _copy
import dataclasses
import inspect
import numbers
import operator
import os
import re as _re
import types

import z3

from . import theory as th
from . import source
from .theory import Val
from .values import *

REPO = os.environ.get('PYVC_REPO', '/repo')
SRC = os.path.join(REPO, 'distribution', 'src')


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Stop(Exception):
    """The iteration being replayed has added its element to the container of interest."""


class FrameViolation(Exception):
    """Interpreted code modifies an object it does not own."""


class Env:
    __slots__ = ('fid', 'parent', 'glob', 'cells', 'func')

    def __init__(self, fid, parent, glob, cells=None, func=None):
        self.fid, self.parent, self.glob, self.cells, self.func = fid, parent, glob, cells, func


class Outcome:
    def __init__(self, kind, value, facts, state, wlog, decisions):
        self.kind, self.value, self.facts, self.state, self.wlog, self.decisions = kind, value, facts, state, wlog, decisions

    def __repr__(self):
        return f'<{self.kind} {self.value}>'


_HQ = {}


def has_quant(f):
    k = f.get_id()
    r = _HQ.get(k)
    if r is not None and r[1].eq(f):
        return r[0]
    seen, todo, res = set(), [f], False
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            res = True
            break
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
    _HQ[k] = (res, f)
    return res


def is_concrete_int(t):
    return isinstance(t, int) or (z3.is_expr(t) and z3.is_int_value(z3.simplify(t)))


def as_int(t):
    return t if isinstance(t, int) else z3.simplify(t).as_long()


def simp(t):
    return z3.simplify(t)


from .loops import LoopMixin, Carried        # noqa: E402
from .models import ModelMixin      # noqa: E402


class Machine(LoopMixin, ModelMixin):
    def __init__(self, feas_timeout=300, max_paths=4000):
        self.contracts = {}             # function object or (class, method name) -> handler(m, args, kwargs)
        self.feas_timeout, self.max_paths = feas_timeout, max_paths
        self.stats = dict(paths=0, feas=0, inlined={}, contracted={}, loops=0)
        self.fresh_state()
        self.init_models()

    # ---------------------------------------------------------------- state
    def fresh_state(self):
        self.heap, self.frames, self.facts = {}, {}, []
        self.ginst = []         # instances of axioms: true whatever the path
        self.axioms = []        # quantified axioms of the specification (their instances go to ginst)
        self.nid = 0
        self.idx = []
        self.wlog = set()
        self.dec, self.pos, self.prefix, self.pending = [], 0, [], []
        self.slv, self.slv_n, self.slv_lits, self.slv_g = None, 0, 0, 0
        self.lazy = False
        self.memo = {}
        self.injective = {}     # comprehension -> facts from which its keys were proved to differ
        self.depth = 0
        self.trydepth = 0
        self.inst_cache = {}
        self.stop, self.abstract, self.replaying = None, [], []
        self.points = []        # indices to instantiate quantified facts with
        self.ctx = []           # decisions of the enclosing explorations
        self.exploring = []     # loops whose body is being summarised
        self.forced = None      # decisions to replay
        self.count_terms = []

    def save(self):
        return ({k: o.copy() for k, o in self.heap.items()}, {k: dict(f) for k, f in self.frames.items()},
                list(self.facts), dict(self.inst_cache), self.lazy, list(self.count_terms), list(self.ginst))

    def restore(self, st):
        self.heap = {k: o.copy() for k, o in st[0].items()}
        self.frames = {k: dict(f) for k, f in st[1].items()}
        self.facts = list(st[2])
        self.inst_cache = dict(st[3])
        self.lazy = st[4]
        self.count_terms = list(st[5])
        self.ginst = list(st[6])

    def new_id(self):
        self.nid += 1
        return self.nid

    def alloc(self, o):
        i = self.new_id()
        self.heap[i] = o
        return Ref(i)

    def fresh(self, name, sort):
        """A fresh constant; inside a loop body a fresh function of the enclosing loop indices."""
        name = f'{name}!{self.new_id()}'
        if self.idx:
            return z3.Function(name, *[th.Int] * len(self.idx), sort)(*self.idx)
        return z3.Const(name, sort)

    def fresh_fn(self, name, *sorts):
        name = f'{name}!{self.new_id()}'
        k = len(self.idx)
        f = z3.Function(name, *[th.Int] * k, *sorts)
        return (lambda *a: f(*self_idx, *a)) if (self_idx := list(self.idx)) else f

    # ---------------------------------------------------------------- facts and branching
    has_quant = staticmethod(has_quant)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathDead()
            return
        c = simp(c) if not has_quant(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathDead()
        if z3.is_and(c):
            self.facts.extend(c.children())
        else:
            self.facts.append(c)

    def inst(self, c):
        """An instance of an axiom (of the theory or of the specification)."""
        c = simp(c)
        if not z3.is_true(c) and not any(c.eq(x) for x in self.ginst):
            self.ginst.append(c)

    def solver(self):
        if self.slv is None:
            self.slv = z3.Solver()
            self.slv.set('timeout', self.feas_timeout)
            self.slv_n, self.slv_lits, self.slv_g = 0, 0, 0
        for f in self.ginst[self.slv_g:]:
            self.slv.add(f)
        self.slv_g = len(self.ginst)
        lits = th.ground_axioms()
        if len(lits) > self.slv_lits:
            for a in lits[self.slv_lits:]:
                self.slv.add(a)
            self.slv_lits = len(lits)
        for f in self.facts[self.slv_n:]:
            if not has_quant(f):
                self.slv.add(f)
        self.slv_n = len(self.facts)
        return self.slv

    def feasible(self, c):
        self.stats['feas'] += 1
        s = self.solver()
        s.push()
        s.add(c)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.forced is not None:
            d = self.next_forced()
            if d < 2:
                self.assume(c if d else z3.Not(c))
            return bool(d & 1)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                self.pending.append(self.dec + [0])
                d = 1
            else:
                d = 3 if t else 2       # implied by what is known: adds nothing to the path condition
        self.dec.append(d)
        self.pos += 1
        if d < 2:
            self.assume(c if d else z3.Not(c))
        return bool(d & 1)

    def implied(self, c):
        """True if the quantifier-free facts imply c (no fork)."""
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z3.Not(c))

    def stamp(self):
        """Identifies the present point of the execution: the same stamp is the same state."""
        f = () if self.forced is None else tuple(self.forced[0][:self.forced[1]])
        return (self.nid, tuple(self.dec), tuple(self.ctx), f, tuple(x.get_id() for x in self.idx), self.lazy)

    def choose(self, n):
        if n == 1:
            return 0
        if self.forced is not None:
            return self.next_forced()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.pending.append(self.dec + [k])
            d = 0
        self.dec.append(d)
        self.pos += 1
        return d

    def next_forced(self):
        ds, p = self.forced
        if p >= len(ds):
            raise Unsupported('replay diverges')
        self.forced[1] += 1
        return ds[p]

    def replay(self, decisions, body):
        old, self.forced = self.forced, [decisions, 0]
        try:
            body()
        finally:
            self.forced = old

    def check_alive(self):
        if not self.feasible(z3.BoolVal(True)):
            raise PathDead()

    def query(self, fn):
        """explore, remembering the outcomes at the same point of the execution"""
        key = ('q', self.new_id(), self.stamp())
        if key in self.memo:
            outs, self.nid = self.memo[key]
            return outs
        outs = self.explore(fn)
        self.memo[key] = (outs, self.nid)
        return outs

    def explore(self, body):
        """Execute body on every feasible path from the current state; the state afterwards is the one before."""
        base = self.save()
        orig = (self.heap, self.frames, self.facts, self.inst_cache, self.lazy, self.count_terms, self.ginst)
        saved = (self.dec, self.pos, self.prefix, self.pending, self.wlog, self.forced)
        nid = top = self.nid
        nfacts = len(self.facts)
        outs = []
        self.ctx.append((tuple(self.dec), nid))
        self.forced = None
        todo = [[]]
        try:
            while todo:
                self.prefix = todo.pop()
                self.dec, self.pos, self.pending = [], 0, []
                self.restore(base)
                self.nid = nid          # names are reproducible: a function of the decisions taken
                self.slv, self.slv_n, self.slv_lits, self.slv_g = None, 0, 0, 0
                self.wlog = set()
                self.stats['paths'] += 1
                try:
                    try:
                        v = body()
                        kind = 'normal'
                    except PyRaise as e:
                        kind, v = 'raise', e
                    except _Return as e:
                        kind, v = 'return', e.v
                    except _Break:
                        kind, v = 'break', None
                    except _Continue:
                        kind, v = 'normal', None
                    except FrameViolation as e:
                        kind, v = 'frame', str(e)
                    outs.append(Outcome(kind, v, self.facts[nfacts:], self.save(), self.wlog, list(self.dec)))
                    outs[-1].ctx = getattr(self, 'ctxobj', None)
                except PathDead:
                    pass
                top = max(top, self.nid)
                todo.extend(self.pending)
                if len(outs) + len(todo) > self.max_paths:
                    raise Unsupported(f'more than {self.max_paths} paths')
        finally:
            self.ctx.pop()
            # the same objects as before: callers may hold references to them (paths worked on copies)
            self.heap, self.frames, self.facts, self.inst_cache, self.lazy, self.count_terms, self.ginst = orig
            self.dec, self.pos, self.prefix, self.pending, self.wlog, self.forced = saved
            self.slv, self.slv_n, self.slv_lits, self.slv_g = None, 0, 0, 0
            self.nid = top
        return outs

    # ---------------------------------------------------------------- boxing
    def strterm(self, v):
        if isinstance(v, K) and isinstance(v.v, str):
            return th.strlit(v.v)
        if isinstance(v, S):
            if v.t is None:
                t = None
                for p in v.parts:
                    x = self.strterm(p)
                    t = x if t is None else th.scat(t, x)
                v.t = t if t is not None else th.strlit('')
            return v.t
        if isinstance(v, Sym):
            return Val.sv(v.t)
        raise Unsupported(f'string term of {v}')

    def intterm(self, v):
        if isinstance(v, K) and isinstance(v.v, bool):
            return z3.IntVal(int(v.v))
        if isinstance(v, K) and isinstance(v.v, int):
            return z3.IntVal(v.v)
        if isinstance(v, I):
            return v.t
        if isinstance(v, B):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f'integer term of {v}')

    def box(self, v):
        """Term of sort Val for a value (containers are reified with facts about their present contents)."""
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, S):
            return Val.VStr(self.strterm(v))
        if isinstance(v, I):
            return Val.VInt(v.t)
        if isinstance(v, B):
            return Val.VBool(v.t)
        if isinstance(v, Y):
            return Val.VByt(v.t)
        if isinstance(v, Fl):
            return Val.VFlt(v.k, v.r)
        if isinstance(v, K):
            x = v.v
            if x is None:
                return th.VNone
            if isinstance(x, bool):
                return Val.VBool(x)
            if isinstance(x, int):
                return Val.VInt(x)
            if isinstance(x, float):
                return Val.VFlt(*self.float_parts(x))
            if isinstance(x, str):
                return Val.VStr(th.strlit(x))
            if isinstance(x, bytes):
                return Val.VByt(th.bytlit(x))
            if isinstance(x, (list, tuple, dict, set, frozenset)):
                return self.box(self.lift(x))
            return Val.VOth(z3.Const(f'oth!{id(x)}', th.Oth))
        if isinstance(v, T):
            l = self.fresh('tup', th.Lst)
            self.assume(th.llen(l) == len(v.items))
            for j, x in enumerate(v.items):
                self.assume(th.lat(l, j) == self.box(x))
            return Val.VTup(l)
        if isinstance(v, Ref):
            o = self.heap[v.oid]
            if isinstance(o, HList):
                return Val.VLst(self.reify_list(o.segs))
            if isinstance(o, HDict):
                return Val.VDct(self.reify_dict(v))
            return Val.VOth(self.fresh('oth', th.Oth))
        if isinstance(v, SeqV):
            return Val.VLst(self.reify_list([Run(v.n, v.at)]))
        if isinstance(v, Stale):
            return self.box(self.real(v))
        return Val.VOth(self.fresh('oth', th.Oth))

    @staticmethod
    def float_parts(x):
        if x != x:
            return z3.IntVal(1), z3.RealVal(0)
        if x in (float('inf'), float('-inf')):
            return z3.IntVal(2 if x > 0 else 3), z3.RealVal(0)
        from fractions import Fraction
        f = Fraction(x)
        return z3.IntVal(0), z3.Q(f.numerator, f.denominator)

    def reify_list(self, segs):
        l = self.fresh('lst', th.Lst)
        off = z3.IntVal(0)
        for s in segs:
            if isinstance(s, Items):
                for x in s.vs:
                    self.assume(th.lat(l, simp(off)) == self.box(x))
                    off = simp(off + 1)
            else:
                self.reify_run(s, lambda j, off=off: th.lat(l, simp(j + off)), lambda j: th.lat(l, j), off)
                off = simp(off + s.n)
        self.assume(th.llen(l) == off)
        return l

    def reify_run(self, run, dst, dst0, off):
        """forall j in [0, n): dst(j) == box(at(j)), with the case split of at(j) inside the quantifier"""
        j = z3.Int(f'q!{self.new_id()}')
        o2 = simp(off)
        shift = not (z3.is_int_value(o2) and o2.as_long() == 0)
        self.idx.append(j)
        try:
            def one():
                self.assume(z3.And(0 <= j, j < run.n))
                t = self.box(run.at(j))
                return t
            outs = self.query(one)
        finally:
            self.idx.pop()
        disj = []
        for o in outs:
            if o.kind != 'normal':
                continue
            extra = [f for f in o.facts]
            disj.append(z3.And(*extra, dst(j) == o.value))
        if not disj:
            self.assume(run.n <= 0)
            return
        body = z3.Implies(z3.And(0 <= j, j < run.n), z3.Or(*disj) if len(disj) > 1 else disj[0])
        self.assume(z3.ForAll([j], body, patterns=[dst(j)]) if not shift else z3.ForAll([j], body))
        if shift:
            k = z3.Int(f'q!{self.new_id()}')
            b2 = z3.substitute(body, (j, k - o2))
            self.assume(z3.ForAll([k], b2, patterns=[dst0(k)]))

    def reify_dict(self, ref):
        """A Dct term with the same membership and values as the heap dict."""
        o = self.heap[ref.oid]
        if len(o.layers) == 1 and o.layers[0][0] == 'sym':
            return o.layers[0][1]
        d = self.fresh('dct', th.Dct)
        k = z3.Const(f'k!{self.new_id()}', Val)
        j = z3.Int(f'q!{self.new_id()}')
        has = z3.BoolVal(False)
        for lay in o.layers:
            if lay[0] == 'w':
                kt = th.knorm(self.box(lay[1]))
                has = z3.Or(has, k == kt)
            elif lay[0] == 'del':
                kt = th.knorm(self.box(lay[1]))
                has = z3.And(has, k != kt)
            elif lay[0] == 'sym':
                has = z3.Or(has, th.dhas(lay[1], k))
            elif lay[0] == 'comp':
                has = z3.Or(has, self.comp_member(lay[1], k))
            else:
                raise Unsupported('reify option dictionary')
        self.assume(z3.ForAll([k], th.dhas(d, k) == has, patterns=[th.dhas(d, k)]))
        # values
        over = []       # terms that override lower layers
        for lay in reversed(o.layers):
            if lay[0] == 'w':
                kt = th.knorm(self.box(lay[1]))
                self.assume(z3.Implies(z3.And(*[kt != x for x in over]), z3.And(th.dhas(d, kt), th.dget(d, kt) == self.box(lay[2]))))
                over.append(kt)
            elif lay[0] == 'del':
                over.append(th.knorm(self.box(lay[1])))
            elif lay[0] == 'sym':
                if over or lay is not o.layers[0]:
                    raise Unsupported('reify merged dictionary')
                self.assume(z3.ForAll([k], th.dget(d, k) == th.dget(lay[1], k), patterns=[th.dget(d, k)]))
            elif lay[0] == 'comp':
                c = lay[1]
                if not self.comp_injective(c):
                    raise Unsupported('reify dictionary with colliding keys')
                if over or lay is not o.layers[0]:
                    raise Unsupported('reify merged dictionary')
                self.idx.append(j)
                try:
                    def one():
                        self.assume(z3.And(0 <= j, j < c.n))
                        if c.guard is not None:
                            self.assume(c.guard(j))
                        kv = th.knorm(self.box(c.key(j)))
                        return kv, self.box(c.val(j))
                    outs = self.query(one)
                finally:
                    self.idx.pop()
                for q in outs:
                    if q.kind != 'normal':
                        continue
                g = [z3.And(*q.facts, th.dget(d, q.value[0]) == q.value[1], th.dhas(d, q.value[0])) for q in outs if q.kind == 'normal']
                pre = z3.And(0 <= j, j < c.n) if c.guard is None else z3.And(0 <= j, j < c.n, c.guard(j))
                self.assume(z3.ForAll([j], z3.Implies(pre, z3.Or(*g) if len(g) > 1 else g[0])))
                if len(o.layers) == 1 and c.guard is None:
                    self.assume(th.dcard(d) == c.n)
                    self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.n), th.knorm(th.dkey(d, j)) == outs[0].value[0])) if len(outs) == 1 else z3.BoolVal(True))
                over = None
        if all(l[0] == 'w' for l in o.layers):
            n = self.dict_len_const(o)
            if n is not None:
                self.assume(th.dcard(d) == n)
                for i, lay in enumerate(o.layers):
                    if n == len(o.layers):
                        self.assume(th.dkey(d, i) == self.box(lay[1]))
        return d

    def lift(self, x):
        """Copy of a concrete container as fresh heap objects."""
        if isinstance(x, list):
            return self.alloc(HList([Items([self.lift(y) for y in x])]))
        if isinstance(x, dict):
            return self.alloc(HDict([('w', self.lift(k), self.lift(y)) for k, y in x.items()]))
        if isinstance(x, tuple):
            return T([self.lift(y) for y in x])
        if isinstance(x, (set, frozenset)):
            return self.alloc(HSet([('items', [self.lift(y) for y in sorted(x, key=repr)])]))
        return K(x)

    # ---------------------------------------------------------------- names
    def lookup(self, name, env):
        e = env
        while e is not None:
            fr = self.frames[e.fid]
            if name in fr:
                v = fr[name]
                if isinstance(v, Stale):
                    v = self.frames[e.fid][name] = self.real(v)
                if isinstance(v, Carried):
                    v = self.read_carried(v)
                return v
            if e.cells and name in e.cells:
                return self.wrap(e.cells[name])
            glob = e.glob
            e = e.parent
        if name in glob:
            return self.wrap(glob[name])
        if hasattr(builtins, name):
            return K(getattr(builtins, name))
        raise PyRaise(NameError, note=name)

    def wrap(self, x):
        return x if isinstance(x, V) else K(x)

    def setvar(self, name, v, env):
        self.frames[env.fid][name] = v
        self.wlog.add(('var', env.fid, name))

    def new_env(self, parent, glob, cells=None, func=None):
        fid = self.new_id()
        self.frames[fid] = {}
        return Env(fid, parent, glob, cells, func)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} line {s.lineno}')
        return m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            self.setvar(a.asname or a.name.split('.')[0], K(mod if a.asname else importlib.import_module(a.name.split('.')[0])), env)

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else K(None))

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise(AssertionError, note=f'line {s.lineno}')

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = self.frames[env.fid].get('$exc')
            e = env
            while cur is None and e.parent is not None:
                e = e.parent
                cur = self.frames[e.fid].get('$exc')
            if cur is None:
                raise PyRaise(RuntimeError, note='no active exception')
            raise cur.v
        v = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(v, K) and inspect.isclass(v.v):
            raise PyRaise(v.v, note=f'line {s.lineno}')
        if isinstance(v, Ref) and isinstance(self.heap[v.oid], HInst):
            raise PyRaise(self.heap[v.oid].cls, (v,), note=f'line {s.lineno}')
        raise Unsupported('raise')

    def s_Try(self, s, env):
        def run():
            self.trydepth += 1
            try:
                try:
                    self.block(s.body, env)
                finally:
                    self.trydepth -= 1
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        c = self.ev(h.type, env)
                        cs = [x.v for x in c.items] if isinstance(c, T) else (list(c.v) if isinstance(c.v, tuple) else [c.v])
                        ok = any(issubclass(e.cls, x) for x in cs)
                    if ok:
                        if h.name:
                            self.setvar(h.name, self.exc_object(e), env)
                        old = self.frames[env.fid].get('$exc')
                        self.frames[env.fid]['$exc'] = K(e)
                        self.block(h.body, env)
                        if old is None:
                            self.frames[env.fid].pop('$exc', None)
                        else:
                            self.frames[env.fid]['$exc'] = old
                        return
                raise
            self.block(s.orelse, env)
        if not s.finalbody:
            return run()
        try:
            run()
        except (PyRaise, _Return, _Break, _Continue):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def exc_object(self, e):
        if e.vargs and isinstance(e.vargs[0], Ref):
            return e.vargs[0]
        return self.alloc(HInst(e.cls, {'args': T([])}))

    def s_FunctionDef(self, s, env):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
            pass
        self.setvar(s.name, self.closure(s, env, s.name), env)

    def closure(self, node, env, name):
        a = node.args
        return Clo(node, env, [self.ev(d, env) for d in a.defaults],
                   {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, name)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, env)
            v = self.inplace(s.op, cur, self.ev(s.value, env))
            self.setvar(s.target.id, v, env)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            k = self.ev_slice(s.target.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, cur, self.ev(s.value, env)))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.inplace(s.op, cur, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        if isinstance(op, ast.Add) and isinstance(cur, Ref) and isinstance(self.heap[cur.oid], HList):
            self.list_extend(cur, v)
            return cur
        if isinstance(op, ast.BitOr) and isinstance(cur, Ref) and isinstance(self.heap[cur.oid], HSet):
            self.set_update(cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.concrete_items(v)
                k, after = star[0], len(t.elts) - star[0] - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise(ValueError, note='unpack')
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, self.alloc(HList([Items(items[k:len(items) - after])])), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_slice(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev_slice(t.slice, env))
            elif isinstance(t, ast.Name):
                self.frames[env.fid].pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_For(self, s, env):
        seq = self.iter_seq(self.ev(s.iter, env))

        def body(x):
            self.assign(s.target, x, env)
            self.block(s.body, env)
        if self.loop(seq, body, s) != 'break':
            self.block(s.orelse, env)

    def s_While(self, s, env):
        if self.while_loop(s, env) != 'break':
            self.block(s.orelse, env)

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)

    def s_Global(self, s, env):
        raise Unsupported('global')

    # ---------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} line {e.lineno}')
        return m(e, env)

    def e_Constant(self, e, env):
        return K(e.value)

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        # a walrus inside a comprehension binds in the enclosing function
        t = env
        while t.func == '<comp>':
            t = t.parent
        self.setvar(e.target.id, v, t)
        return v

    def e_Tuple(self, e, env):
        return T(self.elts(e.elts, env))

    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = self.alloc(HList())
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(r, self.ev(x.value, env))
                else:
                    self.list_append(r, self.ev(x, env))
            return r
        return self.alloc(HList([Items(self.elts(e.elts, env))]))

    def e_Set(self, e, env):
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            return self.make_set(self.ev(e.elts[0].value, env))
        return self.alloc(HSet([('items', self.elts(e.elts, env))]))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        r = self.alloc(HDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.dict_set(r, kk, self.ev(v, env))
        return r

    def e_JoinedStr(self, e, env):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(K(p.value))
            else:
                v = self.ev(p.value, env)
                if p.format_spec is not None:
                    raise Unsupported('format spec')
                parts.append(self.to_str(v, repr_=p.conversion == 114))
        return self.concat(parts)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i < len(e.values) - 1 and self.truth(v) != is_and:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return K(not self.truth(v))
        if isinstance(v, K):
            return self.native({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)], v.v)
        if isinstance(e.op, ast.USub) and isinstance(v, I):
            return I(-v.t)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(r, env)
            c = self.compare(op, l, r)
            if i == len(e.ops) - 1:
                return c
            if not self.truth(c):
                return K(False)
            l = r

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev_slice(e.slice, env))

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: self.ev(x, env) if x is not None else K(None)
            a, b, c = g(s.lower), g(s.upper), g(s.step)
            if all(isinstance(x, K) for x in (a, b, c)):
                return K(slice(a.v, b.v, c.v))
            return ('slice', a, b, c)
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.ev_slice(e, env)

    def e_Lambda(self, e, env):
        return self.closure(e, env, '<lambda>')

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kwargs, star = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('** in call')
            kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs)

    # comprehensions
    def comp_env(self, env):
        return self.new_env(env, env.glob, None, '<comp>')

    def run_comp(self, gens, env, leaf, first=None):
        """Runs leaf() for every combination; generators nested left to right."""
        g, rest = gens[0], gens[1:]
        seq = self.iter_seq(first if first is not None else self.ev(g.iter, env))

        def body(x):
            self.assign(g.target, x, env)
            for c in g.ifs:
                if not self.truth(self.ev(c, env)):
                    return
            if rest:
                self.run_comp(rest, env, leaf)
            else:
                leaf()
        return self.loop(seq, body, g)

    def lazy_ok(self, e):
        return self.lazy and len(e.generators) == 1 and not e.generators[0].ifs

    def e_ListComp(self, e, env):
        ce = self.comp_env(env)
        first = self.ev(e.generators[0].iter, env)
        if self.lazy_ok(e):
            seq = self.iter_seq(first)
            if not isinstance(seq, list) and not is_concrete_int(seq.n):
                at = self.lazy_fn(e.generators[0].target, [e.elt], ce, seq)
                return self.alloc(HList([Run(seq.n, lambda j: at(j)[0])]))
        r = self.alloc(HList())
        self.run_comp(e.generators, ce, lambda: self.list_append(r, self.ev(e.elt, ce)), first)
        return r

    def e_SetComp(self, e, env):
        ce = self.comp_env(env)
        first = self.ev(e.generators[0].iter, env)
        r = self.alloc(HSet())
        self.run_comp(e.generators, ce, lambda: self.set_add(r, self.ev(e.elt, ce)), first)
        return r

    def e_DictComp(self, e, env):
        ce = self.comp_env(env)
        first = self.ev(e.generators[0].iter, env)
        if self.lazy_ok(e):
            seq = self.iter_seq(first)
            if not isinstance(seq, list) and not is_concrete_int(seq.n):
                kat = self.lazy_fn(e.generators[0].target, [e.key], ce, seq)
                vat = self.lazy_fn(e.generators[0].target, [e.key, e.value], ce, seq)
                return self.alloc(HDict([('comp', Comp(seq.n, lambda j: kat(j)[0], lambda j: vat(j)[1], tag=(id(e), self.stamp())))]))
        r = self.alloc(HDict())

        def leaf():
            k = self.ev(e.key, ce)
            self.dict_set(r, k, self.ev(e.value, ce))
        self.run_comp(e.generators, ce, leaf, first)
        return r

    def e_GeneratorExp(self, e, env):
        return Gen(e, env)

    def run_gen(self, g, leaf):
        """Consume a generator expression: leaf(value) for each element; leaf may raise _Break."""
        ce = self.comp_env(g.env)
        return self.run_comp(g.node.generators, ce, lambda: leaf(self.ev(g.node.elt, ce)))

    def lazy_fn(self, target, exprs, ce, seq):
        """Elements of a comprehension evaluated on demand, in the state the comprehension was evaluated in.
        Used only while a constructor is assumed to succeed: paths on which an element raises are excluded."""
        snap = self.save()
        tag = self.new_id()

        def at(j):
            jt = j if z3.is_expr(j) else z3.IntVal(j)
            key = ('lazy', tag, len(exprs), jt.get_id(), len(self.idx))
            if key in self.inst_cache:
                return self.inst_cache[key][0]
            cur_heap, cur_frames, wl, lazy = self.heap, self.frames, self.wlog, self.lazy
            self.heap = {k: o.copy() for k, o in snap[0].items()}
            self.frames = {k: dict(f) for k, f in snap[1].items()}
            for k, o in cur_heap.items():
                self.heap.setdefault(k, o)
            for k, o in cur_frames.items():
                self.frames.setdefault(k, o)
            self.wlog, self.lazy = set(), True
            base = self.nid
            try:
                self.assign(target, seq.at(jt), ce)
                vs = [self.ev(x, ce) for x in exprs]
                for w in self.wlog:
                    if w[1] <= base and w[1] != ce.fid:
                        raise Unsupported('comprehension with side effects')
            except PyRaise:
                raise PathDead()
            finally:
                heap, frames = self.heap, self.frames
                self.heap, self.frames, self.wlog, self.lazy = cur_heap, cur_frames, wl, lazy
            for k, o in heap.items():
                if k not in self.heap:
                    self.heap[k] = o
                    if o.owner is None:
                        o.owner = 'elem'
            for k, o in frames.items():
                self.frames.setdefault(k, o)
            self.inst_cache[key] = (vs, jt)
            return vs
        return at

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if self.depth > 60:
            raise Unsupported('call depth')
        self.depth += 1
        try:
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Clo):
            return self.apply(f.node, f.env, f.defaults, f.kwdefaults, args, kwargs, f.env.glob, None, f.name)
        if isinstance(f, BM):
            if f.func is not None:
                return self._call(f.func, [f.obj] + list(args), kwargs)
            return self.method(f.obj, f.name, args, kwargs)
        if isinstance(f, K):
            fn = f.v
            if isinstance(fn, types.MethodType):
                return self._call(K(fn.__func__), [self.wrap(fn.__self__)] + list(args), kwargs)
            try:
                h = self.contracts.get(fn)
            except TypeError:
                h = None
            if h is not None:
                name = getattr(fn, '__qualname__', str(fn))
                self.stats['contracted'][name] = self.stats['contracted'].get(name, 0) + 1
                return h(self, args, kwargs)
            if isinstance(fn, types.FunctionType):
                return self.inline(fn, args, kwargs)
            if inspect.isclass(fn):
                return self.construct(fn, args, kwargs)
            if callable(fn):
                return self.builtin(fn, args, kwargs)
            raise PyRaise(TypeError, note='not callable')
        if isinstance(f, Sym):
            raise Unsupported('call of a symbolic value')
        raise Unsupported(f'call of {f}')

    def in_repo(self, fn):
        return fn.__code__.co_filename.startswith(SRC)

    def inline(self, fn, args, kwargs):
        if not self.in_repo(fn):
            return self.external(fn, args, kwargs)
        name = f'{fn.__module__}.{fn.__qualname__}'
        self.stats['inlined'][name] = self.stats['inlined'].get(name, 0) + 1
        node = source.node_of(fn)
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                cells[n] = c.cell_contents
        kwd = {k: K(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        return self.apply(node, None, [K(d) for d in fn.__defaults__ or ()], kwd, args, kwargs, fn.__globals__, cells, fn.__name__)

    def apply(self, node, parent, defaults, kwdefaults, args, kwargs, glob, cells, name):
        env = self.new_env(parent, glob, cells, name)
        fr = self.frames[env.fid]
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for n, v in zip(names, args):
            fr[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, note=f'{name}: too many arguments')
            fr[a.vararg.arg] = T(args[len(names):])
        elif a.vararg is not None:
            fr[a.vararg.arg] = T([])
        kw = dict(kwargs)
        for n in names[len(args):]:
            if n in kw:
                fr[n] = kw.pop(n)
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in fr:
                fr[n] = d
        for x in a.kwonlyargs:
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                fr[x.arg] = kwdefaults[x.arg]
        if kw:
            if a.kwarg is None:
                raise PyRaise(TypeError, note=f'{name}: unexpected argument {list(kw)}')
            fr[a.kwarg.arg] = self.alloc(HDict([('w', K(k), v) for k, v in kw.items()]))
        elif a.kwarg is not None:
            fr[a.kwarg.arg] = self.alloc(HDict())
        missing = [n for n in names if n not in fr]
        if missing:
            raise PyRaise(TypeError, note=f'{name}: missing {missing}')
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            raise Unsupported(f'generator function {name}')
        try:
            self.block(node.body, env)
        except _Return as r:
            return r.v
        return K(None)

    def native(self, fn, *a, **k):
        """Run a concrete operation in CPython."""
        try:
            return K(fn(*a, **k))
        except Exception as e:      # noqa: the interpreted program sees the exception
            raise PyRaise(type(e), note=f'native {e}')
