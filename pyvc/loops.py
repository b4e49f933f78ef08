"""Loops over collections of unknown length.

The body is executed once, on every path, at a symbolic index i.  Locations it modifies become functions of i
(recurrences), lists, sets and dictionaries it extends become sequences whose element j is what the body produces at
index j.  The loop then ends either normally, having taken a continuing path at every index below n, or abnormally at
some index i0 after continuing at every index below i0.  There is no bound on n.
"""
import z3
from . import theory as th
from .theory import Val
from .values import *


class Rec:
    """Summary of one loop."""
    def __init__(self, i, n, seq, body, snap, base):
        self.i, self.n, self.seq, self.body, self.snap, self.base = i, n, seq, body, snap, base
        self.vars = {}          # loc -> VarInfo
        self.objs = {}          # oid -> ObjInfo
        self.outs = []
        self.done = False
        self.id = None


class VarInfo:
    def __init__(self, loc, init):
        self.loc, self.init = loc, init
        self.fn = None          # recurrence: index term -> z3 term
        self.sort = None
        self.read = False
        self.written = None     # formula in rec.i: the iteration writes the variable


class ObjInfo:
    def __init__(self, oid, obj):
        self.oid, self.obj = oid, obj
        self.mode = None        # 'every': one element per iteration, 'some': none or one, 'never'
        self.count = None       # index term -> number of elements so far
        self.guard = None       # formula in rec.i
        self.tries = 0
        self.ext = None         # index term -> the iteration adds an element (if the loop itself asks)


class Carried(V):
    """A variable modified by a loop, at the iteration with the given index."""
    __slots__ = ('rec', 'info', 'at')

    def __init__(self, rec, info, at):
        self.rec, self.info, self.at = rec, info, at


def same_segs(a, b):
    """The same segments (copies of concrete segments are equal if their elements are)"""
    def same(x, y):
        if isinstance(x, Items) and isinstance(y, Items):
            return len(x.vs) == len(y.vs) and all(p is q for p, q in zip(x.vs, y.vs))
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'items':
            return len(x[1]) == len(y[1]) and all(p is q for p, q in zip(x[1], y[1]))
        return x is y or isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(p is q for p, q in zip(x, y))
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def sub(f, i, t):
    return z3.substitute(f, (i, t if z3.is_expr(t) else z3.IntVal(t))) if z3.is_expr(f) else f


def disj(paths):
    """Disjunction of conjunctions of facts, with the distinctions that make no difference removed."""
    lit = {}

    def key(f):
        neg = z3.is_not(f)
        a = f.arg(0) if neg else f
        lit[(a.get_id(), neg)] = f
        return (a.get_id(), neg)
    sets, order = [], []
    for p in paths:
        fs = {}
        for f in p:
            if not z3.is_true(f):
                fs.setdefault(key(f))
        order += [k for k in fs]
        s = frozenset(fs)
        if any((a, not n) in s for a, n in s):
            continue
        sets.append(s)
    pos = {}
    for k in order:
        pos.setdefault(k, len(pos))
    cur = set(sets)
    changed = True
    while changed:
        changed = False
        for s in sorted(cur, key=lambda x: (len(x), sorted(pos.get(k, 0) for k in x))):
            if s not in cur:
                continue
            for k in sorted(s, key=lambda k: -pos.get(k, 0)):
                a, n = k
                rest = s - {k}
                other = rest | {(a, not n)}
                # also when the other side has fewer conditions
                hit = next((t for t in cur if t <= other), None)
                if hit is not None and (a, not n) in hit or rest in cur:
                    cur.discard(s)
                    cur.discard(other)
                    cur.add(rest)
                    changed = True
                    break
            if changed:
                break
        small = {s for s in cur if not any(t < s for t in cur)}
        if small != cur:
            cur, changed = small, True
    out = []
    for s in sorted(cur, key=lambda x: (len(x), sorted(pos.get(k, 0) for k in x))):
        fs = [lit[k] for k in sorted(s, key=lambda k: pos[k])]
        out.append(z3.And(*fs) if len(fs) > 1 else fs[0] if fs else z3.BoolVal(True))
    if any(z3.is_true(x) for x in out):
        return z3.BoolVal(True)
    return z3.Or(*out) if len(out) > 1 else out[0] if out else z3.BoolVal(False)


def triggers(i, f):
    """Patterns for an instantiation of i: applications of a function to i itself, of a function that does not also occur
    applied to a term in which i is nested (that would make new instances from old ones without end)."""
    cand, nested, seen, todo = {}, set(), {}, [f]

    def has(t):
        k = t.get_id()
        if k not in seen:
            seen[k] = t.eq(i) or any(has(c) for c in t.children())
        return seen[k]
    done = set()
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if t.get_id() in done or not has(t):
            continue
        done.add(t.get_id())
        ch = t.children()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ch:
            name = t.decl().name()
            if all(c.eq(i) or not has(c) for c in ch):
                cand.setdefault(name, []).append(t)
            elif any(not c.eq(i) and has(c) for c in ch):
                nested.add(name)
        todo += ch
    return [t for n, ts in sorted(cand.items(), key=lambda x: '!' in x[0]) if n not in nested for t in ts]


def quantified(i, f):
    ps = triggers(i, f)
    return z3.ForAll([i], f, patterns=ps[:10]) if ps else z3.ForAll([i], f)


class LoopMixin:
    # ------------------------------------------------------------------ entry point
    def loop(self, seq, body, tag):
        """Runs body(x) for each x; returns 'break' if the loop was left by break."""
        from .interp import _Break, _Continue, is_concrete_int, as_int
        if isinstance(seq, list):           # segments
            for s in seq:
                if self.loop(s, body, tag) == 'break':
                    return 'break'
            return None
        if is_concrete_int(seq.n):
            for j in range(as_int(seq.n)):
                try:
                    body(seq.at(j))
                except _Continue:
                    pass
                except _Break:
                    return 'break'
            return None
        if seq.src is not None:             # a filtered list: over what was filtered, in the same order
            m, guard, elem = seq.src
            return self.loop(SeqV(m, lambda j: I(j)), lambda x: body(elem(x.t)) if self.branch(guard(x.t)) else None, tag)
        self.stats['loops'] += 1
        rec = self.summarise(seq, body, tag)
        cont = [o for o in rec.outs if o.kind == 'normal']
        abn = [] if self.lazy else [o for o in rec.outs if o.kind != 'normal']
        if self.lazy:
            abn = [o for o in rec.outs if o.kind in ('break', 'return')]
        k = self.choose(1 + len(abn))
        if k == 0:
            n = seq.n
            if not cont:
                self.assume(n <= 0)
                return None
            self.assume(self.all_before(rec, cont, n))
            self.setup_iter(rec, n)
            self.counter_facts(rec, n)
            return None
        o = abn[k - 1]
        i0 = self.fresh('ix', th.Int)
        self.assume(z3.And(0 <= i0, i0 < seq.n))
        self.assume(self.all_before(rec, cont, i0))
        self.counter_facts(rec, i0)
        for f in o.facts:
            if not self.has_quant(f):
                self.assume(sub(f, rec.i, i0))
        self.setup_iter(rec, i0)
        self.check_alive()
        try:
            self.replay(o.decisions, lambda: body(seq.at(i0)))
        except _Break:
            return 'break'
        except _Continue:
            pass
        if o.kind == 'normal':
            raise Unsupported('replay of a loop path')
        raise Unsupported(f'replay of a loop path ended differently ({o.kind})')

    @staticmethod
    def simp_id(f):
        from .interp import simp
        return simp(f).get_id()

    def all_before(self, rec, cont, m):
        """forall i in [0, m): some continuing path was taken at i"""
        rng = {self.simp_id(0 <= rec.i), self.simp_id(rec.i < rec.n)}
        body = disj([[f for f in list(o.facts) + list(o.value) if f.get_id() not in rng] for o in cont])
        f = z3.Implies(z3.And(0 <= rec.i, rec.i < m), body)
        f0 = [v.fn(z3.IntVal(0)) == self.raw(v.init, v.sort) for v in rec.vars.values() if v.read]
        f0 += [c.count(z3.IntVal(0)) == 0 for c in rec.objs.values() if c.mode == 'some']
        if z3.is_true(z3.simplify(body)):
            return z3.And(*f0) if f0 else z3.BoolVal(True)
        return z3.And(*f0, quantified(rec.i, f))

    # ------------------------------------------------------------------ summary
    def summarise(self, seq, body, tag):
        key = ('loop', id(tag), self.stamp())
        if key in self.memo:
            rec, nid = self.memo[key]
            self.nid = nid
            return rec
        base = self.nid
        i = z3.Int(f'i!{self.new_id()}')
        snap = self.save()
        rec = Rec(i, seq.n, seq, body, snap, base)
        rec.id = self.new_id()
        rec.key = key
        for attempt in range(10):
            st = self.nid
            self.idx.append(i)
            self.exploring.append(rec)
            try:
                outs = self.explore(lambda: self.body_once(rec, i))
            finally:
                self.idx.pop()
                self.exploring.pop()
            if self.lazy:
                outs = [o for o in outs if o.kind != 'raise']
            if self.absorb(rec, outs):
                break
        else:
            raise Unsupported('loop summary does not converge')
        rec.outs = outs
        rec.done = True
        self.counters_of(rec, outs)
        self.memo[key] = (rec, self.nid)
        return rec

    def body_once(self, rec, i):
        from .interp import _Continue
        self.assume(z3.And(0 <= i, i < rec.n))
        self.setup_iter(rec, i)
        try:
            rec.body(rec.seq.at(i))
        except _Continue:
            pass
        return self.step_equations(rec, i)

    def step_equations(self, rec, i):
        eqs = []
        for loc, v in rec.vars.items():
            if v.read:
                cur = self.frames[loc[1]].get(loc[2]) if loc[0] == 'var' else self.heap[loc[1]].attrs.get(loc[2])
                if isinstance(cur, Carried):
                    eqs.append(v.fn(i + 1) == v.fn(i))
                else:
                    try:
                        eqs.append(v.fn(i + 1) == self.raw(cur, v.sort))
                    except Unsupported:
                        if v.sort != th.Val:
                            v.sort, v.fn = th.Val, None
                            self.make_fn(v)
                            rec.redo = True
                        else:
                            raise
        for oid, c in rec.objs.items():
            d = self.added(c, oid)
            if c.mode == 'some':
                eqs.append(c.count(i + 1) == c.count(i) + d)
                if c.ext is not None:
                    eqs.append(c.ext(i) if d else z3.Not(c.ext(i)))
        return eqs

    def added(self, c, oid):
        """number of elements this iteration added to a carried container"""
        o = self.heap[oid]
        havoc = (o.havoc or {}).get(c.rec)
        if havoc is None:
            raise Unsupported('loop replaces a container')
        k = len(havoc)
        if isinstance(o, HList):
            if not same_segs(o.segs[:k], havoc):
                raise Unsupported('loop modifies a list other than by append')
            return sum(len(s.vs) if isinstance(s, Items) else 99 for s in o.segs[k:])
        if isinstance(o, HDict):
            if not same_segs(o.layers[:k], havoc):
                raise Unsupported('loop modifies a dictionary other than by adding keys')
            if any(l[0] != 'w' for l in o.layers[k:]):
                raise Unsupported('loop removes or merges dictionary entries')
            return len(o.layers) - k
        if isinstance(o, HSet):
            if not same_segs(o.parts[:k], havoc):
                raise Unsupported('loop modifies a set other than by add')
            return sum(len(p[1]) for p in o.parts[k:])
        raise Unsupported('loop modifies ' + type(o).__name__)

    def absorb(self, rec, outs):
        """Updates the carried locations from the paths found; True if the summary is stable."""
        stable = not getattr(rec, 'redo', False)
        rec.redo = False
        for o in outs:
            for w in o.wlog:
                if w[0] == 'var' and w[1] <= rec.base and w not in rec.vars:
                    if w[1] in rec.snap[1]:
                        rec.vars[w] = VarInfo(w, rec.snap[1][w[1]].get(w[2]))
                        stable = False
                elif w[0] == 'attr' and w[1] in rec.snap[0] and w not in rec.vars:
                    rec.vars[w] = VarInfo(w, rec.snap[0][w[1]].attrs.get(w[2]))
                    stable = False
                elif w[0] in ('list', 'dict', 'set') and w[1] in rec.snap[0] and w[1] not in rec.objs:
                    rec.objs[w[1]] = ObjInfo(w[1], rec.snap[0][w[1]])
                    rec.objs[w[1]].rec = rec.id
                    stable = False
                elif w[0] == 'iter' and w[1] in rec.snap[0]:
                    raise Unsupported('loop advances an outer iterator')
        if not stable:
            return False
        cont = [o for o in outs if o.kind == 'normal']
        for oid, c in rec.objs.items():
            ds = []
            for o in cont:
                saved = self.heap
                self.heap = o.state[0]
                try:
                    ds.append(self.added(c, oid))
                finally:
                    self.heap = saved
            c.added = ds
            if any(d not in (0, 1) for d in ds):
                raise Unsupported('loop adds several elements per iteration')
            mode = 'never' if not any(ds) else ('every' if all(ds) else 'some')
            c.tries += 1
            if c.tries > 3 and c.mode not in (None, mode):      # widening
                mode = 'some'
            if mode != c.mode:
                c.mode = mode
                if mode == 'some':
                    c.fn = self.idx_fn('cnt', th.Int)
                    c.count = c.fn
                else:
                    c.count = (lambda t: t) if mode == 'every' else (lambda t: z3.IntVal(0))
                stable = False
        return stable

    def idx_fn(self, name, *sorts, at=None):
        """function of the enclosing loop indices and one more"""
        name = f'{name}!{self.new_id()}'
        out = list(self.idx if at is None else at)
        f = z3.Function(name, *[th.Int] * len(out), th.Int, *sorts)
        return lambda t: f(*out, t if z3.is_expr(t) else z3.IntVal(t))

    def counters_of(self, rec, outs):
        """Which carried integers count the iterations that satisfy a condition."""
        rec.counters = []
        cont = [o for o in outs if o.kind == 'normal']
        for oid, c in rec.objs.items():
            c.guard = disj([o.facts for o, d in zip(cont, c.added) if d])
            if c.mode == 'some':
                rec.counters.append((c.count, 0, c.guard))
        for loc, v in rec.vars.items():
            v.written = disj([o.facts for o in cont if loc in o.wlog])
            v.always = all(loc in o.wlog for o in cont)
            if v.read and v.sort == th.Int and isinstance(v.init, K):
                inc, ok = [], True
                for o in cont:
                    saved = self.frames, self.heap
                    self.frames, self.heap = o.state[1], o.state[0]
                    cur = self.frames[loc[1]].get(loc[2]) if loc[0] == 'var' else self.heap[loc[1]].attrs.get(loc[2])
                    self.frames, self.heap = saved
                    if isinstance(cur, Carried):
                        continue
                    d = z3.simplify(self.intterm(cur) - v.fn(rec.i))
                    if z3.is_int_value(d) and d.as_long() == 1:
                        inc.append(o)
                    elif not (z3.is_int_value(d) and d.as_long() == 0):
                        ok = False
                if ok:
                    rec.counters.append((v.fn, v.init.v, disj([o.facts for o in inc])))

    def counter_facts(self, rec, m):
        """Lemmas on counters (count_lemmas in lemmas.py proves them by induction)."""
        for fn, c0, guard in rec.counters:
            self.count_lemma(fn(m) - c0, m, lambda t, g=guard: sub(g, rec.i, t))

    def count_lemma(self, c, m, P):
        """c = number of j in [0, m) with P(j)"""
        self.count_terms.append((c, m, P))
        w, u1, u2, w2 = (self.fresh('cw', th.Int) for _ in range(4))
        j = z3.Int(f'q!{self.new_id()}')
        rng = lambda t: z3.And(0 <= t, t < m)
        no = z3.ForAll([j], z3.Implies(rng(j), z3.Not(P(j))))
        self.assume(z3.Implies(m >= 0, z3.And(0 <= c, c <= m)))
        self.assume(z3.Implies(c > 0, z3.And(rng(w), P(w))))
        self.assume(z3.Implies(c == 0, no))
        for p in self.points:       # instances of interest
            self.assume(z3.Implies(z3.And(c == 0, rng(p)), z3.Not(P(p))))
        self.assume(z3.Implies(c == 1, z3.ForAll([j], z3.Implies(z3.And(rng(j), P(j)), j == w))))
        self.assume(z3.Implies(c >= 2, z3.And(rng(u1), P(u1), rng(u2), P(u2), u1 < u2)))
        self.assume(z3.Implies(z3.And(c == m), z3.ForAll([j], z3.Implies(rng(j), P(j)))))
        self.assume(z3.Implies(c < m, z3.And(rng(w2), z3.Not(P(w2)))))

    # ------------------------------------------------------------------ state of an iteration
    def make_fn(self, v):
        v.fn = self.idx_fn('rec_' + str(v.loc[2]), v.sort)

    def setup_iter(self, rec, t):
        """Puts the carried locations in the state they have at the start of iteration t."""
        for loc, v in rec.vars.items():
            c = Carried(rec, v, t)
            if loc[0] == 'var':
                if loc[1] in self.frames:
                    self.frames[loc[1]][loc[2]] = c
            else:
                self.heap[loc[1]].attrs[loc[2]] = c
        for oid, c in rec.objs.items():
            o = c.obj.copy()
            if c.mode in ('every', 'some'):
                if isinstance(o, HList):
                    src = None if c.mode == 'every' else (t, lambda j, c=c: sub(self.guard_of(rec, c), rec.i, j), self.elem_fn(rec, c, t, 'list', src=False))
                    o.segs.append(Run(c.count(t), self.elem_fn(rec, c, t, 'list'), ('loop', rec, oid), src))
                elif isinstance(o, HDict):
                    o.layers.append(('comp', self.carried_comp(rec, c, t)))
                elif isinstance(o, HSet):
                    g = None if c.mode == 'every' else (lambda j, c=c: sub(self.guard_of(rec, c), rec.i, j))
                    o.parts.append(('run', t, self.elem_fn(rec, c, t, 'set', src=False), g))
            o.havoc = {**(o.havoc or {}), rec.id: list(o.segs if isinstance(o, HList) else o.layers if isinstance(o, HDict) else o.parts)}
            if isinstance(o, HList):
                o.segs.append(Items([]))
            elif isinstance(o, HSet):
                o.parts.append(('items', []))
            self.heap[oid] = o

    def guard_of(self, rec, c):
        if not rec.done and c.ext is None:
            c.ext = self.idx_fn('ext', th.Bool, at=self.idx[:self.idx.index(rec.i)])
            rec.redo = True
        return c.ext(rec.i) if c.ext is not None else c.guard

    def elem_fn(self, rec, c, bound, kind, src=True):
        def at(j):
            if c.mode == 'some' and src:
                if not rec.done:
                    raise Unsupported('loop reads a list it extends conditionally')
                s = self.fresh('src', th.Int)
                self.assume(z3.And(0 <= s, s < bound, sub(c.guard, rec.i, s), c.count(s) == j))
                j = s
            st = self.at_iter(rec, j, c.oid)
            o = st[0][c.oid]
            if kind == 'list':
                vs = [x for s in o.segs[len(o.havoc[rec.id]):] for x in s.vs]
            elif kind == 'set':
                vs = [x for p in o.parts[len(o.havoc[rec.id]):] for x in p[1]]
            else:
                vs = [(l[1], l[2]) for l in o.layers[len(o.havoc[rec.id]):]]
            if len(vs) != 1:
                raise PathDead()
            return vs[0]
        at.rec = rec
        return at

    def carried_comp(self, rec, c, t):
        f = self.elem_fn(rec, c, t, 'dict', src=False)
        g = None if c.mode == 'every' else (lambda j: sub(self.guard_of(rec, c), rec.i, j))
        key = lambda j: f(j)[0]     # noqa
        key.rec = rec
        return Comp(t, key, lambda j: f(j)[1], g, None, (rec.key, c.oid, t.get_id() if z3.is_expr(t) else t, rec.done))

    def at_iter(self, rec, j, oid=None):
        """State after iteration j, which is known to have ended normally (new objects become part of the heap).
        Within the loop itself, only up to where it adds to the container oid."""
        jt = j if z3.is_expr(j) else z3.IntVal(j)
        early = oid is not None and (not rec.done or rec.id in self.replaying)
        key = ('iter', rec.id, jt.get_id(), len(self.idx), oid if early else None)
        if key in self.inst_cache:
            return self.inst_cache[key]
        from .interp import _Continue, _Break, _Return, _Stop
        self.assume(z3.And(0 <= jt, jt < rec.n))
        stop = self.stop
        self.stop = oid if early else None
        if early:
            self.abstract.append(rec)
        cur_heap, cur_frames, wl = self.heap, self.frames, self.wlog
        snap = rec.snap
        self.heap = {k: o.copy() for k, o in snap[0].items()}
        for k, o in cur_heap.items():
            if k not in self.heap:
                self.heap[k] = o
        self.frames = {k: dict(f) for k, f in snap[1].items()}
        for k, f in cur_frames.items():
            if k not in self.frames:
                self.frames[k] = f
        self.wlog = set()
        lazy, self.lazy = self.lazy, snap[4] or self.lazy
        self.replaying.append(rec.id)
        try:
            self.setup_iter(rec, jt)
            try:
                rec.body(rec.seq.at(jt))
            except (_Continue, _Stop):
                pass
            except (PyRaise, _Break, _Return):
                raise PathDead()
            st = (self.heap, self.frames, self.wlog)
        finally:
            self.heap, self.frames, self.wlog, self.lazy = cur_heap, cur_frames, wl, lazy
            self.replaying.pop()
            self.stop = stop
            if early:
                self.abstract.pop()
        for k, o in st[0].items():
            if k not in self.heap:
                self.heap[k] = o
                if o.owner is None:
                    o.owner = 'elem'
        for k, f in st[1].items():
            if k not in self.frames:
                self.frames[k] = f
        self.inst_cache[key] = st
        return st

    # ------------------------------------------------------------------ carried variables
    def raw(self, v, sort):
        if sort == th.Int:
            if isinstance(v, K) and isinstance(v.v, bool):
                raise Unsupported('kind of a loop variable')
            return self.intterm(v)
        if sort == th.Bool:
            if isinstance(v, K) and isinstance(v.v, bool):
                return z3.BoolVal(v.v)
            if isinstance(v, B):
                return v.t
            raise Unsupported('kind of a loop variable')
        if sort == th.Str:
            if isinstance(v, S) or isinstance(v, K) and isinstance(v.v, str):
                return self.strterm(v)
            raise Unsupported('kind of a loop variable')
        if isinstance(v, (Ref, T, SeqV, Clo, BM)) or v is None:
            raise Unsupported('loop variable is a container')
        return self.box(v)

    def read_carried(self, c):
        rec, v = c.rec, c.info
        if not rec.done:
            if rec not in self.exploring:
                raise Unsupported('carried variable of another loop')
            if not v.read:
                if v.init is None:
                    raise Unsupported(f'loop variable {v.loc[2]} may be unbound')
                x = v.init
                if isinstance(x, Carried):
                    x = v.init = self.read_carried(x)
                v.sort = (th.Bool if isinstance(x, K) and isinstance(x.v, bool) or isinstance(x, B) else
                          th.Int if isinstance(x, I) or isinstance(x, K) and isinstance(x.v, int) else
                          th.Str if isinstance(x, S) or isinstance(x, K) and isinstance(x.v, str) else th.Val)
                if isinstance(x, (Ref, T, Clo, BM, SeqV)):
                    raise Unsupported(f'loop variable {v.loc[2]} is a container')
                self.make_fn(v)
                v.read = True
                rec.redo = True
            return self.typed(v.fn(c.at), v.sort)
        if v.read:
            return self.typed(v.fn(c.at), v.sort)
        # value written by the last iteration before c.at that writes it
        t = c.at if z3.is_expr(c.at) else z3.IntVal(c.at)
        if v.always:
            if self.branch(t > 0):
                return self.var_after(rec, v, z3.simplify(t - 1))
        else:
            e = self.fresh('wr', th.Bool)
            if self.branch(e):
                l = self.fresh('last', th.Int)
                j = z3.Int(f'q!{self.new_id()}')
                self.assume(z3.And(0 <= l, l < t, sub(v.written, rec.i, l)))
                self.assume(z3.ForAll([j], z3.Implies(z3.And(l < j, j < t), z3.Not(sub(v.written, rec.i, j)))))
                return self.var_after(rec, v, l)
            j = z3.Int(f'q!{self.new_id()}')
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.Not(sub(v.written, rec.i, j)))))
        if v.init is None:
            raise PyRaise(UnboundLocalError, note=str(v.loc[2]))
        return self.read_carried(v.init) if isinstance(v.init, Carried) else v.init

    def var_after(self, rec, v, j):
        st = self.at_iter(rec, j)
        loc = v.loc
        x = st[1][loc[1]].get(loc[2]) if loc[0] == 'var' else st[0][loc[1]].attrs.get(loc[2])
        if isinstance(x, Carried) and x.info is v:
            raise PathDead()
        return x

    @staticmethod
    def typed(t, sort):
        return I(t) if sort == th.Int else B(t) if sort == th.Bool else S(t) if sort == th.Str else Sym(t)

    # ------------------------------------------------------------------ while
    def while_loop(self, s, env):
        from .interp import _Break, _Continue
        r = self.strip_loop(s, env)
        if r:
            return None
        for _ in range(64):
            if not self.truth(self.ev(s.test, env)):
                return None
            try:
                self.block(s.body, env)
            except _Continue:
                pass
            except _Break:
                return 'break'
        raise Unsupported('while loop')

    def strip_loop(self, s, env):
        """while <test on l>: l.pop()   with l of unknown length"""
        lists = [(oid, o) for oid, o in self.heap.items()
                 if isinstance(o, HList) and o.owner is None and any(isinstance(x, Run) for x in o.segs)]
        names = {n.id for n in __import__('ast').walk(s) if isinstance(n, __import__('ast').Name)}
        cand = []
        e = env
        while e is not None:
            for n, v in list(self.frames[e.fid].items()):
                if n in names and isinstance(v, Ref) and any(v.oid == oid for oid, _ in lists):
                    cand.append(v.oid)
            e = e.parent
        cand = list(dict.fromkeys(cand))
        if len(cand) != 1:
            return False
        oid = cand[0]
        orig = self.heap[oid]
        n0 = self.list_len(orig)
        at = lambda j: self.list_at(orig, j)
        k = z3.Int(f'k!{self.new_id()}')
        marker = Run(k + 1, at)

        def step():
            self.assume(z3.And(0 <= k, k < n0))
            self.heap[oid] = HList([marker])
            if not self.truth(self.ev(s.test, env)):
                raise PathDead()
            self.block(s.body, env)
            o = self.heap[oid]
            if self.wlog - {('list', oid)}:
                raise Unsupported('while loop with side effects')
            if len(o.segs) != 1 or not isinstance(o.segs[0], Run) or not self.implied(o.segs[0].n == k):
                raise Unsupported('while loop does not remove the last element')
            return []
        self.idx.append(k)
        try:
            outs = self.query(step)
        finally:
            self.idx.pop()
        if any(o.kind != 'normal' for o in outs):
            raise Unsupported('while loop leaves by exception')
        M = self.fresh('M', th.Int)
        self.assume(z3.And(0 <= M, M <= n0))
        rng = {self.simp_id(0 <= k), self.simp_id(k < n0)}
        cond = disj([[f for f in o.facts if f.get_id() not in rng] for o in outs])
        self.assume(z3.ForAll([k], z3.Implies(z3.And(M <= k, k < n0), cond)))
        self.assume(z3.Implies(M > 0, z3.Not(sub(cond, k, z3.simplify(M - 1)))))
        self.heap[oid] = HList([Run(M, at)])
        self.wlog.add(('list', oid))
        return True
