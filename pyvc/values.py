"""Symbolic values and heap objects of the interpreter."""
import z3
from . import theory as th


class Unsupported(Exception):
    """The code leaves the subset the verifier can reason about: undecided, never a verdict."""


class PathDead(Exception):
    """The current path is infeasible."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""
    def __init__(self, cls, args=(), note=''):
        self.cls, self.vargs, self.note = cls, args, note

    def __str__(self):
        return f'{self.cls.__name__} {self.note}'


class V:
    __slots__ = ()


class K(V):
    """A concrete Python object (immutable, or a module-level object that is only read)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'K({self.v!r:.60})'


class Sym(V):
    """A Python value of unknown kind: a term of sort Val."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'Sym({self.t})'


class I(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'I({self.t})'


class B(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'B({self.t})'


class S(V):
    """A string: term of sort Str; parts, if known, is the concatenation it was built from."""
    __slots__ = ('t', 'parts')

    def __init__(self, t, parts=None):
        self.t, self.parts = t, parts

    def __repr__(self):
        return f'S({self.t})'


class Y(V):
    """bytes"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Fl(V):
    """float, (kind, real)"""
    __slots__ = ('k', 'r')

    def __init__(self, k, r):
        self.k, self.r = k, r


class T(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f'T{self.items}'


class Ref(V):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f'Ref({self.oid})'


class Clo(V):
    """A function or lambda created by interpreted code."""
    __slots__ = ('node', 'env', 'defaults', 'kwdefaults', 'name')

    def __init__(self, node, env, defaults, kwdefaults, name):
        self.node, self.env, self.defaults, self.kwdefaults, self.name = node, env, defaults, kwdefaults, name


class BM(V):
    """Bound method: builtin (name) or function."""
    __slots__ = ('obj', 'name', 'func')

    def __init__(self, obj, name, func=None):
        self.obj, self.name, self.func = obj, name, func

    def __repr__(self):
        return f'BM({self.obj},{self.name})'


class SeqV(V):
    """A read-only sequence view: n items, at(index term) -> V.  kind: 'list','gen','view','iter'"""
    __slots__ = ('n', 'at', 'kind', 'src')

    def __init__(self, n, at, kind='view', src=None):
        self.n, self.at, self.kind, self.src = n, at, kind, src


class Gen(V):
    """Lazy generator expression (node, env): consumed by any/all/join/set/list/..."""
    __slots__ = ('node', 'env')

    def __init__(self, node, env):
        self.node, self.env = node, env


class Stale(V):
    """A local that an earlier loop may have written: materialised when read."""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


# ---- heap objects ----

class Items:
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = list(vs)


class Run:
    """n elements, element j given by at(j).  src, if known: (m, guard, elem): the elements are elem(j), in order, for the j in
    [0, m) with guard(j)"""
    __slots__ = ('n', 'at', 'tag', 'src')

    def __init__(self, n, at, tag=None, src=None):
        self.n, self.at, self.tag, self.src = n, at, tag, src


class HObj:
    havoc = None        # contents at the start of the present iteration, per loop
    owner = None        # None: created by the code; 'input': belongs to the caller (must not change)


class HList(HObj):
    def __init__(self, segs=()):
        self.segs = list(segs)

    def copy(self):
        c = HList([Items(s.vs) if isinstance(s, Items) else s for s in self.segs])
        c.owner = self.owner
        c.havoc = self.havoc
        return c


class HDict(HObj):
    default_factory = None

    """Layers, later ones win: ('w', key, val) | ('del', key) | ('sym', dct term) | ('comp', Comp) | ('opt', provider)"""
    def __init__(self, layers=()):
        self.layers = list(layers)

    def copy(self):
        c = HDict(self.layers)
        c.owner = self.owner
        c.havoc = self.havoc
        c.default_factory = self.default_factory
        return c


class Comp:
    """Dict entries key(j) -> val(j) for j in [0, n) with guard(j); later indices win."""
    def __init__(self, n, key, val, guard=None, find=None, tag=None):
        self.n, self.key, self.val, self.guard, self.find, self.tag = n, key, val, guard, find, tag


class HSet(HObj):
    """parts: ('items', [V]) | ('run', n, at, guard) ; minus: list of membership tests removed"""
    def __init__(self, parts=(), minus=()):
        self.parts = list(parts)
        self.minus = list(minus)

    def copy(self):
        c = HSet([('items', list(p[1])) if p[0] == 'items' else p for p in self.parts], self.minus)
        c.owner = self.owner
        c.havoc = self.havoc
        return c


class HInst(HObj):
    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})

    def copy(self):
        c = HInst(self.cls, self.attrs)
        c.owner = self.owner
        c.havoc = self.havoc
        return c


class HIter(HObj):
    def __init__(self, n, at, pos=0):
        self.n, self.at, self.pos = n, at, pos

    def copy(self):
        c = HIter(self.n, self.at, self.pos)
        c.owner = self.owner
        c.havoc = self.havoc
        return c
