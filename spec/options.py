"""C10: option strings and option dictionaries (the tables are those of the JADN specification, restated here)."""
from .util import *
from pyvc.values import Comp
from pyvc.models import _isnum, _sparse
from jadn import utils as U

# name -> (character, kind of value)
TYPE = {'id': ('=', 'flag'), 'vtype': ('*', 'text'), 'ktype': ('+', 'text'), 'enum': ('#', 'text'), 'pointer': ('>', 'text'), 'format': ('/', 'text'),
        'pattern': ('%', 'text'), 'minf': ('y', 'num'), 'maxf': ('z', 'num'), 'minv': ('{', 'int'), 'maxv': ('}', 'int'), 'unique': ('q', 'flag'),
        'set': ('s', 'flag'), 'unordered': ('b', 'flag'), 'sequence': ('o', 'flag'), 'combine': ('C', 'text'), 'extend': ('X', 'flag'), 'default': ('!', 'text')}
FIELD = {'minc': ('[', 'int'), 'maxc': (']', 'int'), 'tagid': ('&', 'int'), 'dir': ('<', 'flag'), 'key': ('K', 'flag'), 'link': ('L', 'flag')}
ALL = {**TYPE, **FIELD}
opt = F('opt', Int, Str)            # option strings


def char(j):
    return th.schar(opt(j), 0)


def text(j):
    return th.sdrop(opt(j), 1)


def is_(j, n):
    return char(j) == th.strlit(ALL[n][0])


def options(m, names, known=True):
    """a list of N options with distinct identifiers and well-formed values"""
    m.inst(N >= 0)
    j, q = z3.Int('j'), z3.Int('q')
    inr = z3.And(0 <= j, j < N)
    ax = [th.slen(opt(j)) >= 1, th.slen(char(j)) == 1]
    ax += [z3.Implies(z3.Or(*[is_(j, n) for n in ALL if ALL[n][1] == 'int']), _isnum(text(j))),
           z3.Implies(z3.Or(*[is_(j, n) for n in ALL if ALL[n][1] == 'num']), z3.And(th.fltok(text(j)), th.fltk(text(j)) == 0))]
    if known:
        ax.append(z3.Or(*[is_(j, n) for n in names]))
    m.axioms.append(z3.ForAll([j], z3.Implies(inr, z3.And(*ax)), patterns=[opt(j)]))
    m.axioms.append(z3.ForAll([j, q], z3.Implies(z3.And(inr, 0 <= q, q < N, char(j) == char(q)), j == q), patterns=[z3.MultiPattern(opt(j), opt(q))]))

    def at(j):
        j = j if z3.is_expr(j) else z3.IntVal(j)
        if not known:
            return S(opt(j))
        m.assume(z3.Implies(z3.And(0 <= j, j < N), z3.And(*ax)) if False else z3.BoolVal(True))
        return S(opt(j))
    return run(m, N, at)


def value(m, n, j):
    k = ALL[n][1]
    return K(True) if k == 'flag' else S(text(j)) if k == 'text' else I(_sparse(text(j))) if k == 'int' else Fl(z3.IntVal(0), th.fltr(text(j)))


def given(n):
    """an option of this name is at the arbitrary position POS"""
    return z3.And(0 <= POS, POS < N, is_(POS, n))


def absent(n):
    j = z3.Int('j')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), z3.Not(is_(j, n))), patterns=[opt(j)])


def ftopts(n):
    def body(m):
        c = m.ctxobj = Ctx()
        o = options(m, ALL)
        mine(m)
        c.given = m.branch(z3.Bool('given'))
        m.assume(given(n) if c.given else absent(n))
        return m.call(K(U.ftopts_s2d), [o])

    @returns
    def post(m, c, v):
        if not isinstance(v, T) or len(v.items) != 2:
            yield 'a pair is returned', z3.BoolVal(False)
            return
        a, b = v.items
        if n in TYPE:
            a, b = b, a
        yield holds(m, a, n, value(m, n, POS) if c.given else None)
        yield holds(m, b, n, None)

    def go(P):
        P.contract(f'ftopts_s2d {n}', body, post)
    return (f'ftopts_s2d {n}', go)


def topts(n):
    def body(m):
        c = m.ctxobj = Ctx()
        o = options(m, TYPE)
        mine(m)
        c.given = m.branch(z3.Bool('given'))
        m.assume(given(n) if c.given else absent(n))
        return m.call(K(U.topts_s2d), [o])

    @returns
    def post(m, c, v):
        yield holds(m, v, n, value(m, n, POS) if c.given else None)

    def go(P):
        P.contract(f'topts_s2d {n}', body, post)
    return (f'topts_s2d {n}', go)


def unknown(fn, names):
    """an option with an unknown identifier is rejected with ValueError"""
    def body(m):
        o = options(m, ALL, known=False)
        mine(m)
        m.assume(z3.And(0 <= POS, POS < N, *[z3.Not(is_(POS, n)) for n in names]))
        return m.call(K(fn), [o])

    def post(m, o):
        yield 'the list is rejected', z3.BoolVal(o.kind == 'raise')
        yield 'with ValueError', z3.BoolVal(o.kind == 'raise' and getattr(o.value, 'cls', None) is ValueError)

    def go(P):
        P.contract(f'{fn.__name__} of an unknown option', body, post)
    return (f'{fn.__name__} unknown', go)


def getx(n):
    def body(m):
        c = m.ctxobj = Ctx()
        o = options(m, ALL)
        mine(m)
        c.given = m.branch(z3.Bool('given'))
        m.assume(given(n) if c.given else absent(n))
        return m.call(K(U.get_optx), [o, K(n)])

    @returns
    def post(m, c, v):
        yield 'its position is returned', same(m, v, I(POS) if c.given else K(None))

    def go(P):
        P.contract(f'get_optx {n}', body, post)
    return (f'get_optx {n}', go)


oname, otext, oint, onum = F('oname', Int, Str), F('otext', Int, Str), F('oint', Int, Int), F('onum', Int, Real)


def named(j, n):
    return oname(j) == th.strlit(n)


def back(n):
    """each entry of the dictionary becomes one string, of which the identifier and the value can be read"""
    def body(m):
        c = m.ctxobj = Ctx()
        m.inst(N >= 0)
        j, q = z3.Int('j'), z3.Int('q')
        inr = z3.And(0 <= j, j < N)
        m.axioms.append(z3.ForAll([j], z3.Implies(inr, z3.Or(*[named(j, x) for x in ALL])), patterns=[oname(j)]))
        m.axioms.append(z3.ForAll([j, q], z3.Implies(z3.And(inr, 0 <= q, q < N, oname(j) == oname(q)), j == q), patterns=[z3.MultiPattern(oname(j), oname(q))]))

        def val(j):
            for kind, v in (('flag', K(True)), ('int', I(oint(j))), ('num', Fl(z3.IntVal(0), onum(j)))):
                if m.branch(z3.Or(*[named(j, x) for x in ALL if ALL[x][1] == kind])):
                    return v
            return S(otext(j))
        tm = lambda j: j if z3.is_expr(j) else z3.IntVal(j)     # noqa
        d = m.alloc(HDict([('comp', Comp(N, lambda j: S(oname(tm(j))), lambda j: val(tm(j)), None, None, ('options',)))]))
        mine(m)
        m.assume(z3.And(0 <= POS, POS < N, named(POS, n)))
        r = m.call(K(U.opts_d2s), [d])
        c.len = m.length(r)
        e = m.getitem(r, I(POS))
        c.first = m.getitem(e, K(0))
        rest = m.getitem(e, (K(1), None, None)) if False else m.getslice(e, ('slice', K(1), K(None), K(None)))
        k = ALL[n][1]
        c.val = rest if k == 'text' else m.call(K(int), [rest]) if k == 'int' else m.call(K(float), [rest]) if k == 'num' else rest
        return r

    @returns
    def post(m, c, v):
        k = ALL[n][1]
        yield 'one string for each entry', same(m, c.len, I(N))
        yield 'it starts with the identifier', same(m, c.first, K(ALL[n][0]))
        want = S(otext(POS)) if k == 'text' else I(oint(POS)) if k == 'int' else Fl(z3.IntVal(0), onum(POS)) if k == 'num' else K('')
        yield 'the value reads back', same(m, c.val, want)

    def go(P):
        P.contract(f'opts_d2s {n}', body, post)
    return (f'opts_d2s {n}', go)


def badname(P):
    """an unknown name is rejected with ValueError"""
    def body(m):
        m.inst(N >= 0)
        j, q = z3.Int('j'), z3.Int('q')
        m.axioms.append(z3.ForAll([j, q], z3.Implies(z3.And(0 <= j, j < N, 0 <= q, q < N, oname(j) == oname(q)), j == q), patterns=[z3.MultiPattern(oname(j), oname(q))]))
        tm = lambda j: j if z3.is_expr(j) else z3.IntVal(j)     # noqa
        d = m.alloc(HDict([('comp', Comp(N, lambda j: S(oname(tm(j))), lambda j: S(otext(tm(j))), None, None, ('options',)))]))
        mine(m)
        m.assume(z3.And(0 <= POS, POS < N, *[z3.Not(named(POS, n)) for n in ALL]))
        return m.call(K(U.opts_d2s), [d])

    def post(m, o):
        yield 'with ValueError', z3.BoolVal(o.kind == 'raise' and getattr(o.value, 'cls', None) is ValueError)
    P.contract('opts_d2s of an unknown name', body, post)


def delete(n):
    """exactly the option of this name is gone, and the others keep their order"""
    def body(m):
        c = m.ctxobj = Ctx()
        o = options(m, ALL)
        o2 = o
        c.given = m.branch(z3.Bool('given'))
        m.assume(given(n) if c.given else absent(n))
        m.call(K(U.del_opt), [o, K(n)])
        c.len = m.length(o)
        Q = c.q = z3.Int('Q')
        m.assume(z3.And(0 <= Q, Q < (N - 1 if c.given else N)))
        c.elem = m.getitem(o2, I(Q))
        return K(None)

    @returns
    def post(m, c, v):
        yield 'one option fewer', same(m, c.len, I(N - 1 if c.given else N))
        yield 'the others are as they were', same(m, c.elem, S(opt(z3.If(c.q < POS, c.q, c.q + 1) if c.given else c.q)))

    def go(P):
        P.contract(f'del_opt {n}', body, post)
    return (f'del_opt {n}', go)


RANK = {n: k for k, n in enumerate(['id', 'vtype', 'ktype', 'enum', 'pointer', 'format', 'pattern', 'minf', 'maxf', 'minv', 'maxv', 'unique', 'set', 'unordered',
                                    'sequence', 'combine', 'extend', 'default', 'minc', 'maxc', 'tagid', 'dir', 'key', 'link'])}


def rank(s):
    r = z3.IntVal(0)
    for n, k in RANK.items():
        r = z3.If(th.schar(s, 0) == th.strlit(ALL[n][0]), z3.IntVal(k), r)
    return r


def sort(P):
    def body(m):
        c = m.ctxobj = Ctx()
        o = options(m, ALL)
        m.call(K(U.opts_sort), [o])
        c.len = m.length(o)
        Q = c.q = z3.Int('Q')
        m.assume(z3.And(0 <= POS, POS < N, 0 <= Q, Q < POS))
        c.a, c.b = m.getitem(o, I(Q)), m.getitem(o, I(POS))
        c.kept = m.contains(o, S(opt(POS)))
        return K(None)

    @returns
    def post(m, c, v):
        yield 'as many options', same(m, c.len, I(N))
        yield 'every option is there', z3.BoolVal(c.kept)
        a, b = m.strterm(c.a), m.strterm(c.b)
        yield 'in canonical order', rank(a) < rank(b)
    P.contract('opts_sort', body, post)


def parts(pid, tier):
    return ([('opts_sort', sort)] + [ftopts(n) for n in ALL] + [topts(n) for n in TYPE] + [unknown(U.ftopts_s2d, ALL), unknown(U.topts_s2d, TYPE)]
            + [getx(n) for n in ALL] + [back(n) for n in ALL] + [('opts_d2s unknown', badname)] + [delete(n) for n in ALL])
