"""C08: switching the mode leaves no trace of earlier modes (the frames of coding are with the contracts of each type)."""
from .codec import *

BASES = ('Record', 'Map', 'Array', 'Choice', 'Enumerated', 'ArrayOf', 'MapOf', 'Integer', 'Number', 'String', 'Binary', 'Boolean')
IDX = z3.Int('IDX')


def same(m, a, b, what, out, depth=0):
    """obligations of: a and b are equal (at an arbitrary index or key, chosen by a fork)"""
    a, b = m.real(a), m.real(b)
    if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
        return
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = m.heap[a.oid], m.heap[b.oid]
        if type(x) is not type(y):
            out.append((what + ' is of the same kind', z3.BoolVal(False)))
        elif isinstance(x, HInst):
            ks = sorted(set(x.attrs) | set(y.attrs))
            out.append((what + ' has the same attributes', z3.BoolVal(x.cls is y.cls and set(x.attrs) == set(y.attrs))))
            if ks:
                k = ks[m.choose(len(ks))]
                if k in x.attrs and k in y.attrs:
                    same(m, x.attrs[k], y.attrs[k], f'{what}.{k}', out, depth + 1)
        elif isinstance(x, HList):
            n1, n2 = m.list_len(x), m.list_len(y)
            out.append((what + ' has the same length', n1 == n2))
            m.assume(z3.And(0 <= IDX, IDX < n1, IDX < n2))
            same(m, m.list_at(x, IDX), m.list_at(y, IDX), what + '[]', out, depth + 1)
        elif isinstance(x, HDict):
            key = z3.Const(f'KEY{depth}', Val)
            m.assume(th.hashable(key))
            f, g = m.dict_find(x, Sym(key)), m.dict_find(y, Sym(key))
            out.append((what + ' has the same keys', z3.BoolVal((f is None) == (g is None))))
            if f is not None and g is not None:
                same(m, f(), g(), what + '[]', out, depth + 1)
        else:
            raise Unsupported('comparison')
    elif isinstance(a, Clo) and isinstance(b, Clo) or isinstance(a, BM):
        raise Unsupported('comparison of functions')
    elif isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
        for n, (p, q) in enumerate(zip(a.items, b.items)):
            same(m, p, q, f'{what}.{n}', out, depth + 1)
    elif isinstance(a, K) and isinstance(b, K):
        out.append((what + ' is the same', z3.BoolVal(a.v is b.v or type(a.v) is type(b.v) and isinstance(a.v, (int, str, float, bool)) and a.v == b.v)))
    else:
        out.append((what + ' is the same', m.box(a) == m.box(b)))


def modes(base):
    def opts(m, c):
        out = []
        if base in ('Record', 'Map', 'Choice', 'Enumerated') and m.branch(z3.Bool('has_id')):
            out.append(K('='))
        if base in ('Record', 'Map', 'Array', 'String', 'Binary', 'ArrayOf', 'MapOf'):
            out += both_sizes(m, c)
        return out

    def body(m):
        codec_body(m, base, 'enc', opts)            # constructed in one mode, then set to (VR, VS)
        c = m.ctxobj
        c.fresh = m.construct(Codec, [c.schema], {'verbose_rec': B(VR), 'verbose_str': B(VS)})
        return K(None)

    def p(m, o):
        c = m.ctxobj
        out = []
        x, y = m.heap[c.codec.oid].attrs, m.heap[c.fresh.oid].attrs
        out.append(('the codec has the same attributes', z3.BoolVal(set(x) == set(y))))
        k = sorted(x)[m.choose(len(x))]
        if k == 'symtab' and m.branch(z3.Bool('own_type')):
            same(m, m.getitem(x[k], S(tname(D))), m.getitem(y[k], S(tname(D))), 'symbol table entry', out)
        elif k in ('verbose_rec', 'verbose_str', 'schema', 'config'):
            same(m, x[k], y[k], k, out)
        return out
    p.own = True

    def run(P):
        P.assumptions.append('the constructor of Codec leaves the schema it is given unmodified as far as unfold_extensions does (C12)')
        P.contract(f'{base} mode switch', body, p)
    return (f'{base} mode switch', run)


def parts(pid, tier):
    return [modes(b) for b in BASES]
