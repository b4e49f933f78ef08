"""Finds, on every run, the current source of real function objects of the package under verification."""
import ast
import functools


class Src:
    def __init__(self, path):
        self.path = path
        with open(path, encoding='utf8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.by_line = {}
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])])
                self.by_line.setdefault(line, []).append(n)


@functools.lru_cache(None)
def load(path):
    return Src(path)


def node_of(f):
    """AST node of a Python function object."""
    code = f.__code__
    cands = load(code.co_filename).by_line.get(code.co_firstlineno, [])
    if code.co_name == '<lambda>':
        cands = [n for n in cands if isinstance(n, ast.Lambda)]
        if len(cands) > 1:
            cols = {(p[0], p[2]) for p in code.co_positions() if p[2] is not None}
            best = [n for n in cands if (n.body.lineno, n.body.col_offset) in cols]
            cands = best or cands
    else:
        cands = [n for n in cands if isinstance(n, ast.FunctionDef) and n.name == code.co_name]
    if len(cands) != 1:
        raise LookupError(f'source of {f!r}')
    return cands[0]
