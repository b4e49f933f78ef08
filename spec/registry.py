"""The contracts of each property, discharged in parallel worker processes."""
import ast
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

from fals import common as C
from .base import Prover, TRUSTED

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property -> modules that define parts(pid) -> [(name, function of the prover)]
MODULES = {
    'C01': ['scalars'],
    'C02': ['lemmas', 'maprec'],
    'C03': ['lemmas', 'arrays'],
    'C04': ['elems'],
    'C05': ['lemmas', 'unions'],
    'C06': ['maprec', 'lemmas', 'roundtrip', 'arrays', 'elems', 'scalars'],
    'C07': ['scalars', 'elems', 'arrays', 'maprec'],
    'C08': ['history', 'scalars', 'elems', 'arrays', 'unions', 'maprec'],
    'C09': ['formats'],
    'C10': ['options'],
    'C11': ['schemacheck'],
    'C17': ['jschema'],
}
# part of these rests on the bounded falsifier, whatever the obligations say (see DESIGN.md)
PARTIAL = {'C09', 'C11'}
LIMIT = {'quick': 260, 'thorough': 700}         # wall-clock seconds of one part
TOTAL = {'quick': 480, 'thorough': 760}         # of all parts of a property


def source_digest():
    """Digest of the syntax (not the comments or layout) of the package under verification."""
    h = hashlib.sha256()
    warnings.simplefilter('ignore', SyntaxWarning)
    root = os.path.join(C.SRC, 'jadn')
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                try:
                    h.update(os.path.relpath(p, root).encode() + ast.dump(ast.parse(open(p, encoding='utf8').read())).encode())
                except SyntaxError:
                    h.update(b'?')
    return h.hexdigest()


def baseline_digest():
    try:
        return json.load(open(os.path.join(HERE, 'spec', 'baseline.json')))['digest']
    except (OSError, ValueError, KeyError):
        return None


class OutOfTime(BaseException):
    pass


def work(args):
    pid, mod, name, tier, strict, q = args

    def alarm(sig, frame):
        raise OutOfTime()
    P = Prover(pid, tier)
    P.strict = strict
    warnings.simplefilter('ignore', SyntaxWarning)
    P.deadline = time.time() + LIMIT[tier]
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT[tier] + 20)
    try:
        m = importlib.import_module('spec.' + mod)
        dict(m.parts(pid, tier))[name](P)
    except OutOfTime:
        P.add(name, 'undecided', 'pyvc', f'not finished in {LIMIT[tier]} s')
    except BaseException as e:      # noqa
        P.add(name, 'undecided', 'pyvc', f'generator error {type(e).__name__}: {e}: {traceback.format_exc()[-600:]}')
    finally:
        signal.alarm(0)
    r = P.report()
    r['part'] = name
    q.put((name, r))


def prove(pid, tier='quick'):
    if pid not in MODULES:
        return None
    t0 = time.time()
    strict = source_digest() != baseline_digest()
    jobs = []
    for mod in MODULES[pid]:
        m = importlib.import_module('spec.' + mod)
        for name, _ in m.parts(pid, tier):
            jobs.append((mod, name))
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    running, results, todo = {}, {}, list(jobs)
    while todo or running:
        while todo and len(running) < int(os.environ.get('PYVC_JOBS', 8)):
            mod, name = todo.pop(0)
            p = ctx.Process(target=work, args=((pid, mod, name, tier, strict, q),))
            p.start()
            running[name] = (p, time.time())
        try:
            name, r = q.get(timeout=1)
            results[name] = r
            running.pop(name)[0].join(5)
        except Exception:       # noqa: empty
            pass
        late = time.time() - t0 > TOTAL[tier]
        for name, (p, t) in list(running.items()):
            if late or time.time() - t > LIMIT[tier] + 60 or (not p.is_alive() and name not in results and time.time() - t > 5 and q.empty()):
                p.kill()
                p.join(5)
                running.pop(name)
                results.setdefault(name, dead(name))
        if late:
            for _, name in todo:
                results[name] = dead(name)
            todo = []
    out = dict(obligations=[], functions=set(), backends={}, solver_s=0.0, vacuity=0, assumptions=[], trusted=TRUSTED, parts={})
    for _, name in jobs:
        r = results[name]
        out['obligations'] += r['obligations']
        out['functions'] |= set(r['functions'])
        for b, n in r['backends'].items():
            out['backends'][b] = out['backends'].get(b, 0) + n
        out['solver_s'] += r['solver_s']
        out['vacuity'] += r['vacuity']
        for a in r['assumptions']:
            if a not in out['assumptions']:
                out['assumptions'].append(a)
        out['parts'][name] = dict(obligations=len(r['obligations']), discharged=sum(o['status'] == 'discharged' for o in r['obligations']), wall_s=round(r['wall_s'], 1))
        if not r['obligations']:
            out['obligations'].append(dict(name=name, status='undecided', backend='', detail='no obligation was generated', time=0))
    out['functions'] = sorted(out['functions'])
    out['wall_s'] = time.time() - t0
    out['level'] = 'proof' if pid not in PARTIAL and out['obligations'] and all(o['status'] == 'discharged' for o in out['obligations']) else 'exploration'
    return out


def dead(name):
    return dict(obligations=[dict(name=name, status='undecided', backend='pyvc', detail='time limit', time=0)], functions=[], backends={},
                solver_s=0.0, vacuity=0, assumptions=[], wall_s=0.0)
