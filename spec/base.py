"""Obligations: contracts over the paths the interpreter finds in the current source, discharged by z3 and cvc5."""
import os
import subprocess
import sys
import tempfile
import time
import traceback

import z3

from fals import common as C        # noqa: F401  (import path of the package under verification)
from pyvc import theory as th
from pyvc.interp import Machine, FrameViolation, PathDead, has_quant
from pyvc.values import *
from pyvc.theory import Val

TRUSTED = [
    'pyvc/interp.py, loops.py, models.py: the verification condition generator (semantics of the supported Python subset)',
    'pyvc/theory.py: first-order theory of Python values',
    'z3 and cvc5',
    'CPython for the evaluation of module-level code (tables, dataclass definitions) the functions refer to',
]


class Obl(dict):
    pass


def conjuncts(g):
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    return [g]


class Prover:
    def __init__(self, pid, tier='quick', only=None):
        self.pid, self.tier, self.only = pid, tier, only
        self.obls, self.functions, self.backends = [], {}, {}
        self.solver_s, self.vacuity = 0.0, 0
        self.assumptions = []
        self.t0 = time.time()
        self.timeout = int(os.environ.get('PYVC_TIMEOUT', 20000 if tier == 'quick' else 60000))
        self.current = ''
        self.strict = False      # the source differs from the one these contracts were written for
        self.deadline = None
        self.nfail = 0
        self.share = (0, 1)      # this prover takes the paths i with i % share[1] == share[0]

    # ------------------------------------------------------------ discharge
    def check(self, facts, goal, timeout=None):
        """('discharged'|'failed'|'undecided', backend, detail)"""
        t0 = time.time()
        timeout = timeout or self.timeout
        if self.nfail:
            timeout = min(timeout, 3000)
        if self.deadline is not None:
            left = self.deadline - time.time()
            if left < 1 or self.nfail > 6:
                return 'undecided', 'pyvc', 'not attempted: time budget' if left < 1 else 'not attempted: other obligations failed'
            timeout = int(min(timeout, left * 1000))
        try:
            base = th.axioms() + th.ground_axioms()
            # instantiation by patterns only, then with models
            saturated = None
            plain = {'smt.mbqi': False, 'smt.auto_config': False}
            for opts in (dict(plain, timeout=min(timeout, 3000)), dict(plain, timeout=min(timeout, 6000), **{'smt.case_split': 3}), {'timeout': timeout}):
                s = z3.Solver()
                for k, v in opts.items():
                    s.set(k, v)
                for f in base + list(facts):
                    s.add(f)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    return 'discharged', 'z3', ''
                if self.strict and r == z3.unknown and 'incomplete' in s.reason_unknown():
                    # no instance of any quantified fact is left that contradicts the goal's negation
                    saturated = s.reason_unknown()
            if r == z3.sat:
                return 'failed', 'z3', 'countermodel: ' + str(s.model())[:1500]
            reason = s.reason_unknown()
            r2 = self.cvc5(s, min(timeout, 10000))
            if r2 == 'unsat':
                return 'discharged', 'cvc5', ''
            if not self.strict:
                return 'undecided', 'z3', reason
            if saturated:
                return 'failed', 'z3', f'not provable: {reason}; every instance of the quantified facts is exhausted'
            # candidate countermodel of the ground part
            s2 = z3.Solver()
            s2.set('timeout', 5000)
            for f in th.ground_axioms() + list(facts):
                if not has_quant(f):
                    s2.add(f)
            g = z3.Not(goal)
            if has_quant(goal):
                return 'undecided', 'z3', reason
            s2.add(g)
            if s2.check() == z3.sat:
                return 'failed', 'z3', f'{reason}; candidate countermodel: ' + str(s2.model())[:1500]
            return 'undecided', 'z3', reason
        finally:
            self.solver_s += time.time() - t0

    @staticmethod
    def cvc5(s, ms):
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', ''))
            r = subprocess.run(['cvc5', f'--tlimit={ms}', f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
            return r.stdout.strip().split('\n')[0]
        except Exception:       # noqa
            return 'error'
        finally:
            try:
                os.unlink(f.name)
            except OSError:
                pass

    def add(self, name, status, backend='', detail='', t=0.0):
        self.obls.append(Obl(name=name, status=status, backend=backend, detail=detail, time=round(t, 3)))
        if status == 'failed':
            self.nfail += 1
        if status == 'discharged':
            self.backends[backend] = self.backends.get(backend, 0) + 1

    def oblige(self, name, facts, goal):
        t = time.time()
        if isinstance(goal, bool):
            if goal:
                return self.add(name, 'discharged', 'syntactic')
            goal = z3.BoolVal(False)
        st, bes, d = 'discharged', [], ''
        facts = list(facts)
        for k, g in enumerate(conjuncts(goal)):     # each conjunct from those before it
            st, be, d = self.check(facts, g)
            if not has_quant(g):
                facts.append(g)
            if be not in bes:
                bes.append(be)
            if st != 'discharged':
                d = f'conjunct {k + 1}: {d}'
                break
        self.add(name, st, '+'.join(sorted(bes)), d, time.time() - t)

    # ------------------------------------------------------------ contracts
    def contract(self, name, body, post, pre=None):
        """body(m) runs the real code; post(m, outcome) yields (label, goal) for each path.
        One obligation per (path, label)."""
        if self.only and self.only not in name:
            return
        m = Machine()
        m.prover = self
        t = time.time()
        try:
            outs = []

            def staged():
                # a body that returns a function has prepared the state; the paths of the function share it
                r = body(m)
                if not callable(r):
                    return r
                known = list(m.facts)
                for o in m.explore(r):
                    o.facts = known + o.facts
                    outs.append(o)
                raise PathDead()
            outs += m.explore(staged)
            self.lastm, self.lastouts = m, outs
        except Unsupported as e:
            if os.environ.get('PYVC_DEBUG') == '2':
                traceback.print_exc()
            return self.add(name, 'undecided', 'pyvc', f'outside the supported subset: {e}', time.time() - t)
        except RecursionError:
            return self.add(name, 'undecided', 'pyvc', 'recursion', time.time() - t)
        except Exception as e:      # noqa: a defect of the generator is never a verdict
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
            return self.add(name, 'undecided', 'pyvc', f'generator error {type(e).__name__}: {e}', time.time() - t)
        if not outs:
            return self.add(name, 'undecided', 'pyvc', 'no feasible path: vacuous', time.time() - t)
        for q, d in (('inlined', m.stats['inlined']), ('contracted', m.stats['contracted'])):
            for f, n in d.items():
                self.functions.setdefault(f, q)
        for i, o, post in [(i, o, q) for i, o in enumerate(outs) for q in (post if isinstance(post, list) else [post])]:
            if i % self.share[1] != self.share[0]:
                continue
            base = f'{name}/path{i + 1}({o.kind if o.kind != "raise" else "raise " + o.value.cls.__name__})'
            if o.kind == 'frame':
                self.add(base + ': frame', 'failed', 'pyvc', o.value)
                continue
            if self.pid == 'C08' and post is not None and not getattr(post, 'own', False):
                # the path is complete, and nothing on it changed an object of the caller, of the codec or of a module
                self.add(base + ': frame', 'discharged', 'pyvc')
                continue
            m.restore(o.state)
            m.idx = []
            m.ctx = [('post', i)]
            m.ctxobj = o.ctx
            m.facts = list(o.facts)
            m.dec, m.pos, m.prefix, m.pending = [], 0, [], []
            m.slv = None
            try:
                def run():
                    return list(post(m, o))
                pouts = m.explore(run)
                nf = len(m.facts)
            except Unsupported as e:
                self.add(base, 'undecided', 'pyvc', f'postcondition outside the supported subset: {e}')
                continue
            except Exception as e:      # noqa
                if os.environ.get('PYVC_DEBUG'):
                    traceback.print_exc()
                self.add(base, 'undecided', 'pyvc', f'generator error in postcondition {type(e).__name__}: {e}')
                continue
            for k, po in enumerate(pouts):
                if po.kind != 'normal':
                    self.add(f'{base}.{k + 1}', 'undecided', 'pyvc', f'postcondition ended by {po.kind} {po.value}')
                    continue
                for lab, goal in po.value:
                    self.oblige(f'{base}{"." + str(k + 1) if len(pouts) > 1 else ""}: {lab}',
                                list(m.axioms) + list(po.state[6]) + list(o.facts) + list(po.facts), goal)
        # vacuity: at least one path must be satisfiable
        s = z3.Solver()
        s.set('timeout', 5000)
        ok = False
        for o in outs:
            s.push()
            for f in th.ground_axioms() + list(o.state[6]) + list(o.facts):
                if not has_quant(f):
                    s.add(f)
            r = s.check()
            s.pop()
            if r == z3.sat:
                ok = True
                break
        self.vacuity += 1
        if not ok:
            self.add(name + ': reachable', 'undecided', 'z3', 'no path shown reachable: possibly vacuous')

    def report(self):
        return dict(obligations=self.obls, functions=sorted(f'{f} ({q})' for f, q in self.functions.items()), backends=self.backends,
                    solver_s=self.solver_s, wall_s=time.time() - self.t0, vacuity=self.vacuity, assumptions=self.assumptions,
                    trusted=TRUSTED, level='proof' if self.obls else 'exploration')


# ---------------------------------------------------------------- helpers for specifications
def sym(m, name):
    return Sym(z3.Const(name, Val))


def raises(o):
    return o.kind == 'raise'


def exc_ok(o, classes=(ValueError, TypeError)):
    return issubclass(o.value.cls, classes)
