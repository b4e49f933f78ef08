"""Shared parts of the falsifiers: import of the real package, strict comparison, violation records."""
import copy
import json
import os
import random
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'distribution', 'src')
sys.dont_write_bytecode = True


def setup_path():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    ext = '/opt/venv/lib/python3.12/site-packages'
    if ext not in sys.path:
        sys.path.append(ext)


setup_path()


class Violation(Exception):
    """what: short sentence; inp: JSON-able description of the failing input; code: python text that reproduces it"""

    def __init__(self, what, inp, code=None, key=None):
        super().__init__(what)
        self.what, self.inp, self.code, self.key = what, inp, code, key


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)


def thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'


def rng(tag):
    return random.Random(f'{seed()}/{tag}')


def strict_eq(a, b):
    """Equality that tells bool, int, float, str, bytes, list, dict (and its order of keys is irrelevant) apart"""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        kb = {(type(k), k): v for k, v in b.items()}
        return all((type(k), k) in kb and strict_eq(v, kb[type(k), k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def call(f, *a, **k):
    """('ret', value) or ('exc', exception)"""
    try:
        return ('ret', f(*a, **k))
    except RecursionError as e:
        return ('exc', e)
    except Exception as e:      # noqa
        return ('exc', e)


def short(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []

    def case(self, key, sample=None):
        self.evaluations += 1
        self.distinct.add(hash(key) if not isinstance(key, (str, int)) else key)
        if sample is not None and len(self.samples) < 5 and self.evaluations % 37 == 1:
            self.samples.append(short(sample, 400))


def dc(x):
    return copy.deepcopy(x)
