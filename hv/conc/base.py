"""Concrete side of a check: runs the real code of the tree against an independent oracle.

It serves two purposes: (1) replay - an obligation that fails is searched for a failing
input on the real code, (2) a bounded cross-check of the verifier's model of Python/numpy.
It never turns into a claim of proof."""
import contextlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from hv import loader                                              # noqa: E402


class Skip(Exception):
    """the function this part of the oracle drives does not exist in this tree"""


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, prop, seed, tier, scale=1, budget=45.0):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.scale = scale
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.fails = []
        self.known = {}
        self.skipped = []
        self.t0 = time.time()
        self.budget = budget
        self.parts = {}
        self.part = '?'
        self.call_limit = 60

    def load(self, name):
        return loader.load(name)

    def get(self, mod, name):
        o = self.load(mod)
        for p in name.split('.'):
            if not hasattr(o, p):
                raise Skip('%s.%s' % (mod, name))
            o = getattr(o, p)
        return o

    def iter(self, n):
        n = max(1, int(n * self.scale))
        for i in range(n):
            if time.time() - self.part_t0 > self.part_budget:
                return
            self.i = i
            np.random.seed((hash_int(self.prop, self.seed, self.part, i)) % (2**32))
            self.rng.seed('%s-%s-%s-%d' % (self.prop, self.seed, self.part, i))
            yield i

    def case(self, key, trivial=False, sample=None):
        self.evals += 1
        self.parts[self.part] = self.parts.get(self.part, 0) + 1
        if not trivial:
            self.keys.add((self.part, repr(key)[:400]))
        if len(self.samples) < 4 or (len(self.samples) < 12 and self.part not in [s['part'] for s in self.samples]):
            self.samples.append({'part': self.part, 'case': repr(sample if sample is not None else key)[:300]})

    def call(self, f, *a, **k):
        """('ok', value) or ('exc', exception) of the code under test"""
        def late(sig, frame):
            raise TimeoutError('not finished after %d s' % self.call_limit)
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.call_limit)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                return 'ok', f(*a, **k)
        except Skip:
            raise
        except BaseException as e:                                   # SystemExit too
            if isinstance(e, KeyboardInterrupt):
                raise
            e._tb = traceback.format_exc()[-1500:]
            return 'exc', e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def fail(self, what, inp=None, want=None, got=None, finding=None):
        if finding is not None:
            self.known.setdefault(finding, what)
            return
        self.fails.append({'part': self.part, 'index': getattr(self, 'i', None), 'what': what,
                           'input': short(inp), 'expected': short(want), 'got': short(got)})
        if len(self.fails) >= 3:
            raise Stop()

    def expect(self, ok, what, inp=None, want=None, got=None, finding=None):
        if not ok:
            self.fail(what, inp, want, got, finding)
        return ok

    def must(self, r, what, inp=None):
        """unwrap a call() result that must not raise"""
        if r[0] == 'exc':
            self.fail('%s: raised %s: %s' % (what, type(r[1]).__name__, r[1]), inp,
                      'no exception', getattr(r[1], '_tb', ''))
            return None
        return r[1]

    def run(self, parts):
        """parts: [(name, fn)]"""
        out = io.StringIO()
        self.part_budget = self.budget / max(1, len(parts))
        try:
            for name, fn in parts:
                self.part = name
                self.part_t0 = time.time()
                try:
                    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                        fn(self)
                except Skip as e:
                    self.skipped.append('%s: %s not found' % (name, e))
                except Stop:
                    raise
                except Exception:
                    self.fail('the result could not be evaluated', None, None, traceback.format_exc()[-2500:])
                out.seek(0)
                out.truncate()
        except Stop:
            pass
        return self.report()

    def report(self):
        return dict(prop=self.prop, seed=self.seed, tier=self.tier, evaluations=self.evals,
                    distinct_nontrivial=len(self.keys), samples=self.samples, parts=self.parts,
                    fails=self.fails, known=self.known, skipped=self.skipped,
                    wall_s=round(time.time() - self.t0, 2))


def short(x):
    if x is None:
        return None
    if isinstance(x, np.ndarray) and x.size > 200:
        return 'array%s %s ...' % (x.shape, x.ravel()[:20].tolist())
    return repr(x)[:3000]


def hash_int(*a):
    import hashlib
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], 'big')


def main():
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--budget', type=float, default=45)
    ap.add_argument('--out')
    a = ap.parse_args()
    m = importlib.import_module('hv.conc.' + a.prop.lower())
    c = Ctx(a.prop.upper(), a.seed, a.tier, a.scale, a.budget)
    r = c.run(m.PARTS)
    r['rule'] = getattr(m, 'RULE', '')
    s = json.dumps(r, indent=1)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(s)
