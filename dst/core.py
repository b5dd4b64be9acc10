"""Run record, violations and small helpers shared by every world."""
import ctypes
import hashlib
import json
import os
import random
import sys
import traceback
from collections import Counter

REPO_SRC = os.path.join(os.environ.get('REPO', '/repo'), 'src') + os.sep


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, cls, msg, key=''):
        super().__init__(f'{cls}: {msg}')
        self.cls, self.msg, self.key = cls, msg, key


class Run:
    """Everything one simulated execution reports."""

    def __init__(self, prop='', tier='quick', scratch=None):
        self.prop, self.tier, self.scratch = prop, tier, scratch
        self._h = hashlib.sha256()
        self.lines = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.sim = 0.0
        self.steps = 0
        self.nontrivial = False
        self.known = []

    def log(self, *parts):
        line = ' '.join(str(p) for p in parts)
        self._h.update(line.encode() + b'\n')
        if len(self.lines) < 4000:
            self.lines.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *what):
        self.states.add(h64(repr(what)))

    def digest(self):
        return self._h.hexdigest()


def h64(text):
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big') >> 1


def rng_for(*what):
    return random.Random(hashlib.sha256(':'.join(map(str, what)).encode()).hexdigest())


def check(cond, cls, msg, key=''):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg, key)


def where(exc):
    """Innermost frame of the package in the traceback of exc."""
    spot = ''
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO_SRC):
            spot = f'{os.path.basename(fr.filename)}:{fr.name}'
    return spot


def real(fn, *a, cls='unexpected-exception', what='', **k):
    """Call code under test where it must not fail: an exception is a violation."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation(cls, f'{what or getattr(fn, "__name__", fn)} raised '
                        f'{type(e).__name__}: {str(e)[:300]} in {where(e)}') from e


def execute_guarded(world, sc, run):
    """Execute one scenario; return a JSON-able result."""
    out = {'violation': None, 'error': None}
    try:
        for one in (sc['__seq__'] if '__seq__' in sc else [sc]):
            world.execute(one, run)
    except Violation as v:
        out['violation'] = {'cls': v.cls, 'msg': v.msg[:2000], 'key': v.key}
        run.log('VIOLATION', v.cls)
    except BaseException:
        out['error'] = traceback.format_exc()[-6000:]
    out.update(hash=run.digest(), faults=dict(run.faults), probes=dict(run.probes),
               states=sorted(run.states)[:5000], sim=run.sim, steps=run.steps,
               nontrivial=run.nontrivial, known=run.known)
    out['lines'] = run.lines if (out['violation'] or out['error']) else run.lines[:60]
    return out


class Shim:
    """ctypes face of the disk seam."""

    KINDS = {'crash': 1, 'torn': 2, 'enospc': 3, 'eio': 4, 'short': 5, 'eintr': 6, 'eacces': 7, 'sigint': 8}
    OPS = ['open', 'write', 'trunc', 'rename', 'unlink', 'mkdir']

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            ok = self.lib.iof_present() == 4242
        except AttributeError:
            ok = False
        if not ok:
            raise RuntimeError('disk seam not loaded')
        self.lib.iof_trace.restype = ctypes.c_uint64
        for f in ('iof_ops', 'iof_fired', 'iof_kind', 'iof_first'):
            getattr(self.lib, f).restype = ctypes.c_long
        self.lib.iof_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long]

    def arm(self, prefix, kind=None, at=-1, length=1):
        self.lib.iof_arm(os.fsencode(prefix), self.KINDS[kind] if kind else 0, at, length)

    def disarm(self):
        self.lib.iof_disarm()

    def report(self):
        hit = self.lib.iof_hit()
        return {'ops': self.lib.iof_ops(), 'fired': self.lib.iof_fired(), 'first': self.lib.iof_first(),
                'hit': self.OPS[hit] if 0 <= hit < len(self.OPS) else None,
                'trace': f'{self.lib.iof_trace():016x}'}


def dumps(o):
    return json.dumps(o, sort_keys=True, default=_np)


def _np(o):
    if hasattr(o, 'item'):
        return o.item()
    if hasattr(o, 'tolist'):
        return o.tolist()
    return repr(o)


class World:
    """Base class of a property's simulated world."""
    prop = ''
    title = ''
    runs = {'quick': 400, 'thorough': 8000}
    wall = {'quick': 120, 'thorough': 3000}
    timeout = 60          # wall limit of a single run
    batch = 1             # runs per forked child
    rule = ''
    measure = ''
    real_parts = []
    stub_parts = []
    assumptions = []

    def generate(self, rng, tier):
        raise NotImplementedError

    def directed(self, tier):
        return []

    def execute(self, sc, run):
        raise NotImplementedError

    def shrink(self, sc):
        return iter(())
