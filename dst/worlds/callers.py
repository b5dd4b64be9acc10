"""C11 and C12: one application process that calls the package from several
threads, in any order, and interrupts calls or feeds them wrong arguments."""
import ast
import copy
import decimal
import functools
import gc
import importlib
import logging
import os
import pickle
import random
import signal
import sys
import threading
import types
import warnings

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from dst.core import REPO_SRC, World, check, where
from dst.worlds import library as lib

warnings.simplefilter('ignore')


def in_fork(fn):
    """Result of fn() computed in a process of its own, so that it leaves nothing here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(w, data):]
        except BaseException as e:
            os.write(w, pickle.dumps(('harness', repr(e))))
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    while True:
        part = os.read(r, 1 << 20)
        if not part:
            break
        out += part
    os.close(r)
    os.waitpid(pid, 0)
    got = pickle.loads(out)
    if isinstance(got, tuple) and got[:1] == ('harness',):
        raise RuntimeError(got[1])
    return got


def outcome(inv, name, v, keep=None):
    """Canonical result of one call, or the kind of its refusal."""
    f, a, k = lib.prepare(inv, name, v)
    try:
        res = f(*a, **k)
    except Exception as e:
        return ('raised', type(e).__name__)
    if keep is not None:
        keep.append(res)
    return ('returned', lib.canon(res))


def package_code():
    """Every code object of the package, found through its modules."""
    found, seen, todo = [], set(), []
    for name, mod in sorted(sys.modules.items()):
        if (getattr(mod, '__file__', None) or '').startswith(REPO_SRC):
            todo.extend(vars(mod).values())
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.CodeType):
            if o.co_filename.startswith(REPO_SRC):
                found.append(o)
            todo.extend(c for c in o.co_consts if isinstance(c, types.CodeType))
        elif isinstance(o, types.FunctionType):
            todo.append(o.__code__)
            todo.extend(c.cell_contents for c in o.__closure__ or () if callable(getattr(c, 'cell_contents', None)))
        elif isinstance(o, type):
            home = sys.modules.get(getattr(o, '__module__', None))
            if (getattr(home, '__file__', None) or '').startswith(REPO_SRC):
                todo.extend(vars(o).values())
        for attr in ('__wrapped__', '__func__', 'fget', 'func'):
            inner = getattr(o, attr, None) if not isinstance(o, type) else None
            if callable(inner):
                todo.append(inner)
    return found


CODE = package_code()
TOOL = 4


class statements:
    """Calls tick(code, line) before every statement of the package, in every thread."""

    def __init__(self, tick):
        self.tick = tick

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'dst')
        mon.register_callback(TOOL, mon.events.LINE, self.tick)
        for c in CODE:
            mon.set_local_events(TOOL, c, mon.events.LINE)

    def __exit__(self, *a):
        mon = sys.monitoring
        for c in CODE:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


class Turns:
    """Lets exactly one thread run; passes the turn where the schedule says."""

    def __init__(self, n, moves, audit):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.moves = moves              # ascending (statement count, pick)
        self.at, self.count, self.audit = 0, 0, audit
        self.trace, self.done = [], threading.Semaphore(0)
        self.stuck = False
        self.who = {}

    def next(self, me, pick):
        others = [i for i, a in enumerate(self.alive) if a and i != me]
        return others[pick % len(others)] if others else None

    def tick(self, code, line):
        me = self.who.get(threading.get_ident())
        if me is None:
            return
        self.count += 1
        if self.at < len(self.moves) and self.count >= self.moves[self.at][0]:
            pick = self.moves[self.at][1]
            self.at += 1
            to = self.next(me, pick)
            if to is not None:
                self.trace.append((me, to, os.path.basename(code.co_filename), code.co_name, self.count))
                self.audit()
                self.sem[to].release()
                self.wait(me)

    def wait(self, me):
        if not self.sem[me].acquire(timeout=40):
            self.stuck = True
            raise RuntimeError('the turn never came back')

    def finish(self, me):
        self.alive[me] = False
        pick = self.moves[self.at][1] if self.at < len(self.moves) else 0
        to = self.next(me, pick)
        if to is None:
            self.done.release()
        else:
            self.sem[to].release()


class Concurrent(World):
    prop = 'C11'
    batch = 1
    runs = {'quick': 1500, 'thorough': 80000}
    wall = {'quick': 80, 'thorough': 3000}
    timeout = 120
    rule = ('one run = two to four threads making package calls, parked and released at statements of the package by a seeded schedule, '
            'with shared or separate arguments, after a history of other calls; every result is compared with the same call '
            'made alone in a process of its own; non-trivial when the turn changed inside a call')
    measure = 'distinct (function interrupted, function entered) at a change of turn, plus (call, history length, sharing)'
    real_parts = ['all analysis modules (cmv, field, signalproc, spatial, stats, irradiance, hope_campaign filters, copula, deterministic '
                  'parts of cloudfield)', 'threads', 'numpy/scipy/pandas/scikit-learn']
    stub_parts = ['operating-system scheduler (replaced by a seeded one at package statements)', 'numerical libraries run single-threaded']
    assumptions = ['statements of the package are atomic; library code between two package statements runs without preemption',
                   'results agree when equal to 1e-7 of their largest value']

    def generate(self, rng, tier):
        nthr = rng.choice([2, 2, 2, 3, 4])
        focus = rng.random() < 0.6
        names = list(lib.GOOD)
        base = rng.choice(names)
        pool = [base] + [rng.choice(names) for _ in range(2)] if focus else names
        if rng.random() < 0.3:
            pool = pool + list(lib.BAD)[:] if not focus else pool + [rng.choice(list(lib.BAD))]
        kinds = rng.choice([1, 1, 2, 3])
        thr = [[{'call': rng.choice(pool), 'v': rng.randrange(12), 'inv': rng.randrange(kinds)} for _ in range(rng.choice([1, 1, 2, 3]))]
               for _ in range(nthr)]
        if focus:
            for t in thr[:2]:
                t[0]['call'] = base
        dense = rng.random() < 0.4
        m = rng.choice([40, 150, 400]) if dense else rng.randint(1, 8)
        moves = [[round(rng.random(), 5), rng.randrange(4)] for _ in range(m)]
        hist = [{'call': rng.choice([base, rng.choice(list(lib.EVERY))]), 'v': rng.randrange(12), 'inv': rng.randrange(3)}
                for _ in range(rng.choice([0, 0, 1, 3, 6]))]
        hist = [h for h in hist if h['call'] not in lib.DRAWS]
        for t in thr:
            t[:] = [j for j in t if j['call'] not in lib.DRAWS] or [{'call': base, 'v': 0, 'inv': 0}]
        return {'seed': rng.randrange(1 << 20), 'threads': thr, 'moves': sorted(moves), 'shared': rng.random() < 0.6,
                'history': hist, 'scribble': rng.random() < 0.5}

    def directed(self, tier):
        out = []
        for k, name in enumerate(lib.GOOD):
            for shared in (True, False):
                moves = [[round((j + 1) / 14, 4), 1] for j in range(13)]
                out.append({'seed': 50 + k, 'threads': [[{'call': name, 'v': 0, 'inv': 0}], [{'call': name, 'v': 1, 'inv': 0 if shared else 1}]],
                            'moves': moves, 'shared': shared, 'history': [] if shared else [{'call': name, 'v': 2, 'inv': 2}], 'scribble': True})
        return out

    def shrink(self, sc):
        if len(sc['threads']) > 2:
            for i in range(len(sc['threads'])):
                yield dict(sc, threads=sc['threads'][:i] + sc['threads'][i + 1:])
        for i, t in enumerate(sc['threads']):
            if len(t) > 1:
                for j in range(len(t)):
                    yield dict(sc, threads=sc['threads'][:i] + [t[:j] + t[j + 1:]] + sc['threads'][i + 1:])
        M = sc['moves']
        if len(M) > 1:
            yield dict(sc, moves=M[:len(M) // 2])
            yield dict(sc, moves=M[len(M) // 2:])
        if len(M) <= 12:
            for i in range(len(M)):
                yield dict(sc, moves=M[:i] + M[i + 1:])
        for i in range(len(sc['history'])):
            yield dict(sc, history=sc['history'][:i] + sc['history'][i + 1:])
        if sc['scribble']:
            yield dict(sc, scribble=False)

    # ------------------------------------------------------------------
    def execute(self, sc, run):
        invs = lambda k: lib.inventory(f'{sc["seed"]}-{k}')
        # what each call gives when it is made alone
        alone, lines = {}, {}
        for j in [j for t in sc['threads'] for j in t] + sc['history']:
            key = (j['call'], j['v'], j['inv'])
            if key not in alone:
                alone[key], lines[key] = in_fork(lambda: self.lone(sc, *key))
        # earlier calls
        earlier = []
        for n, h in enumerate(sc['history']):
            key = (h['call'], h['v'], h['inv'])
            inv = invs(h['inv'])
            keep = []
            lib.prepare(inv, h['call'], h['v'])
            before = inv.prints()
            got = outcome(inv, h['call'], h['v'], keep)
            self.same(got, alone[key], 'depends-on-history', f'call {n} of the history, {h["call"]}')
            odd = inv.changed(before)
            check(not odd, 'arguments-changed', lambda: f'{h["call"]} changed its arguments {odd}')
            if sc['scribble']:
                lib.scribble(keep)
            elif keep:
                earlier.append((f'call {n} of the history, {h["call"]}', keep[0], got))
            run.steps += 1
        # the threads
        n = len(sc['threads'])
        store = {}

        def args(thread, k):
            key = k if sc['shared'] else (thread, k)
            if key not in store:
                store[key] = invs(k)
            return store[key]
        for t, jobs in enumerate(sc['threads']):
            for j in jobs:
                lib.prepare(args(t, j['inv']), j['call'], j['v'])
        total = sum(lines[(j['call'], j['v'], j['inv'])] for t in sc['threads'] for j in t)
        moves = sorted((max(1, int(f * total)), p) for f, p in sc['moves'])
        prints = {k: v.prints() for k, v in store.items()}
        audits = [0]
        broken = []

        def audit():
            audits[0] += 1
            if audits[0] <= 25 and not broken:
                for k, v in store.items():
                    odd = v.changed(prints[k])
                    if odd:
                        broken.append((odd, turns.trace[-1]))
        turns = Turns(n, moves, audit)
        results = [[] for _ in range(n)]
        kept = [[] for _ in range(n)]
        died = []

        def body(me):
            turns.wait(me)
            try:
                for j in sc['threads'][me]:
                    inv = args(me, j['inv'])
                    turns.who[threading.get_ident()] = me
                    try:
                        got = outcome(inv, j['call'], j['v'], kept[me])
                    finally:
                        del turns.who[threading.get_ident()]
                    results[me].append(got)
            except BaseException as e:
                died.append(repr(e))
            finally:
                turns.finish(me)
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        with statements(turns.tick):
            for t in threads:
                t.start()
            turns.sem[0].release()
            if not turns.done.acquire(timeout=90) or died or turns.stuck:
                raise RuntimeError(f'schedule broke down: {died}')
            for t in threads:
                t.join(20)
        for a, b, f, fn, c in turns.trace:
            run.state(fn, sc['threads'][b][0]['call'])
        for t in turns.trace[:60]:
            run.log('turn', *t)
        run.state(tuple(sorted({j['call'] for t in sc['threads'] for j in t})), len(sc['history']), sc['shared'])
        run.steps += turns.count
        run.fault('preemption', len(turns.trace))
        run.nontrivial = bool(turns.trace) or bool(sc['history'])
        if sc['history']:
            run.fault('earlier_call', len(sc['history']))
        for me in range(n):
            for j, got in zip(sc['threads'][me], results[me]):
                run.log(me, j['call'], got[0], lib.fingerprint(got) if got[0] == 'raised' else '')
                self.same(got, alone[(j['call'], j['v'], j['inv'])], 'depends-on-other-threads',
                          f'{j["call"]} (variant {j["v"]}) in thread {me} of {n}, {"shared" if sc["shared"] else "separate"} arguments, '
                          f'{len(turns.trace)} changes of turn')
        check(not broken, 'arguments-changed', lambda: f'given to a call and different at change of turn {broken[0][1]}: {broken[0][0]}')
        for k, inv in store.items():
            odd = inv.changed(prints[k])
            check(not odd, 'arguments-changed', lambda: f'{[j["call"] for t in sc["threads"] for j in t]} changed their arguments {odd}')
        # results belong to the caller
        for me in range(n):
            earlier += [(f'{j["call"]} in thread {me}', res, got) for j, res, got in zip(
                [j for j, got in zip(sc['threads'][me], results[me]) if got[0] == 'returned'], kept[me],
                [got for got in results[me] if got[0] == 'returned'])]
        for what, res, got in earlier:
            d = lib.differ(lib.canon(res), got[1])
            check(not d, 'earlier-result-changed', lambda: f'the result of {what} was changed by a later call at {d}')
        if sc['scribble']:
            for ks in kept:
                lib.scribble(ks)
            j = sc['threads'][0][0]
            got = outcome(invs(j['inv']), j['call'], j['v'])
            self.same(got, alone[(j['call'], j['v'], j['inv'])], 'shares-results', f'{j["call"]} after an earlier result was overwritten by its owner')
            run.probe('scribbled')

    def lone(self, sc, name, v, k):
        count = [0]

        def tick(code, line):
            count[0] += 1
        inv = lib.inventory(f'{sc["seed"]}-{k}')
        with statements(tick):
            out = outcome(inv, name, v)
        return out, count[0]

    @staticmethod
    def same(got, want, cls, what):
        if got[0] != want[0]:
            check(False, cls, f'{what}: {got[0]} {got[1] if got[0] == "raised" else ""}, alone it {want[0]} '
                  f'{want[1] if want[0] == "raised" else "a result"}')
        d = lib.differ(got[1], want[1])
        check(not d, cls, lambda: f'{what}: differs from the call made alone at {d}')


# ---------------------------------------------------------------- C12
RESTORERS = {'__exit__', '__enter__', '__del__', 'seterr', 'seterrcall', 'setbufsize', 'simplefilter', 'filterwarnings', 'resetwarnings',
             '_filters_mutated', '_filters_mutated_lock_held', 'set_state', 'setstate', 'seed', 'set_printoptions', 'chdir', 'close', 'remove', 'callback',
             'set_option', 'option_context', 'rc_context', 'release', 'acquire', '_add_filter', '__setitem__', '__delitem__', 'pop', 'update', 'clear',
             'setdefault', 'popitem', 'append', 'setlocale', 'setcontext', 'localcontext', 'putenv', 'unsetenv', 'encode', 'encodekey', 'settrace', 'default_rng',
             '_handle_fromlist', '_find_and_load', '_unlock_unlock_module', 'cb', '_get_module_lock'}
KINDS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'linalg': np.linalg.LinAlgError, 'float': FloatingPointError,
         'runtime': RuntimeError, 'os': OSError}


def preload():
    """Load what the libraries load on first use, so that loading is not taken for a changed setting."""
    def late():
        before = set(sys.modules)
        for name in lib.GOOD:
            for v in range(4):
                outcome(lib.inventory('load'), name, v)
        return sorted(set(sys.modules) - before)
    try:
        names = in_fork(late)
    except RuntimeError:
        names = []
    for name in names:
        try:
            importlib.import_module(name)
        except Exception:
            pass


def harness_free(frame):
    """True when nothing between this frame and the package is about restoring or importing something."""
    f, depth = frame, 0
    while f is not None:
        name = f.f_code.co_name
        if f.f_code.co_filename.startswith(REPO_SRC):
            return True
        if name in RESTORERS or f.f_code.co_filename.startswith('<frozen') or 'contextlib' in f.f_code.co_filename \
                or 'warnings.py' in f.f_code.co_filename or 'weakref' in f.f_code.co_filename or '_config' in f.f_code.co_filename:
            return False
        f = f.f_back
        depth += 1
    return False


@functools.lru_cache(None)
def edges(path):
    """Lines on which a well-written function may be between setting and restoring: the
    heads of with and try statements, and what handles their end."""
    out = set()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(open(path, encoding='utf-8').read())
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.Try)):
            out.update(range(node.lineno, node.body[0].lineno))
            if isinstance(node, ast.Try):
                for part in node.handlers + node.finalbody:
                    out.update(range(part.lineno, part.end_lineno + 1))
    return out


class Injector:
    """Counts the points of one call and raises at the chosen one."""

    def __init__(self, kind, at, exc, tag):
        self.kind, self.at, self.exc, self.tag = kind, at, exc, tag
        self.n, self.fired, self.raised, self.reached = 0, None, None, kind == 'line'
        self.seen, self.inside = ([] if at is None else None), False

    def hit(self, frame):
        self.n += 1
        if self.seen is not None:
            b = frame if self.kind == 'line' else frame.f_back
            self.seen.append((b.f_code.co_filename, b.f_lineno, frame.f_code.co_name))
        if self.at is not None and self.n - 1 == self.at and not self.fired:
            f = frame
            while f is not None and not f.f_code.co_filename.startswith(REPO_SRC):
                f = f.f_back
            self.fired = (os.path.basename(f.f_code.co_filename) if f else '?', f.f_code.co_name if f else '?', frame.f_code.co_name)
            self.inside = self.kind == 'line' and frame.f_lineno not in edges(frame.f_code.co_filename)
            self.raised = self.exc(self.tag)
            raise self.raised

    def enter(self, frame, event, arg):
        mine = frame.f_code.co_filename.startswith(REPO_SRC)
        if self.kind == 'line':
            return self.local if mine else None
        if self.kind == 'direct':               # a routine called by the package
            b = frame.f_back
            if (mine or (b is not None and b.f_code.co_filename.startswith(REPO_SRC))) and frame.f_code.co_name not in RESTORERS \
                    and not frame.f_code.co_name.startswith('<') and harness_free(frame):
                self.hit(frame)
        elif self.kind == 'deep':               # any routine run on behalf of the package
            if frame.f_code.co_name not in RESTORERS and harness_free(frame):
                self.hit(frame)
        return None

    def arrived(self, code, offset, exc):
        """An exception is on its way through a frame."""
        if exc is self.raised and code.co_filename.startswith(REPO_SRC):
            self.reached = True         # numerical libraries may drop exceptions before this

    def watch(self, on):
        mon = sys.monitoring
        if on:
            mon.use_tool_id(TOOL, 'dst')
            mon.register_callback(TOOL, mon.events.RAISE, self.arrived)
        mon.set_events(TOOL, mon.events.RAISE if on else 0)
        if not on:
            mon.register_callback(TOOL, mon.events.RAISE, None)
            mon.free_tool_id(TOOL)

    def local(self, frame, event, arg):
        if event == 'line':
            self.hit(frame)
        return self.local


LATE = ('warning filters', 'pandas options', 'plot options', 'root log level', 'open files', 'import path')


def settings():
    """Everything process-wide a call could leave changed."""
    s = {'numpy error handling': tuple(sorted(np.geterr().items())), 'numpy error callback': repr(np.geterrcall()),
         'numpy buffer size': np.getbufsize(), 'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
         'global random state': lib.fingerprint(list(np.random.get_state(legacy=True))), 'python random state': hash(random.getstate()),
         'working directory': os.getcwd(), 'environment': tuple(sorted(os.environ.items())),
         'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(), 'garbage collection': gc.isenabled(),
         'threads': threading.active_count(), 'decimal context': repr(decimal.getcontext().prec),
         'figures': tuple(plt.get_fignums()), 'signal handlers': tuple(repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)),
         'floating warnings hook': warnings.showwarning.__module__, 'standard output': id(sys.stdout), 'standard error': id(sys.stderr),
         'file mode mask': umask()}
    s['warning filters'] = tuple((a, p.pattern if p is not None else None, getattr(c, '__name__', c), m.pattern if m is not None else None, n)
                                 for a, p, c, m, n in warnings.filters)
    s['pandas options'] = repr(pd._config.config._global_config)
    s['plot options'] = hash(repr(sorted(matplotlib.rcParams.items(), key=str)))
    s['root log level'] = (logging.getLogger().level, logging.root.manager.disable, len(logging.getLogger().handlers))
    s['open files'] = len(os.listdir('/proc/self/fd'))
    s['import path'] = tuple(sys.path)
    s['modules'] = len(sys.modules)    # libraries may set the last ones while being loaded on first use
    return s


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Interrupted(World):
    prop = 'C12'
    batch = 1
    runs = {'quick': 2500, 'thorough': 120000}
    wall = {'quick': 80, 'thorough': 3000}
    timeout = 120
    rule = ('one run = one call of the package, interrupted one to three times at seeded points (a statement of the package, a routine it '
            'calls, or any routine below it) or refused for its arguments, then made again undisturbed with the same arguments; '
            'non-trivial when an exception was injected or the call refused')
    measure = 'distinct (call, kind of point, package function interrupted, routine that failed, exception, caller settings)'
    real_parts = ['all analysis modules (cmv, field, signalproc, spatial, stats, irradiance, hope_campaign filters, copula, deterministic '
                  'parts of cloudfield)', 'numpy/scipy/pandas/scikit-learn']
    stub_parts = ['source of failures: exceptions are raised at Python-level calls and statements']
    assumptions = ['failures are not injected inside the routines that restore settings (context-manager exits, seterr, ...)',
                   'settings are judged for failures of called routines; an interrupt between two statements can always fall between '
                   'setting and restoring, so there only arguments and later results are judged']

    def __init__(self):
        super().__init__()
        preload()

    def generate(self, rng, tier):
        bad = rng.random() < 0.15
        call = rng.choice(list(lib.BAD) if bad else list(lib.GOOD))
        if rng.random() < 0.35 and not bad:
            call = rng.choice([c for c in lib.GOOD if c.startswith(('cmv', 'locate', 'delays', 'subset', 'assign', 'multihour', 'downscale'))])
        faults = [{'point': rng.choice(['line', 'direct', 'direct', 'deep']), 'at': round(rng.random(), 5), 'pass': round(rng.random(), 5),
                   'exc': rng.choice(list(KINDS))} for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        return {'seed': rng.randrange(1 << 20), 'call': call, 'v': rng.randrange(12), 'inv': 0, 'faults': [] if bad and rng.random() < 0.6 else faults,
                'first': rng.random() < 0.3, 'err': rng.choice(['warn', 'warn', 'ignore', 'call', 'print', 'mixed']),
                'filters': rng.choice(['ignore', 'default', 'always']), 'rng': rng.randrange(1000)}

    def directed(self, tier):
        out = []
        for k, name in enumerate(lib.EVERY):
            base = {'seed': 90 + k, 'call': name, 'v': 0, 'inv': 0, 'first': False, 'err': 'warn', 'filters': 'default', 'rng': 3}
            out.append(dict(base, faults=[]))
            out.append(dict(base, faults=[{'point': 'direct', 'at': 0.5, 'pass': 0.5, 'exc': 'memory'}], first=True))
            out.append(dict(base, faults=[{'point': 'line', 'at': 0.97, 'pass': 0.99, 'exc': 'interrupt'}]))
        return out

    def shrink(self, sc):
        F = sc['faults']
        for i in range(len(F)):
            yield dict(sc, faults=F[:i] + F[i + 1:])
        for k, v in (('err', 'warn'), ('filters', 'default'), ('first', False), ('rng', 0)):
            if sc[k] != v:
                yield dict(sc, **{k: v})

    def execute(self, sc, run):
        name, v = sc['call'], sc['v']
        counts = {}
        alone = in_fork(lambda: self.dry(sc, None))[0]
        for f in sc['faults']:
            if f['point'] not in counts:
                counts[f['point']] = in_fork(lambda: self.dry(sc, f['point']))[1]
        self.surroundings(sc)
        if not sc['first']:
            loaded, before = len(sys.modules), settings()
            warm = outcome(lib.inventory(f'{sc["seed"]}-w'), name, v)
            run.log('warm', warm[0])
            self.kept(before, settings(), sc, f'{name} made for the first time')
            if loaded != len(sys.modules):
                run.probe('loaded_late')
            self.surroundings(sc)
            # the call itself, undisturbed
            self.undisturbed(sc, run, alone)
        inv = lib.inventory(f'{sc["seed"]}-{sc["inv"]}')
        lib.prepare(inv, name, v)
        pristine = inv.prints()
        for n, f in enumerate(sc['faults']):
            places = counts[f['point']]
            if not places:
                run.probe('nothing_to_interrupt')
                continue
            # first the place in the code, then which of the times it is reached
            which = places[min(len(places) - 1, int(f['at'] * len(places)))]
            at = which[min(len(which) - 1, int(f['pass'] * len(which)))]
            inj = Injector(f['point'], at, KINDS[f['exc']], f'injected-{n}')
            before = settings()
            call, a, k = lib.prepare(inv, name, v)
            end = 'returned'
            old = sys.gettrace()
            inj.watch(True)
            sys.settrace(inj.enter)
            try:
                call(*a, **k)
            except BaseException as e:
                end = 'raised ' + type(e).__name__
                err = e
            finally:
                sys.settrace(old)
                inj.watch(False)
            after = settings()
            run.steps += inj.n
            if not inj.fired:
                run.probe('point_not_reached')
                continue
            run.fault(f'{f["exc"]}_at_{f["point"]}')
            run.state(name, f['point'], inj.fired, f['exc'], sc['err'])
            run.log(n, name, f['point'], inj.fired, f['exc'], end)
            run.probe('failure_reached_package' if inj.reached else 'failure_dropped_by_library')
            spot = f'{f["exc"]} failure in {inj.fired[2]} below {inj.fired[0]}:{inj.fired[1]} during {name}'
            if f['exc'] == 'interrupt' and inj.reached:
                check(end != 'returned', 'interrupt-swallowed', f'{name} returned normally although interrupted in {inj.fired[0]}:{inj.fired[1]}')
            err = None
            odd = inv.changed(pristine)
            check(not odd, 'arguments-changed', lambda: f'{spot}: the caller\'s {odd}')
            if f['point'] != 'line' or inj.inside:
                self.kept(before, after, sc, spot)
        # once more, with nothing in the way
        self.undisturbed(sc, run, alone, inv)

    def undisturbed(self, sc, run, alone, inv=None):
        name, v = sc['call'], sc['v']
        what = 'made again after an interruption' if inv is not None else 'made undisturbed'
        if inv is None:
            inv = lib.inventory(f'{sc["seed"]}-{sc["inv"]}')
        lib.prepare(inv, name, v)
        pristine = inv.prints()
        before = settings()
        got = outcome(inv, name, v)
        after = settings()
        if got[0] == 'raised':
            run.fault('call_refused')
        run.log(what, got[0], got[1] if got[0] == 'raised' else '')
        odd = inv.changed(pristine)
        check(not odd, 'arguments-changed', lambda: f'{name} {what}, {got[0]}: the caller\'s {odd}')
        self.kept(before, after, sc, f'{name} {what}, {got[0]}')
        Concurrent.same(got, alone, 'later-result-differs', f'{name} {what}')

    @staticmethod
    def kept(before, after, sc, spot):
        late = before['modules'] != after['modules']
        for key in before:
            if key == 'modules' or late and key in LATE:
                continue
            if key in ('global random state',) and sc['call'] in lib.DRAWS:
                continue
            check(before[key] == after[key], 'settings-changed', lambda: f'{spot}: {key} changed from {str(before[key])[:300]} to {str(after[key])[:300]}')

    @staticmethod
    def surroundings(sc):
        """Settings the application has made for itself."""
        np.random.seed(sc['rng'])
        random.seed(sc['rng'])
        warnings.resetwarnings()
        warnings.simplefilter(sc['filters'])
        quiet = {'warn': dict(all='warn'), 'ignore': dict(all='ignore'), 'call': dict(all='call'), 'print': dict(all='print'),
                 'mixed': dict(divide='call', invalid='print', over='ignore', under='warn')}[sc['err']]
        if not logging.root.handlers:        # otherwise scipy's optimiser installs one
            logging.root.addHandler(logging.NullHandler())
        np.seterrcall(_noted)
        np.seterr(**quiet)

    def dry(self, sc, kind):
        self.surroundings(sc)
        inv = lib.inventory(f'{sc["seed"]}-{sc["inv"]}')
        inj = Injector(kind, None, None, '')
        if kind:
            sys.settrace(inj.enter)
        try:
            out = outcome(inv, sc['call'], sc['v'])
        finally:
            sys.settrace(None)
        order = {}
        for n, where_ in enumerate(inj.seen):
            order.setdefault(where_, []).append(n)
        return out, list(order.values())


def _noted(kind, flag):
    return None
