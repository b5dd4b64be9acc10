"""C13, C14, C15: synthetic irradiance under controlled streams of randomness.

The seams are the generators themselves: seeds, the state of the global
generator (also states crafted so that chosen numbers are drawn), and the
entropy source behind unseeded generators."""
import json
import os
import random
import subprocess
import sys
import threading
import warnings

import numpy as np
import pandas as pd
from scipy import ndimage
from scipy.special import ndtr, ndtri

from dst.core import Violation, World, check, real
from dst.worlds import library as lib
from dst.worlds.callers import Turns, in_fork, statements
from solarspatialtools.synthirrad import cloudfield, copula

warnings.simplefilter('ignore')
TWO_PI = 2 * np.pi


# ---------------------------------------------------------------- streams
def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(4):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(2):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def crafted(values, rest):
    """State of the global generator from which these numbers in [0, 1) are drawn first."""
    key = np.random.RandomState(rest).randint(0, 1 << 32, 624, dtype=np.uint32)
    for k, v in enumerate(values[:300]):
        n = min((1 << 53) - 1, max(0, int(v * (1 << 53))))
        a, b = n >> 26, n & ((1 << 26) - 1)
        key[2 * k], key[2 * k + 1] = _untemper(a << 5), _untemper(b << 6)
    return ('MT19937', key, 0, 0, 0.0)


def stream(spec):
    """Generator state for a description of what it should deliver."""
    if spec['kind'] == 'seed':
        return np.random.RandomState(spec['seed']).get_state(legacy=True)
    rng = random.Random(f'stream{spec["seed"]}')
    top = 1 - 2.0 ** -53
    kind = spec['kind']
    if kind == 'zeros':
        vals = [0.0] * 100
    elif kind == 'ones':
        vals = [top] * 312
    elif kind == 'half':
        vals = [0.5] * 312
    elif kind == 'ties':
        vals = [rng.choice([0.1, 0.4, 0.7]) for _ in range(312)]
    elif kind == 'extremes':
        vals = [rng.choice([0.0, top, rng.random()]) for _ in range(312)]
    elif kind == 'tiny':
        vals = [rng.random() * 1e-9 for _ in range(312)]
    else:                                       # a sorted ramp
        vals = sorted(rng.random() for _ in range(312))
    return crafted(vals, spec['seed'])


STREAMS = ['seed', 'seed', 'seed', 'zeros', 'ones', 'half', 'ties', 'extremes', 'tiny', 'ramp']


def gstate():
    return lib.fingerprint(list(np.random.get_state(legacy=True)))


# ---------------------------------------------------------------- copula set-ups
PARAMS = [None, {'comp': [0.7, 6.0, 0.6], 'mean': [2.0, 1.05, 0.4], 'sdevClear': [0.3, 4.5, 0.6], 'sdevCloud': [0.22, 5.0, 0.4],
                 'corr_quadr': 0.01}]


def gen_setup(rng, small=False):
    n = rng.choice([1, 2, 3, 5] if small else [1, 2, 3, 6, 10])
    th = rng.choice([0.0, np.pi / 2, rng.uniform(0, TWO_PI), -1.0])
    spd, step = rng.choice([3.0, 5.0, 12.5]), rng.choice([1, 10, 60, 300, 0.5, 0.04, 40000])
    sites, links = [], []
    for i in range(n):
        if i and rng.random() < 0.5:            # downstream of (or at the place of) an earlier site
            j, k = rng.randrange(i), rng.choice([0, 1, 2])
            links.append([j, i, k])
            sites.append(['down', j, k])
        else:
            sites.append(['free', round(rng.uniform(-3000, 3000), 2), round(rng.uniform(-3000, 3000), 2)])
    return {'sites': sites, 'links': links, 'spd': spd, 'dir': round(th, 6), 'step': step,
            'ntimes': rng.choice([1, 2, 4, 8] if small else [2, 3, 7, 12, 24]),
            'csi': rng.choice([round(rng.uniform(0.08, 1.05), 3), 0.5, 1.0]), 'params': rng.choice([0, 0, 1]),
            'origin': rng.choice([[0.0, 0.0], [4.2e5, 5.1e6]]), 'tz': rng.choice([None, 'UTC', 'Europe/Berlin'])}


def positions(s):
    u = np.array([np.cos(s['dir']), np.sin(s['dir'])])
    out = []
    for site in s['sites']:
        if site[0] == 'free':
            out.append(np.array(site[1:]) + np.array(s['origin']))
        else:
            out.append(out[site[1]] + u * s['spd'] * s['step'] * site[2])
    return np.array(out)


def times_of(s, hour=0):
    return pd.date_range('2014-06-01 08:00', periods=s['ntimes'], freq=f'{round(s["step"] * 1000)}ms', tz=s['tz']) + pd.Timedelta(hours=hour)


def params_of(s, k=None):
    p = PARAMS[s['params'] if k is None else k]
    return dict(copula.DEFAULT_PARAMS) if p is None else dict(p)


def downscale(s, seed, **kw):
    P = positions(s)
    return copula.downscale(times_of(s), P[:, 0], P[:, 1], s['spd'], s['dir'], s['csi'], params_of(s), seed=seed, **kw)


def hours_of(s, m, form):
    """Arguments of a multi-hour run, and the same hour by hour."""
    rng = random.Random(f'hours{m["seed"]}')
    H = m['hours']
    spd = [rng.choice([3.0, 5.0, 8.0]) + k for k in range(H)]
    dr = [round(rng.uniform(0, 6), 3) for _ in range(H)]
    csi = [round(rng.uniform(0.15, 1.0), 3) for _ in range(H)]
    tm = [times_of(s, k) for k in range(H)]
    if m.get('grow'):
        tm = [t[:max(1, len(t) - k)] for k, t in enumerate(tm)]
    par = [params_of(s, k % 2) for k in range(H)]
    box = {'list': list, 'tuple': tuple, 'array': np.array}

    def shape(what, vals, one):
        f = form[what]
        return (one, [one] * H) if f == 'one' else (box[f](vals), vals) if f in box else ([one], [one] * H)
    a_spd, spd = shape('spd', spd, spd[0])
    a_dir, dr = shape('dir', dr, dr[0])
    a_tm, tm = (tm, tm) if form['times'] != 'one' else (tm[0], [tm[0]] * H)
    a_par, par = (par, par) if form['params'] != 'one' else (par[0], [par[0]] * H)
    a_csi = box[form['csi']](csi)
    return (a_tm, a_spd, a_dir, a_csi, a_par), (tm, spd, dr, csi, par)


def gen_multi(rng):
    f = {'spd': rng.choice(['one', 'list', 'array', 'tuple', 'single']), 'dir': rng.choice(['one', 'list', 'array', 'tuple', 'single']),
         'times': rng.choice(['one', 'list']), 'params': rng.choice(['one', 'list']), 'csi': rng.choice(['list', 'array', 'tuple'])}
    return {'hours': rng.choice([1, 2, 3, 4]), 'seed': rng.randrange(1000), 'form': f, 'grow': rng.random() < 0.3}


def multihour(s, m, seed, **kw):
    P = positions(s)
    (tm, spd, dr, csi, par), each = hours_of(s, m, m['form'])
    got = copula.downscale_multihour(tm, P[:, 0], P[:, 1], spd, dr, csi, par, seed=seed, **kw)
    return got, each


# ---------------------------------------------------------------- cloud field set-ups
def gen_cloud(rng, small=False):
    n = rng.choice([1, 2, 3, 4])
    w = [rng.uniform(0.05, 1) for _ in range(n)]
    size = [rng.choice([4, 10, 12]), rng.choice([5, 10, 12])] if small else \
        [rng.choice([10, 20, 40, 80, 200]), rng.choice([10, 20, 40, 100])]
    return {'w': [x / sum(w) for x in w], 'scales': sorted(rng.sample(range(1, 8), n)), 'size': size,
            'frac': rng.choice([0.0, 0.1, 0.2, 0.25, 0.5, 0.75, 0.9, round(rng.random(), 3)] + [rng.randrange(1, size[0] * size[1]) / (size[0] * size[1])] * 6),
            'mean': round(rng.uniform(0.25, 1.1), 3), 'max': round(rng.uniform(1.02, 1.6), 3), 'low': round(rng.uniform(0.02, 0.45), 3),
            'scaling': rng.choice(['original', 'basic']), 'smooth': rng.choice([1, 2, 3, 5])}


def cloud(c):
    return cloudfield.cloudfield_timeseries(np.array(c['w']), c['scales'], tuple(c['size']), c['frac'], c['mean'], c['max'], c['low'],
                                            scaling=c['scaling'], edgesmoothing=c['smooth'])


def drawn(c):
    """Numbers a stack of random fields needs."""
    return sum(max(1, int(c['size'][0] * 2.0 ** (1 - k))) * max(1, int(c['size'][1] * 2.0 ** (1 - k))) for k in c['scales'])


def attempt(fn):
    try:
        return ('returned', lib.canon(fn()))
    except Exception as e:
        return ('raised', type(e).__name__)


# ================================================================ C13
class Reproducible(World):
    prop = 'C13'
    batch = 1
    runs = {'quick': 1500, 'thorough': 60000}
    wall = {'quick': 75, 'thorough': 3000}
    timeout = 150
    rule = ('one run = a history of seeded, unseeded and cloud-field generations mixed with other users of the random generators, then '
            'the same between threads; each is compared with itself made alone in another process with other generator states; '
            'non-trivial when something else used a generator in between')
    measure = 'distinct (action, preceding action, seed class, state class)'
    real_parts = ['copula.downscale', 'copula.downscale_multihour', 'cloudfield.cloudfield_timeseries', 'numpy generators', 'scipy/scikit-learn']
    stub_parts = ['entropy source of unseeded generators', 'thread scheduler']
    assumptions = ['series agree when equal to 1e-6', 'at most one thread uses the global generator']
    SEEDS = [0, 1, 2, 7, 123456, 2 ** 31 - 1, 2 ** 32 + 5, 2 ** 63]

    def generate(self, rng, tier):
        acts = []
        setups = [gen_setup(rng, True) for _ in range(2)]
        multis = [gen_multi(rng) for _ in range(2)]
        clouds = [gen_cloud(rng, True) for _ in range(2)]
        for _ in range(rng.choice([2, 4, 6])):
            k = rng.choice(['down', 'down', 'multi', 'cloud', 'cloud', 'noise', 'noise', 'fresh', 'call'])
            acts.append({'do': k, 'i': rng.randrange(2), 'seed': rng.choice(self.SEEDS + [rng.randrange(1000)]),
                         'np': rng.random() < 0.2, 'flags': rng.randrange(4),
                         'state': {'kind': rng.choice(STREAMS), 'seed': rng.randrange(1000)},
                         'noise': rng.choice(['rand', 'seed', 'normal', 'python', 'rng', 'shuffle', 'drain']),
                         'call': rng.choice(list(lib.GOOD)), 'entropy': rng.randrange(1 << 30)})
        thr = []
        if rng.random() < 0.5:
            one_cloud = rng.random() < 0.5
            for t in range(rng.choice([2, 3])):
                kind = 'cloud' if one_cloud and t == 0 else rng.choice(['down', 'multi'])
                thr.append({'do': kind, 'i': rng.randrange(2), 'seed': rng.choice(self.SEEDS), 'np': False, 'flags': rng.randrange(4),
                            'state': {'kind': 'seed', 'seed': rng.randrange(1000)}})
        return {'setups': setups, 'multis': multis, 'clouds': clouds, 'acts': acts, 'threads': thr, 'fresh': False,
                'moves': [[round(rng.random(), 4), rng.randrange(3)] for _ in range(rng.choice([3, 10, 40]))], 'start': rng.randrange(1000)}

    def directed(self, tier):
        rng = random.Random(13)
        out = []
        for i in range(6 if tier == 'quick' else 16):
            sc = self.generate(rng, tier)
            sc.update(fresh=True, acts=[dict(a, do=d) for a, d in zip(sc['acts'] * 3, ['down', 'multi', 'cloud'])], threads=[])
            out.append(sc)
        for i in range(10):
            sc = self.generate(rng, tier)
            a = dict(sc['acts'][0], do='down', seed=0, np=i % 2 == 0)
            sc.update(acts=[a, dict(a, do='noise'), dict(a), dict(a, do='fresh'), dict(a, do='multi'), dict(a, do='noise', noise='rand'), dict(a, do='multi')])
            out.append(sc)
        return out

    def shrink(self, sc):
        for i in range(len(sc['acts'])):
            yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])
        for i in range(len(sc['threads'])):
            yield dict(sc, threads=sc['threads'][:i] + sc['threads'][i + 1:])
        if len(sc['moves']) > 1:
            yield dict(sc, moves=sc['moves'][::2])
        for i, s in enumerate(sc['setups']):
            for k, v in (('ntimes', 2), ('tz', None), ('params', 0), ('origin', [0.0, 0.0])):
                if s[k] != v:
                    yield dict(sc, setups=sc['setups'][:i] + [dict(s, **{k: v})] + sc['setups'][i + 1:])
        for i, s in enumerate(sc['multis']):
            for k in ('spd', 'dir', 'times', 'params'):
                if s['form'][k] != 'one':
                    yield dict(sc, multis=sc['multis'][:i] + [dict(s, form=dict(s['form'], **{k: 'one'}))] + sc['multis'][i + 1:])

    def make(self, sc, a):
        """The call an action stands for."""
        kw = dict(scale=bool(a['flags'] & 1), noneg=bool(a['flags'] & 2))
        seed = np.int64(a['seed']) if a['np'] and a['seed'] < 2 ** 63 else a['seed']
        if a['do'] == 'down':
            return lambda: downscale(sc['setups'][a['i']], seed, **kw)
        if a['do'] == 'multi':
            return lambda: multihour(sc['setups'][a['i']], sc['multis'][a['i']], seed, **kw)[0]

        def gen():
            np.random.set_state(stream(a['state']))
            return cloud(sc['clouds'][a['i']])
        return gen

    def alone(self, sc, a, other=True):
        """What it gives in a process of its own, in which the generators stand elsewhere."""
        def go():
            if other:
                np.random.seed(987 + sc['start'])
                np.random.rand(3)
                random.seed(55)
            out = attempt(self.make(sc, a))
            return out, gstate() if a['do'] == 'cloud' else ''
        return in_fork(go)

    def execute(self, sc, run):
        np.random.seed(sc['start'])
        random.seed(sc['start'])
        entropy = Entropy(sc['start'])
        last = 'none'
        for n, a in enumerate(sc['acts']):
            do = a['do']
            run.steps += 1
            run.state(do, last, a['seed'] if a['seed'] in self.SEEDS else 'other', a['state']['kind'])
            if do == 'noise':
                self.noise(a)
                run.fault('generator_used_' + a['noise'])
            elif do == 'call':
                c = lib.EVERY[a['call']]
                try:
                    f, x, k = c(lib.inventory(a['entropy'] % 50), a['flags'])
                    f(*x, **k)
                except Exception:
                    pass
                run.fault('other_call')
            elif do == 'fresh':
                self.unseeded(sc, a, entropy, run)
            else:
                want, wstate = self.alone(sc, a)
                before, pbefore = gstate(), random.getstate()
                got = attempt(self.make(sc, a))
                self.agree(got, want, 'not-reproducible', f'action {n} ({do}, seed {a["seed"]}, state {a["state"]}) after {last}')
                run.log(n, do, got[0], a['seed'])
                check(random.getstate() == pbefore, 'generator-touched', f'{do} with seed {a["seed"]} used the generator of module random')
                if do == 'cloud':
                    check(gstate() == wstate, 'not-reproducible', f'action {n}: the global generator is left in another state than by the same generation alone')
                    self.consumption(sc, a, got, run)
                else:
                    check(gstate() == before, 'generator-touched', f'{do} with seed {a["seed"]} used the global generator')
                    self.seeds_differ(sc, a, got, run)
                if do == 'multi':
                    self.hours(sc, a, run)
                if sc['fresh']:
                    self.interpreter(sc, a, want, run)
            last = do if do != 'noise' else a['noise']
        entropy.undo()
        if len(sc['threads']) > 1:
            self.between_threads(sc, run)
        run.nontrivial = bool(run.faults)

    def agree(self, got, want, cls, what):
        check(got[0] == want[0], cls, f'{what}: {got[0]} {got[1] if got[0] == "raised" else ""}, alone {want[0]} {want[1] if want[0] == "raised" else ""}')
        d = lib.differ(got[1], want[1], 1e-6)
        check(not d, cls, lambda: f'{what}: not the same as when made alone, {d}')

    @staticmethod
    def noise(a):
        k = a['noise']
        if k == 'rand':
            np.random.rand(a['seed'] % 700)
        elif k == 'seed':
            np.random.seed(a['entropy'] % 1000)
        elif k == 'normal':
            np.random.normal(size=3)                  # leaves half a pair behind
        elif k == 'python':
            random.random()
        elif k == 'rng':
            np.random.default_rng(a['entropy']).random(5)
        elif k == 'shuffle':
            np.random.shuffle(np.arange(9))
        else:
            np.random.rand(312 * 2)

    def unseeded(self, sc, a, entropy, run):
        s = sc['setups'][a['i']]
        before = gstate()
        kw = dict(scale=False, noneg=False)
        entropy.set(a['entropy'])
        x = real(downscale, s, None, what='downscale', **kw)
        y = real(downscale, s, None, what='downscale', **kw)
        entropy.set(a['entropy'] + 1)
        z = real(downscale, s, None, what='downscale', **kw)
        run.fault('entropy_drawn', entropy.used)
        check(gstate() == before, 'generator-touched', 'unseeded downscaling used the global generator')
        check(not np.array_equal(x, y) and not np.array_equal(x, z), 'unseeded-repeats', 'two unseeded downscaling calls gave the same series')
        for seed in (0, 1):
            w = real(downscale, s, seed, what='downscale', **kw)
            check(not np.array_equal(x, w), 'unseeded-repeats', f'an unseeded call gave the series of seed {seed}')

    def seeds_differ(self, sc, a, got, run):
        if got[0] != 'returned' or a['do'] != 'down':
            return
        s = sc['setups'][a['i']]
        seeds = [a['seed'], a['seed'] + 1, a['seed'] + 2 ** 32]
        out = [real(downscale, s, k, scale=False, noneg=False, what='downscale') for k in seeds]
        for i in range(len(out)):
            for j in range(i):
                check(np.abs(out[i] - out[j]).max() > 1e-9, 'seeds-agree', f'seeds {seeds[i]} and {seeds[j]} give the same series')
        run.probe('seeds_compared')

    def consumption(self, sc, a, got, run):
        """Two fields take two sets of numbers; another state gives another field."""
        c = sc['clouds'][a['i']]
        if got[0] != 'returned':
            return
        st = stream(a['state'])
        np.random.set_state(st)
        np.random.rand(2 * drawn(c) - 1)
        early = gstate()
        np.random.rand(1)
        exact = gstate()
        np.random.set_state(st)
        attempt(lambda: cloud(c))
        end = gstate()
        np.random.set_state(st)
        np.random.rand(drawn(c))
        half = gstate()
        run.probe('numbers_as_counted' if end == exact else 'numbers_otherwise')
        check(end not in (half, early), 'field-reused', 'the clear mask was made from the numbers of the cloud field')
        if a['state']['kind'] == 'seed' and a['state']['seed'] % 3 == 0 and 1 in c['scales'] and c['frac'] < 0.95:
            np.random.set_state(stream({'kind': 'seed', 'seed': a['state']['seed'] + 5000}))
            other = attempt(lambda: cloud(c))
            if other[0] == 'returned':
                check(lib.differ(other[1], got[1], 1e-9), 'state-ignored', 'two states of the global generator give the same field')
                run.probe('states_compared')

    def hours(self, sc, a, run):
        s, m = sc['setups'][a['i']], sc['multis'][a['i']]
        kw = dict(scale=bool(a['flags'] & 1), noneg=bool(a['flags'] & 2))
        got, (tm, spd, dr, csi, par) = real(multihour, s, m, a['seed'], what='downscale_multihour', **kw)
        P = positions(s)
        want = [real(copula.downscale, tm[h], P[:, 0], P[:, 1], spd[h], dr[h], csi[h], par[h], seed=a['seed'], what='downscale', **kw)
                for h in range(m['hours'])]
        want = np.concatenate(want)
        check(got.shape == want.shape and np.allclose(got, want, rtol=1e-6, atol=1e-9, equal_nan=True), 'hour-differs',
              lambda: f'the multi-hour run of form {m["form"]} ({m["hours"]} hours) is not its hours one by one')
        run.probe('hours_compared')

    def interpreter(self, sc, a, want, run):
        """The same call in a Python process started from nothing."""
        env = dict(os.environ, PYTHONHASHSEED='4711')
        env.pop('LD_PRELOAD', None)
        code = ('import os, sys, json, pickle; out = os.dup(1); os.dup2(2, 1); '
                'from dst.worlds.draws import Reproducible, attempt; r = Reproducible(); '
                'sc, a = json.loads(sys.stdin.read()); os.fdopen(out, "wb").write(pickle.dumps(attempt(r.make(sc, a))))')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], input=json.dumps([sc, a]).encode(), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-800:])
        import pickle
        run.fault('fresh_interpreter')
        self.agree(pickle.loads(p.stdout), want, 'not-reproducible', f'{a["do"]} in a newly started interpreter')

    def between_threads(self, sc, run):
        jobs = sc['threads']
        if sum(a['do'] == 'cloud' for a in jobs) > 1:
            return
        alone = [self.alone(sc, a) for a in jobs]
        count = [0]

        def counting(code, line):
            count[0] += 1

        def dry():
            with statements(counting):
                for a in jobs:
                    attempt(self.make(sc, a))
            return count[0]
        total = in_fork(dry)
        turns = Turns(len(jobs), sorted((max(1, int(f * total)), p) for f, p in sc['moves']), lambda: None)
        out = [None] * len(jobs)

        def body(me):
            turns.wait(me)
            try:
                turns.who[threading.get_ident()] = me
                out[me] = attempt(self.make(sc, jobs[me]))
                del turns.who[threading.get_ident()]
            finally:
                turns.finish(me)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        with statements(turns.tick):
            for t in ts:
                t.start()
            turns.sem[0].release()
            if not turns.done.acquire(timeout=90) or turns.stuck:
                raise RuntimeError('schedule broke down')
            for t in ts:
                t.join(20)
        run.fault('preemption', len(turns.trace))
        run.steps += turns.count
        for t in turns.trace[:40]:
            run.log('turn', *t)
        for a, got, (want, _) in zip(jobs, out, alone):
            self.agree(got, want, 'not-reproducible', f'{a["do"]} with seed {a["seed"]} between other threads')
        run.probe('threads_compared')


class Entropy:
    """Deterministic stand-in for the operating system's entropy."""

    def __init__(self, seed):
        self.rng, self.used, self.was = random.Random(seed), 0, []
        import secrets
        for mod, name in ((os, 'urandom'), (random, '_urandom')):
            self.was.append((mod, name, getattr(mod, name)))
            setattr(mod, name, self.take)

    def take(self, n):
        self.used += 1
        return self.rng.randbytes(n)

    def set(self, seed):
        self.rng = random.Random(seed)
        self.used = 0

    def undo(self):
        for mod, name, f in self.was:
            setattr(mod, name, f)


# ================================================================ C14
class Downscale(World):
    prop = 'C14'
    batch = 10
    runs = {'quick': 8000, 'thorough': 120000}
    wall = {'quick': 75, 'thorough': 3000}
    timeout = 150
    rule = ('one run = one site layout, time base, motion and mean index with one stream of random numbers, generated with all four settings '
            'of the two flags, or a multi-hour run, or an ensemble of streams; non-trivial when sites are linked by the motion or hours mixed')
    measure = 'distinct (kind, sites, times, links, argument forms, parameter set)'
    real_parts = ['copula.downscale', 'copula.downscale_multihour', 'spatial.spacetime_distances', 'numpy/scipy/scikit-learn']
    stub_parts = ['streams of random numbers']
    assumptions = ['a site downstream agrees with the upstream one to 2e-3 of the index (the correlation matrix is singular there)',
                   'scaled values are judged unless every sample was clipped to zero',
                   'ensemble statistics use fixed streams and limits of one in a million']

    def generate(self, rng, tier):
        kind = rng.choice(['single'] * 6 + ['multi'] * 4 + ['ensemble'] * (1 if rng.random() < 0.1 else 0))
        return {'kind': kind, 'setup': gen_setup(rng), 'multi': gen_multi(rng), 'seed': rng.choice([0, 1, rng.randrange(1 << 31)])}

    def directed(self, tier):
        out = []
        rng = random.Random(14)
        forms = ['one', 'list', 'array', 'single']
        for a in forms:
            for b in forms:
                sc = {'kind': 'multi', 'setup': gen_setup(rng), 'multi': gen_multi(rng), 'seed': 5}
                sc['multi'].update(hours=3, grow=False)
                sc['multi']['form'].update(spd=a, dir=b)
                sc['setup']['ntimes'] = 3 if a == 'list' else 5
                out.append(sc)
        for csi in (0.3, 0.5, 0.7, 0.9):
            for p in (0, 1):
                s = gen_setup(rng)
                s.update(csi=csi, params=p)
                out.append({'kind': 'ensemble', 'setup': s, 'multi': gen_multi(rng), 'seed': int(csi * 100)})
        return out

    def shrink(self, sc):
        s, m = sc['setup'], sc['multi']
        if len(s['sites']) > 1:
            last = len(s['sites']) - 1
            yield dict(sc, setup=dict(s, sites=s['sites'][:-1], links=[x for x in s['links'] if x[1] != last]))
        for k, v in (('ntimes', 2), ('tz', None), ('params', 0), ('origin', [0.0, 0.0]), ('dir', 0.0), ('step', 10)):
            if s[k] != v:
                yield dict(sc, setup=dict(s, **{k: v}))
        for k in ('spd', 'dir', 'times', 'params'):
            if m['form'][k] != 'one':
                yield dict(sc, multi=dict(m, form=dict(m['form'], **{k: 'one'})))
        if m['hours'] > 1:
            yield dict(sc, multi=dict(m, hours=m['hours'] - 1))

    def execute(self, sc, run):
        s = sc['setup']
        run.steps += 1
        run.sim += s['ntimes'] * s['step']
        run.state(sc['kind'], len(s['sites']), s['ntimes'], len(s['links']), tuple(sc['multi']['form'].values()) if sc['kind'] == 'multi' else (), s['params'])
        getattr(self, sc['kind'])(sc, run)

    def single(self, sc, run):
        s, seed = sc['setup'], sc['seed']
        out = {}
        for scale in (False, True):
            for noneg in (False, True):
                out[scale, noneg] = np.asarray(real(downscale, s, seed, scale=scale, noneg=noneg, what='downscale'))
        self.judge(out, s['ntimes'], len(s['sites']), s['csi'], f'mean index {s["csi"]}, seed {seed}')
        raw = out[False, False]
        for j, i, k in s['links']:
            run.fault('downstream_site' if k else 'same_place')
            T = s['ntimes']
            if k < T:
                d = np.abs(raw[k:, i] - raw[:T - k, j]).max()
                check(d < 2e-3, 'motion-not-followed', lambda: f'the site {k} steps downstream differs from the upstream series by {d:.4f} '
                      f'(speed {s["spd"]}, direction {s["dir"]}, step {s["step"]} s, mean index {s["csi"]})')
        run.log('single', raw.shape, f'{raw.mean():.6f}')
        default = np.asarray(real(downscale, s, seed, what='downscale'))
        check(np.array_equal(default, out[True, True], equal_nan=True), 'defaults', 'scaling and clipping are not the defaults')

    @staticmethod
    def judge(out, T, n, csi, what):
        raw, clip = out[False, False], out[False, True]
        for k, x in out.items():
            check(x.shape == (T, n), 'shape', f'{what}: series of shape {x.shape} for {T} times and {n} sites')
        check(np.isfinite(raw).all() and (np.abs(raw) <= 2).all(), 'not-finite', lambda: f'{what}: values {raw.min()}..{raw.max()}')
        check(np.array_equal(clip, np.where(raw < 0, 0, raw)), 'clipping-changes-more', f'{what}: clipping does more or less than setting negative values to zero')
        for noneg in (False, True):
            base = out[False, noneg]
            x = out[True, noneg]
            m = base.mean()
            if abs(m) < 1e-6:
                continue
            check(np.isfinite(x).all(), 'not-finite', f'{what}: scaled series not finite')
            check(abs(x.mean() - csi) <= 1e-9 * max(1.0, np.abs(x).max()), 'mean-missed', lambda: f'{what}, clipping {noneg}: mean {x.mean()!r}')
            check(np.allclose(x, base * (csi / m), rtol=1e-9, atol=1e-12), 'scaling-changes-more', f'{what}: scaling is not one common factor')
            if noneg:
                check((x >= 0).all(), 'negative', lambda: f'{what}: negative value {x.min()} in spite of clipping')

    def multi(self, sc, run):
        s, m, seed = sc['setup'], sc['multi'], sc['seed']
        run.fault('hours_mixed', m['hours'])
        outs = {}
        for scale in (False, True):
            for noneg in (False, True):
                outs[scale, noneg], each = real(multihour, s, m, seed, scale=scale, noneg=noneg, what=f'downscale_multihour with {m["form"]}, {m["hours"]} hours')
        tm, spd, dr, csi, par = each
        rows = [len(t) for t in tm]
        for k, x in outs.items():
            check(np.shape(x) == (sum(rows), len(s['sites'])), 'shape', f'multi-hour series of shape {np.shape(x)} for {rows} times')
        P, at = positions(s), 0
        for h in range(m['hours']):
            part = {k: np.asarray(x)[at:at + rows[h]] for k, x in outs.items()}
            self.judge(part, rows[h], len(s['sites']), csi[h], f'hour {h}, mean index {csi[h]}, form {m["form"]}')
            one = real(copula.downscale, tm[h], P[:, 0], P[:, 1], spd[h], dr[h], csi[h], par[h], seed=seed, scale=False, noneg=False, what='downscale')
            check(np.allclose(part[False, False], one, rtol=1e-6, atol=1e-9), 'hour-differs',
                  lambda: f'hour {h} of form {m["form"]} is not the single-hour series with speed {spd[h]}, direction {dr[h]}')
            at += rows[h]
        run.log('multi', m['hours'], f'{np.asarray(outs[False, False]).mean():.6f}')
        # an hour of its own motion: pairs of sites linked by that hour's motion
        if m['form']['spd'] in ('list', 'array', 'tuple') or m['form']['dir'] in ('list', 'array', 'tuple'):
            for h in range(m['hours']):
                u = spd[h] * s['step'] * np.array([np.cos(dr[h]), np.sin(dr[h])])
                E, N = np.array([0.0, u[0]]), np.array([0.0, u[1]])
                (a_tm, a_spd, a_dir, a_csi, a_par), _ = hours_of(s, m, m['form'])
                x = real(copula.downscale_multihour, a_tm, E, N, a_spd, a_dir, a_csi, a_par, seed=seed, scale=False, noneg=False, what='downscale_multihour')
                lo = sum(rows[:h])
                x = x[lo:lo + rows[h]]
                if rows[h] > 1:
                    d = np.abs(x[1:, 1] - x[:-1, 0]).max()
                    check(d < 2e-3, 'motion-not-followed', lambda: f'hour {h} does not follow its own motion (difference {d:.4f})')
                    run.probe('hour_motion')

    def ensemble(self, sc, run):
        """Distribution and correlation over many streams."""
        s = sc['setup']
        K, p = s['csi'], params_of(s)
        sig = lambda x, a, c: 1 / (1 + np.exp(-a * (x - c)))
        w1 = 1 - p['comp'][0] * sig(K, p['comp'][1], p['comp'][2])
        w2 = 1 - w1
        mu2 = p['mean'][0] * w1 * K + p['mean'][1] * w2 * (K - p['mean'][2])
        mu1 = (K - w2 * mu2) / w1
        s2 = p['sdevClear'][0] * (1 - sig(K, p['sdevClear'][1], p['sdevClear'][2]))
        s1 = p['sdevCloud'][0] * sig(K, p['sdevCloud'][1], p['sdevCloud'][2])
        decay = max(p['corr_quadr'] * K * (1 - K), 1e-5)
        cdf = lambda x: w1 * ndtr((x - mu1) / s1) + w2 * ndtr((x - mu2) / s2)
        if cdf(2.0) - cdf(-2.0) < 0.995:
            run.probe('distribution_cut')
            return
        n = 12
        far = 40 / decay
        P = np.array([[k * far, 0.0] for k in range(n)] + [[k * far, 0.4 / decay] for k in range(n)])
        t = pd.date_range('2014-06-01', periods=1, freq='10s')
        xs = [real(copula.downscale, t, P[:, 0], P[:, 1], 5.0, 0.3, K, p, seed=sc['seed'] * 1000 + k, scale=False, noneg=False, what='downscale')[0]
              for k in range(150)]
        x = np.array(xs)
        flat = np.sort(x[:, :n].ravel())
        N = flat.size
        F = (cdf(flat) - cdf(-2.0)) / (cdf(2.0) - cdf(-2.0))
        D = max(np.abs(F - np.arange(1, N + 1) / N).max(), np.abs(F - np.arange(N) / N).max())
        lim = np.sqrt(-np.log(0.5e-6) / (2 * N)) + 0.012
        run.log('ensemble', f'{D:.5f} {lim:.5f} {flat.mean():.5f}')
        check(D <= lim, 'wrong-distribution', f'mean index {K}: values over {N} streams leave the two-component distribution by {D:.3f} (limit {lim:.3f})')
        z = ndtri(np.clip((cdf(x) - cdf(-2.0)) / (cdf(2.0) - cdf(-2.0)), 1e-6, 1 - 1e-6))
        rho = np.corrcoef(z[:, :n].ravel(), z[:, n:].ravel())[0, 1]
        want = np.exp(-0.4)
        run.log('rho', f'{rho:.4f}')
        check(abs(rho - want) < 0.09, 'wrong-correlation', f'mean index {K}: sites {0.4 / decay:.0f} m apart correlate with {rho:.3f}, the model says {want:.3f}')
        far_rho = np.corrcoef(z[:, 0:n - 1].ravel(), z[:, 1:n].ravel())[0, 1]
        check(abs(far_rho) < 0.13, 'wrong-correlation', f'mean index {K}: sites {far:.0f} m apart correlate with {far_rho:.3f}')
        run.fault('stream_of_ensemble', len(xs))


# ================================================================ C15
class CloudField(World):
    prop = 'C15'
    batch = 15
    runs = {'quick': 6000, 'thorough': 300000}
    wall = {'quick': 60, 'thorough': 3000}
    timeout = 120
    rule = ('one run = one state of the global generator (seeded, or crafted to deliver ties and extremes) and one set of target statistics, '
            'generated as a whole or stage by stage, and series extracted for positions; non-trivial when a field came out')
    measure = 'distinct (kind, scaling, stream kind, size class, outcome: reached / out of reach / refused)'
    real_parts = ['cloudfield.cloudfield_timeseries and its stages', 'cloudfield.get_positional_ts', 'numpy global generator', 'scipy']
    stub_parts = ['state of the global generator']
    assumptions = ['a field of one single value cannot be scaled and is not judged',
                   'basic scaling is judged for range where the cloudy values leave their own outer percentiles by less than the range between them']

    def generate(self, rng, tier):
        c = gen_cloud(rng, small=rng.random() < 0.4)
        return {'kind': rng.choice(['whole', 'whole', 'stages', 'stages', 'extract']), 'cloud': c,
                'stream': {'kind': rng.choice(STREAMS + ['seed'] * 8), 'seed': rng.randrange(1 << 20)}, 'speed': rng.choice([0.7, 3.0, 5.0, 11.3]),
                'pick': rng.randrange(1 << 20), 'flip': rng.random() < 0.5, 'calm': rng.choice([None, None, 0.6])}

    def directed(self, tier):
        rng = random.Random(15)
        out = []
        for st in sorted(set(STREAMS)):
            for kind in ('whole', 'stages', 'extract'):
                for scaling in ('original', 'basic'):
                    sc = self.generate(rng, tier)
                    sc.update(kind=kind, stream={'kind': st, 'seed': 4})
                    sc['cloud'].update(size=[12, 10], scaling=scaling, frac=0.25, scales=[1, 2], w=[0.6, 0.4])
                    out.append(sc)
        for frac in (0.0, 0.1, 0.3, 0.5, 0.7):
            for mean in (0.3, 0.5, 0.7, 0.95):
                for scaling in ('original', 'basic'):
                    sc = self.generate(rng, tier)
                    sc.update(kind='whole', stream={'kind': 'seed', 'seed': 9})
                    sc['cloud'].update(size=[300, 200], scaling=scaling, frac=frac, mean=mean, scales=[5, 6, 7, 8], w=[0.1, 0.2, 0.3, 0.4], max=1.2, low=0.1)
                    out.append(sc)
        return out

    def shrink(self, sc):
        c = sc['cloud']
        if len(c['w']) > 1:
            yield dict(sc, cloud=dict(c, w=[x / sum(c['w'][:-1]) for x in c['w'][:-1]], scales=c['scales'][:-1]))
        for k, v in (('size', [10, 10]), ('size', [c['size'][0] // 2, c['size'][1] // 2]), ('smooth', 1), ('max', 1.2), ('low', 0.2), ('mean', 0.6),
                     ('frac', 0.5)):
            if c[k] != v and min(c['size']) >= 8:
                yield dict(sc, cloud=dict(c, **{k: v}))
        if sc['stream']['kind'] != 'seed':
            yield dict(sc, stream={'kind': 'seed', 'seed': 1})

    def execute(self, sc, run):
        np.random.set_state(stream(sc['stream']))
        if sc['stream']['kind'] != 'seed':
            run.fault('crafted_' + sc['stream']['kind'])
        else:
            run.fault('seeded_stream')
        run.steps += 1
        devnull = open(os.devnull, 'w')
        keep, sys.stdout = sys.stdout, devnull
        try:
            end = getattr(self, sc['kind'])(sc, run)
        finally:
            sys.stdout = keep
            devnull.close()
        c = sc['cloud']
        run.nontrivial = end != 'refused'
        run.probe(f'{sc["kind"]}_{end}')
        run.state(sc['kind'], c['scaling'], sc['stream']['kind'], c['size'][0] * c['size'][1] > 1000, end)
        run.log(sc['kind'], end)

    # -- the whole generation, judged from the outside
    def whole(self, sc, run):
        c = sc['cloud']
        try:
            f = cloud(c)
        except (AssertionError, IndexError, ValueError, ZeroDivisionError):
            self.may_refuse(sc)
            return 'refused'
        f = np.asarray(f)
        what = f'{c["scaling"]} field {c["size"]}, clear {c["frac"]}, mean {c["mean"]}, low {c["low"]}, max {c["max"]}'
        check(f.shape == tuple(c['size']), 'size', f'{what}: came out as {f.shape}')
        if self.degenerate(sc, run):
            return 'degenerate'
        if (1 not in c['scales'] and f.size < 2000) or f.size * (1 - c['frac']) < 8:
            return 'degenerate'                 # possibly one single value wherever it is cloudy
        check(np.isfinite(f).all(), 'not-finite', f'{what}: {np.isnan(f).sum()} values are not finite')
        run.sim += f.shape[0]
        clear = f == 1.0
        n = f.size
        run.log('field', lib.fingerprint(np.round(f, 9)))
        want = c['frac'] * n
        check(clear.sum() >= want * (1 - 2e-3) - 1e-9, 'clear-fraction', f'{what}: {clear.sum()} of {n} cells are clear, {want:.1f} asked for')
        smooth = sc['stream']['kind'] != 'seed' or 1 not in c['scales']        # equal values are possible
        check(clear.sum() <= want * (1 + 2e-3) + max(3, 0.02 * n) or smooth, 'clear-fraction',
              f'{what}: {clear.sum()} of {n} cells are clear, {want:.1f} asked for')
        if clear.sum() > int(np.floor(c['frac'] * (n - 1))) + (c['frac'] > 0):
            return 'ambiguous'                  # an edge or cloudy cell is exactly 1, too
        grad = (ndimage.sobel(clear.astype(float), 0) ** 2 + ndimage.sobel(clear.astype(float), 1) ** 2)
        if c['scaling'] == 'original':
            edge = (grad > 0) & ~clear
        else:
            edge = (ndimage.uniform_filter(grad, size=c['smooth']) > 1e-5) & ~clear
        rest = ~clear & ~edge
        if edge.any():
            check(f[edge].min() >= 1 - 1e-12, 'edge-below-clear',
                  lambda: f'{what}: a cloud edge has index {f[edge].min()}, below the clear value')
            check(f[edge].max() <= c['max'] + 1e-9, 'above-maximum', lambda: f'{what}: a cloud edge has index {f[edge].max()}')
        return self.mean(f, clear, edge, rest, c, what, run)

    def mean(self, f, clear, edge, rest, c, what, run):
        n = f.size
        target = c['mean'] * n
        fixed = f[clear | edge].sum()
        reach = target - fixed > 1e-9 * n and rest.any()
        close = abs(f.mean() - c['mean']) <= 1e-9 * max(1, np.abs(f).max())
        if c['scaling'] == 'original':
            if reach:
                check(close, 'mean-missed', lambda: f'{what}: mean {f.mean():.6f} although the cloudy part could be scaled to reach it')
                return 'reached'
            check(f.mean() >= c['mean'] - 1e-9 or not rest.any(), 'mean-missed', lambda: f'{what}: mean {f.mean():.6f} is too low although clear sky and edges alone exceed the target')
            return 'out_of_reach'
        if not rest.any() or c['frac'] * n + 50 > n:
            return 'out_of_reach'
        lifted = (f[rest] - c['low']).sum()
        check(f[rest].min() >= c['low'] - 1e-9, 'below-low', lambda: f'{what}: a cloudy cell has index {f[rest].min():.4f}')
        room = target - fixed - c['low'] * rest.sum()
        if not close:
            check(not (0 < room and lifted > 1.001 * room and lifted > 1.001 * (1 - c['low']) * c['low'] * rest.sum()), 'mean-missed',
                  lambda: f'{what}: mean {f.mean():.6f}, brighter than asked for although darker clouds can reach it')
            check(f[rest].max() <= 1 + 1e-9, 'above-maximum', lambda: f'{what}: a cloudy cell has index {f[rest].max():.4f}')
        return 'reached' if close else 'out_of_reach'

    def degenerate(self, sc, run):
        """One single value in either random field."""
        np.random.set_state(stream(sc['stream']))
        c = sc['cloud']
        x = np.random.rand(min(2 * drawn(c), 20000))
        return len(np.unique(np.round(x, 12))) < 8 or sc['stream']['kind'] in ('zeros', 'ones', 'half', 'tiny')

    def may_refuse(self, sc):
        """A refusal is right when the clear fraction cannot be had from this field or leaves no cloud."""
        c = sc['cloud']
        n = c['size'][0] * c['size'][1]
        if sc['stream']['kind'] != 'seed' or c['frac'] >= 1 or 1 not in c['scales']:
            return                              # coarser layers alone may hold equal values
        k = int(np.floor(c['frac'] * (n - 1))) + 1
        if c['frac'] == 0:
            k = 0
        near = abs(k / n - c['frac'])
        check(near > 0.9e-3 * c['frac'] - 1e-8, 'refused', f'generation refused clear fraction {c["frac"]} of {n} cells although {k} cells are that fraction')

    # -- stage by stage
    def stages(self, sc, run):
        c = sc['cloud']
        w, scales, size = np.array(c['w']), c['scales'], tuple(c['size'])
        a = real(cloudfield._stack_random_field, w, scales, size, what='_stack_random_field')
        run.log('stack', lib.fingerprint(np.round(a, 9)))
        b = real(cloudfield._stack_random_field, w, scales, size, what='_stack_random_field')
        for x in (a, b):
            check(x.shape == size, 'size', f'a stack of size {size} came out as {x.shape}')
            check(np.isfinite(x).all() and x.min() >= -1e-12 and x.max() <= w.sum() + 1e-9, 'not-finite',
                  lambda: f'a stack of numbers between 0 and 1 spans {x.min()}..{x.max()} for weights {w}')
        if sc['stream']['kind'] == 'seed' and a.size > 1:
            check(not np.array_equal(a, b), 'field-reused', 'two random fields are the same')
        self.linear(sc, a, run)
        n = b.size
        try:
            mask = cloudfield._calc_clear_mask(b.copy(), c['frac'])
        except AssertionError:
            order = np.sort(b.ravel())
            fits = [k for k in range(1, n) if np.isclose(c['frac'], k / n, rtol=0.9e-3) and order[k] - order[k - 1] > 1e-9]
            q = int(np.floor(c['frac'] * (n - 1))) + 1
            check(q not in fits or q == 0, 'refused', f'clear fraction {c["frac"]} refused although the {q} lowest of {n} cells are that fraction')
            return 'refused'
        check(mask.shape == size and np.isin(mask, (0, 1)).all(), 'mask', 'the clear mask has values other than 0 and 1')
        got = mask.sum() / n
        check(abs(got - c['frac']) <= 1e-3 * max(got, c['frac']) + 1e-7, 'clear-fraction', f'{got} of the cells are clear, {c["frac"]} asked for')
        if 0 < mask.sum() < n:
            check(b[mask == 1].max() <= b[mask == 0].min(), 'mask-not-lowest', 'a cell marked clear has a higher value than one marked cloudy')
        edges, smooth = real(cloudfield._find_edges, mask, c['smooth'], what='_find_edges')
        edges, smooth = np.asarray(edges), np.asarray(smooth)
        self.edges(mask, edges, smooth, c)
        if (mask == 1).all() or np.ptp(a[mask == 0]) < 1e-9 or np.quantile(a[mask == 0], 0.99) < 1e-6:
            return 'degenerate'
        for name, E in (('original', edges), ('basic', smooth), ('original', smooth)):
            self.scaled(sc, a, mask, E, name, run)
        return 'judged'

    def linear(self, sc, a, run):
        """The stack is the weighted sum of its layers made from the same numbers."""
        c = sc['cloud']
        np.random.set_state(stream(sc['stream']))
        total = np.zeros(tuple(c['size']))
        for w, s in zip(c['w'], c['scales']):
            layer = real(cloudfield._stack_random_field, np.array([1.0]), [s], tuple(c['size']), what='_stack_random_field')
            total += w * layer
            if s == 1:
                check(len(np.unique(layer)) > 1 or sc['stream']['kind'] != 'seed', 'layer-flat', 'the finest layer is one single value')
        check(np.allclose(total, a, rtol=0, atol=1e-9), 'stack-not-sum', 'the stack is not the weighted sum of its layers')
        np.random.set_state(stream(sc['stream']))
        np.random.rand(2 * drawn(c))

    def edges(self, mask, edges, smooth, c):
        inside = ndimage.binary_dilation(mask > 0, np.ones((3, 3))) & ndimage.binary_dilation(mask == 0, np.ones((3, 3)))
        check(not ((edges > 0) & ~inside).any(), 'edge-away-from-cloud', 'a cell away from any cloud edge is marked as edge')
        if 0 < mask.sum() < mask.size:
            step = np.zeros(mask.shape, bool)      # a straight border between three clear and three cloudy cells
            for ax in (0, 1):
                m = np.moveaxis(mask, ax, 0)
                st = np.moveaxis(step, ax, 0)
                if m.shape[0] >= 3 and m.shape[1] >= 3:
                    rows = (m[:, :-2] == m[:, 1:-1]) & (m[:, 1:-1] == m[:, 2:])
                    hit = rows[:-2] & rows[2:] & (m[:-2, 1:-1] != m[2:, 1:-1])
                    st[1:-1, 1:-1] |= hit
            check(not (step & ~(edges > 0)).any(), 'edge-missed', 'a straight cloud edge is not marked')
            check(not (step & ~smooth.astype(bool)).any(), 'edge-missed', 'a straight cloud edge is not marked in the broadened edges')
            reach = c['smooth'] // 2 + 1
            wide = ndimage.binary_dilation(inside, np.ones((3, 3)), iterations=reach)
            check(not (smooth.astype(bool) & ~wide).any(), 'edge-away-from-cloud', 'broadened edges reach further than the filter')

    def scaled(self, sc, a, mask, E, name, run):
        c = sc['cloud']
        what = f'{name} scaling {c["size"]}, clear {c["frac"]}, mean {c["mean"]}, low {c["low"]}, max {c["max"]}'
        keep = (a.copy(), mask.copy(), E.copy())
        calm = sc['calm'] if name == 'basic' else None
        if name == 'original':
            out = real(cloudfield._scale_field_lave, a, mask, E, c['mean'], c['max'], c['low'], what=what)
        else:
            out = real(cloudfield._scale_field_basic, a, mask, E, c['mean'], c['max'], c['low'], flipdistr=sc['flip'], cs_smoothing=calm, what=what)
        check(all(np.array_equal(x, y) for x, y in zip(keep, (a, mask, E))), 'arguments-changed', f'{what}: the given field or masks were changed')
        check(out.shape == a.shape and np.isfinite(out).all(), 'not-finite', f'{what}: values not finite')
        clear, edge = mask > 0, (E > 0) & (mask == 0)
        rest = ~clear & ~edge
        if calm is None:
            check((out[clear] == 1).all(), 'clear-not-one', f'{what}: a clear cell has another index than 1')
        cl = a[~clear]
        if name == 'basic':
            q = np.quantile(cl, 0.999) - np.quantile(cl, 0.001)
            if q <= 0 or cl.max() > np.quantile(cl, 0.999) + q or cl.min() < np.quantile(cl, 0.001) - q:
                run.probe('outliers')
                return
            if calm is not None and clear.any():
                return
        if edge.any():
            check(out[edge].min() >= 1 - 1e-9 and out[edge].max() <= c['max'] + 1e-9, 'edge-out-of-range',
                  lambda: f'{what}: cloud edges span {out[edge].min()}..{out[edge].max()}')
        target = c['mean'] * a.size
        fixed = out[clear | edge].sum()
        if not rest.any():
            return
        if name == 'original':
            x = 1 - a * (1 - c['low']) / np.quantile(cl, 0.99)
            x = np.clip(x, 0, 1)[rest]
            if target > fixed + 1e-9 and x.sum() > 0:
                check(abs(out.mean() - c['mean']) < 1e-9 * max(1, out.max()), 'mean-missed', lambda: f'{what}: mean {out.mean():.6f} although it can be reached')
                run.probe('mean_reached')
            order = np.argsort(a[rest], kind='stable')
            check((np.diff(out[rest][order]) <= 1e-9).all(), 'pattern-lost', f'{what}: denser cloud gives a higher index')
        else:
            need = target - fixed - c['low'] * rest.sum()
            x = self.pattern(a, cl, sc['flip'])[rest]
            factor = need / x.sum() if x.sum() > 0 else -1
            check(out[rest].min() >= c['low'] - 1e-9, 'below-low', lambda: f'{what}: cloudy cell of {out[rest].min():.4f}')
            if 0 < factor <= 1 - c['low'] and x.mean() > c['low'] * 1.001:
                check(abs(out.mean() - c['mean']) < 1e-9 * max(1, out.max()), 'mean-missed', lambda: f'{what}: mean {out.mean():.6f} although it can be reached')
                check(out.max() <= max(1.0, c['max']) + 1e-9, 'above-maximum', lambda: f'{what}: index {out.max():.4f}')
                run.probe('mean_reached')
            elif factor <= 0 or factor >= 1:
                check(out[rest].max() <= 1 + 1e-9, 'above-maximum', lambda: f'{what}: cloudy cell of {out[rest].max():.4f}')
                run.probe('mean_out_of_reach')

    @staticmethod
    def pattern(a, cl, flip):
        lo, hi = np.quantile(cl, 0.001), np.quantile(cl, 0.999)
        x = (a - lo) / (hi - lo)
        x = np.where(x > 1, 2 - x, x)
        x = np.where(x < 0, -x, x)
        return 1 - x if flip else x

    # -- series for positions
    def extract(self, sc, run):
        c = sc['cloud']
        rng = random.Random(sc['pick'])
        f = np.random.rand(*c['size'])
        v = sc['speed']
        keep = f.copy()
        for _ in range(6):
            r, col = rng.randrange(c['size'][0]), rng.randrange(c['size'][1])
            left = c['size'][0] - r - 1
            dur = rng.randint(0, left)
            k = rng.randint(0, max(0, left - dur))
            pos = ((r + 0.5) * v, (col + 0.5) * v)
            x = np.asarray(real(cloudfield.get_positional_ts, pos, f, v, dur, what='get_positional_ts'))
            check(np.array_equal(x, f[r:r + dur + 1, col]), 'wrong-passage', f'position {pos} at speed {v} for {dur} s: not the field\'s passage over it')
            y = np.asarray(real(cloudfield.get_positional_ts, (pos[0] + k * v, pos[1]), f, v, dur - k if dur > k else 0, what='get_positional_ts'))
            m = min(len(x) - k, len(y))
            if m > 0:
                check(np.array_equal(x[k:k + m], y[:m]), 'motion-not-followed', f'a position {k} s of travel further on does not show the same series {k} s apart')
            run.sim += dur
            run.log('passage', r, col, dur, k, f'{x.sum():.6f}')
        check(np.array_equal(f, keep), 'arguments-changed', 'extraction changed the field')
        return 'judged'
