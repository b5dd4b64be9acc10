"""C08: a plant crossed by clouds from two directions; the site plan is wrong
about one combiner and some combiners are dead."""
import random
import warnings

import numpy as np
import pandas as pd

from dst.core import World, check, real
from dst.worlds.sky import Sky, record, table
from solarspatialtools import cmv, field, signalproc, spatial

warnings.simplefilter('ignore')
TWO_PI = 2 * np.pi


class Site:
    def __init__(self, sc):
        rng = random.Random(f'site{sc["seed"]}')
        n, R = sc['n'], sc['extent']
        self.u = [np.array([np.cos(a), np.sin(a)]) for a in sc['theta']]
        pos = []
        tries = 0
        while len(pos) < n:                 # combiners stand apart, also as the clouds see them
            p = np.array([rng.uniform(0, R), rng.uniform(0, R)])
            tries += 1
            apart = 1.0 if tries < 4000 else 0.0
            if all(np.hypot(*(p - q)) > apart * R / n and all(abs((p - q) @ u) > apart * R / n / 20 for u in self.u) for q in pos):
                pos.append(p)
        self.pos = np.array(pos) + np.array(sc['origin'])
        self.labels = [f'CMB-{i + 1:03d}' for i in range(n)]
        rng.shuffle(self.labels)
        t = np.arange(sc['N']) * sc['dt']
        self.kt = []
        for k in (0, 1):
            v = sc['speed'][k]
            sky = Sky(f'{sc["seed"]}-{k}', size=v * sc['scale'], octaves=sc['octaves'], depth=0.35, fronts=sc['theta'][k])
            x = record(sky, pos - np.zeros(2), v * self.u[k], t)
            if sc['gains']:
                x = x * np.array([rng.uniform(0.8, 1.1) for _ in range(n)])
            noise = np.random.RandomState(rng.randrange(1 << 31)).standard_normal(x.shape)
            self.kt.append(x + sc['noise'] * noise)
        self.dead = {}
        self.days = {}                      # on which of the two days a combiner is dead
        for d in sc['dead']:
            i = d['i'] % n
            if i == sc['ref'] % n or i in self.dead:
                continue
            self.dead[i] = d['kind']
            self.days[i] = (0, 1) if d.get('day') is None else (d['day'],)
            for x in [self.kt[k] for k in self.days[i]]:
                if d['kind'] == 'nan':
                    x[:, i] = np.nan
                elif d['kind'] == 'burst':
                    s = int(d['a'] * (len(x) - 2))
                    x[s:s + 1 + len(x) // 10, i] = np.nan
                else:
                    x[:, i] = 0.0 if d['kind'] == 'zero' else 0.2 + 0.6 * d['a']


class Locate(World):
    prop = 'C08'
    batch = 12
    runs = {'quick': 1500, 'thorough': 80000}
    wall = {'quick': 75, 'thorough': 3000}
    timeout = 120
    rule = ('one run = one plant, two motions, one combiner whose recorded position is wrong and some dead combiners; located '
            'with the wrong position, with another wrong position and without the dead combiners; non-trivial when the '
            'recorded position was wrong or a combiner dead')
    measure = 'distinct (comparison mode, delay fit, kinds of dead combiners, wrong or right position, given or estimated motions)'
    real_parts = ['field.compute_predicted_position', 'signalproc.compute_delays_tf', 'spatial.compute_intersection', 'cmv.compute_cmv',
                  'numpy/scipy/pandas']
    stub_parts = ['clouds', 'combiners']
    assumptions = ['every combiner sees the same passage up to gain and small noise; position table and records list the '
                   'combiners in the same order, as the documentation asks',
                   'delay error is bounded by the bias of spectral averaging (1.3/(frequency limit * segment length) of the delay)']

    def generate(self, rng, tier):
        n = rng.randint(8, 20)
        extent = rng.choice([120, 200, 350])
        th = rng.uniform(0, TWO_PI)
        turn = rng.choice([-1, 1]) * rng.uniform(0.6, np.pi - 0.6)
        dead = [{'i': rng.randrange(n), 'kind': rng.choice(['nan', 'burst', 'const', 'zero']), 'a': round(rng.random(), 3),
                 'day': rng.choice([None, None, 0, 1])}
                for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        dt = rng.choice([1.0, 2.0, 5.0])
        wrong = rng.random() < 0.75
        return {'seed': rng.randrange(1 << 30), 'n': n, 'extent': extent, 'theta': [round(th, 6), round((th + turn) % TWO_PI, 6)],
                'speed': [round(rng.uniform(8, 18), 2), round(rng.uniform(8, 18), 2)], 'dt': dt, 'N': int(3600 / dt),
                'scale': round(rng.uniform(10, 20), 2), 'octaves': 1 if dt > 4 else rng.choice([1, 2]), 'gains': rng.random() < 0.4,
                'noise': rng.choice([0.0005, 0.002]), 'ref': rng.randrange(n), 'dead': dead,
                'wrong': [round(rng.uniform(-extent, extent), 2) for _ in range(2)] if wrong else [0.0, 0.0],
                'wrong2': [round(rng.uniform(-extent, extent), 2) for _ in range(2)],
                'mode': rng.choice(['coherence', 'coherence', 'global_coherence', 'distance', 'all', 'preavg']),
                'fit': rng.choice(['multi', 'multi', 'fit']), 'ndownsel': rng.choice([4, 6, 8]), 'navgs': rng.choice([4, 5]),
                'fl': rng.choice([0.02, 0.03, 0.015]), 'cl': rng.choice([0.6, 0.6, 0.4, 0.75]), 'vecs': rng.random() < 0.85,
                'origin': rng.choice([[0.0, 0.0], [412345.5, 5043210.25]]), 'pert': round(rng.uniform(0, TWO_PI), 4)}

    def directed(self, tier):
        rng = random.Random(8)
        out = []
        for mode in ('coherence', 'global_coherence', 'distance', 'all'):
            for fit in ('multi', 'fit'):
                for kind in (None, 'nan', 'const'):
                    sc = self.generate(rng, tier)
                    sc.update(mode=mode, fit=fit, n=14, ref=3, dead=[{'i': 5, 'kind': kind, 'a': 0.5}] if kind else [], wrong=[90.0, -60.0], vecs=True)
                    out.append(sc)
        return out

    def shrink(self, sc):
        for i in range(len(sc['dead'])):
            yield dict(sc, dead=sc['dead'][:i] + sc['dead'][i + 1:])
        for k, v in (('cl', 0.6), ('gains', False), ('origin', [0.0, 0.0]), ('wrong', [0.0, 0.0]), ('n', 8), ('octaves', 1), ('vecs', True),
                     ('noise', 0.0005), ('navgs', 5), ('fl', 0.02)):
            if sc[k] != v:
                yield dict(sc, **{k: v})

    def execute(self, sc, run):
        site = Site(sc)
        n, ref = sc['n'], sc['ref'] % sc['n']
        mode, lab = sc['mode'], site.labels
        dead = site.dead
        days = site.days
        once = any(len(x) == 1 for x in days.values())
        for i, k in dead.items():
            run.fault('combiner_' + k + ('' if len(days[i]) == 2 else '_one_day'))
        wrong = np.array(sc['wrong'])
        if wrong.any():
            run.fault('wrong_position')
        truth = site.pos[ref]
        vec = [sc['speed'][k] * site.u[k] for k in (0, 1)]

        def frames(keep):
            return [table(x[:, keep], [lab[i] for i in keep], sc['dt']) for x in site.kt]

        def locate(offset, keep=None, vecs=vec, pos=None, m=mode):
            keep = list(range(n)) if keep is None else keep
            P = (site.pos if pos is None else pos).copy()
            P[ref] = P[ref] + offset
            tab = pd.DataFrame(P[keep], index=[lab[i] for i in keep], columns=['E', 'N'])
            out = real(field.compute_predicted_position, frames(keep), tab, lab[ref], vecs, m, sc['ndownsel'], sc['navgs'], sc['cl'], sc['fl'],
                       sc['fit'], what='compute_predicted_position')
            run.steps += 1
            return out
        got, detail = locate(wrong)
        got = np.asarray(got, float)
        run.sim += 2 * sc['N'] * sc['dt']
        run.log('at', ' '.join(f'{x:.6g}' for x in got - site.pos.mean(0)))
        run.state(mode, sc['fit'], tuple(sorted(set(dead.values()))), bool(wrong.any()), sc['vecs'])
        check(got.shape == (2,), 'position-shape', f'position has shape {got.shape}')
        coh_mode = mode in ('coherence', 'global_coherence', 'preavg')
        missing = {i for i, k in dead.items() if k in ('nan', 'burst')}
        healthy = n - len(dead)
        # is the choice of comparison sensors free of faulty ones?
        gone = [{i for i in missing if k in days[i]} for k in (0, 1)]
        if coh_mode:
            free = healthy >= sc['ndownsel']
            share = [0.0, 0.0]
        elif mode == 'all':
            free = missing == set(dead)
            share = [1.0 / (n - len(gone[k])) for k in (0, 1)]
        else:
            P = site.pos.copy()
            P[ref] = P[ref] + wrong
            near = np.argsort(np.hypot(*(P - P[ref]).T), kind='stable')[:sc['ndownsel']]
            free = all(i not in dead or i in missing for i in near)
            share = [1.0 / max(1, len([i for i in near if i not in gone[k]])) for k in (0, 1)]
        if free:
            want = truth + np.linalg.solve(np.array(site.u), [share[k] * (wrong @ site.u[k]) for k in (0, 1)])
            seg = sc['N'] // sc['navgs'] * sc['dt']
            e = []
            for k in (0, 1):
                tau = np.abs((site.pos - truth) @ site.u[k]) / sc['speed'][k]
                tau = np.delete(tau, list(dead))
                tol = tau * 1.3 / (sc['fl'] * seg) + 0.05 * sc['dt'] + 0.02
                e.append(sc['speed'][k] * (np.sort(tol)[-8:].mean() if mode != 'all' else tol.mean()))
            phi = sc['theta'][1] - sc['theta'][0]
            bound = sum(e) / abs(np.sin(phi)) + 0.01
            run.probe('truth')
            check(np.isfinite(got).all() and np.hypot(*(got - want)) <= bound, 'wrong-position',
                  lambda: f'{mode}/{sc["fit"]}: located {got - truth} m from the true position (recorded {wrong} m off, '
                  f'{want - truth} m expected), estimation error {bound:.1f} m')
        # what the estimate was made of, as the detailed output tells it
        _, every = locate(wrong, m='all')
        for k in (0, 1):
            df = frames(list(range(n)))[k]
            lag, extra = real(signalproc.compute_delays_tf, df[lab[ref]], df, navgs=sc['navgs'], coh_limit=sc['cl'], freq_limit=sc['fl'],
                              method=sc['fit'], what='compute_delays_tf')
            for col, own in (('delay', lag), ('coh', extra['mean_coh'])):
                check(np.allclose(every[k][col].to_numpy(), np.asarray(own, float), rtol=1e-9, atol=1e-12, equal_nan=True), 'settings-lost',
                      lambda: f'the {col} of record {k} is not that of the estimator with the given settings')
            if mode in ('coherence', 'preavg') and n - sum(k in x for x in days.values()) >= sc['ndownsel']:
                coh = every[k]['coh'].drop(lab[ref])
                used = set(detail[k].index) - {lab[ref]}
                best = set(coh.sort_values().index[-len(used):]) if used else set()
                check(len(used) >= sc['ndownsel'] - 1 and used == best, 'wrong-comparison',
                      lambda: f'record {k}: compared with {sorted(used)}, most coherent are {sorted(best)}')
                run.probe('comparison_checked')
        if coh_mode:
            other, _ = locate(np.array(sc['wrong2']))
            check(np.hypot(*(other - got)) < 1e-5, 'recorded-position-matters',
                  lambda: f'{mode}: recorded position {sc["wrong2"]} m off instead of {sc["wrong"]} moves the prediction by {other - got} m')
            run.probe('moved_compared')
        if dead and not once and (coh_mode and free or mode == 'all' and missing == set(dead)):
            keep = [i for i in range(n) if i not in dead]
            clean, _ = locate(wrong, keep)
            check(np.hypot(*(clean - got)) < 1e-3, 'dead-sensor-matters',
                  lambda: f'{mode}/{sc["fit"]}: leaving out dead {dead} moves the prediction by {clean - got} m')
            run.probe('dead_compared')
        if not sc['vecs'] and not dead:
            P = site.pos.copy()
            P[ref] = P[ref] + wrong
            tab = pd.DataFrame(P, index=lab, columns=['E', 'N'])
            est = []
            for df in frames(list(range(n))):
                s, a, _ = real(cmv.compute_cmv, df, tab, what='compute_cmv')
                est.append(spatial.pol2rect(s, a))
            if all(np.hypot(*x) > 0 for x in est) and abs(est[0][0] * est[1][1] - est[0][1] * est[1][0]) > 0.1 * np.hypot(*est[0]) * np.hypot(*est[1]):
                a, _ = locate(wrong, vecs=None)
                b, _ = locate(wrong, vecs=est)
                check(np.hypot(*(a - b)) < 1e-6, 'default-motion', f'estimated motions give {a}, the same motions given explicitly {b}')
                run.probe('default_motion')
        # turning the plan and the motions together turns the prediction
        c, s = np.cos(sc['pert']), np.sin(sc['pert'])
        M = np.array([[c, -s], [s, c]])
        mid = site.pos.mean(0)
        pos2 = (site.pos - mid) @ M.T + np.array([100.0, -50.0])
        sel = mode != 'distance'
        if sel:
            turned, _ = locate(M @ wrong, vecs=[M @ v for v in vec], pos=pos2)
            back = (turned - np.array([100.0, -50.0])) @ M + mid
            check(np.hypot(*(back - got)) < 1e-5, 'depends-on-axes', lambda: f'{mode}: turning the site moves the prediction by {back - got} m')
            run.probe('turned_compared')
