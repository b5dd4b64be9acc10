"""C22: combiners of a plant are mislabelled; clouds from several directions,
workers that get lost and a coordinator that restarts; the plan is put right."""
import itertools
import pickle
import random
import warnings

import numpy as np
import pandas as pd

from dst.core import World, check, real
from dst.worlds.sky import Sky, record, table
from solarspatialtools import cmv, field, spatial

warnings.simplefilter('ignore')
TWO_PI = 2 * np.pi


def match(cost, slack):
    """Cheapest one-to-one assignment of rows to columns; whether it stays the only
    cheapest one when every row's distances may be off by that row's slack."""
    n = len(cost)

    def solve(C):
        # shortest augmenting paths
        INF = float('inf')
        u, v, p, way = [0.0] * (n + 1), [0.0] * (n + 1), [0] * (n + 1), [0] * (n + 1)
        for i in range(1, n + 1):
            p[0], j0 = i, 0
            least, used = [INF] * (n + 1), [False] * (n + 1)
            while True:
                used[j0] = True
                i0, delta, j1 = p[j0], INF, 0
                for j in range(1, n + 1):
                    if not used[j]:
                        cur = C[i0 - 1][j - 1] - u[i0] - v[j]
                        if cur < least[j]:
                            least[j], way[j] = cur, j0
                        if least[j] < delta:
                            delta, j1 = least[j], j
                for j in range(n + 1):
                    if used[j]:
                        u[p[j]] += delta
                        v[j] -= delta
                    else:
                        least[j] -= delta
                j0 = j1
                if p[j0] == 0:
                    break
            while j0:
                p[j0] = p[way[j0]]
                j0 = way[j0]
        out = [0] * n
        for j in range(1, n + 1):
            out[p[j] - 1] = j - 1
        return out, sum(C[i][out[i]] for i in range(n))
    best, _ = solve(cost)
    worst = [[c + (b if j == best[i] else -b) for j, c in enumerate(r)] for i, (r, b) in enumerate(zip(cost, slack))]
    again, low = solve(worst)
    if again != best:
        return best, False
    for i in range(n):
        C = [list(r) for r in worst]
        C[i][best[i]] = 1e9
        if n > 1 and solve(C)[1] - low < 1e-6:
            return best, False
    return best, True


class Repair(World):
    prop = 'C22'
    batch = 8
    runs = {'quick': 420, 'thorough': 40000}
    wall = {'quick': 75, 'thorough': 3000}
    timeout = 200
    rule = ('one run = one plant with mislabelled combiners, several days of clouds, prediction workers and a coordinator that '
            'repeats predict, average, assign, cascade, remap; non-trivial when labels were mixed up and a round was judged')
    measure = 'distinct (groups, kind of mix-up, kinds of fault, given or estimated motions, comparison mode, round in which the plan was right)'
    real_parts = ['field.compute_predicted_position', 'field.assign_positions', 'field.cascade_remap', 'field.remap_positions',
                  'signalproc.compute_delays_tf', 'cmv.compute_cmv', 'spatial', 'numpy/scipy/pandas']
    stub_parts = ['clouds', 'combiners', 'workers and coordinator (written as in the package demo)']
    assumptions = ['every combiner sees the same passage up to gain and small noise',
                   'a round is judged when the predictions, with the error that wrongly placed comparison combiners put into them, '
                   'stay within half the distance between combiners of a group']

    def generate(self, rng, tier):
        groups = rng.choice([1, 2, 2, 2, 3])
        size = rng.choice([5, 5, 6, 6, 8]) if groups > 1 else rng.choice([8, 10, 12])
        n = groups * size
        days = rng.choice([2, 2, 2, 3])
        th = [rng.uniform(0, TWO_PI)]
        while len(th) < days:
            x = rng.uniform(0, TWO_PI)
            if all(abs(np.sin(x - y)) > 0.6 for y in th[:1]):
                th.append(x)
        events = []
        mix = []
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            mix.append([rng.choice(['swap', 'cycle']), rng.randrange(groups), [rng.randrange(size) for _ in range(3)]])
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            k, g, w = rng.choice(mix)
            events.append([rng.choice(['lost', 'lost', 'lost', 'stale', 'restart', 'late']), rng.choice([0, 0, 1, 2]),
                           (g * size + rng.choice(w)) if rng.random() < 0.6 else rng.randrange(n)])
        dt = rng.choice([1.0, 2.0, 2.0, 2.0, 5.0])
        return {'seed': rng.randrange(1 << 30), 'groups': groups, 'size': size, 'space': rng.choice([25, 40, 60]),
                'theta': [round(x, 6) for x in th], 'speed': [round(rng.uniform(8, 18), 2) for _ in th], 'dt': dt, 'N': int(3600 / dt),
                'scale': round(rng.uniform(10, 20), 2), 'octaves': 1 if dt > 4 else rng.choice([1, 2]), 'gains': rng.random() < 0.4,
                'noise': rng.choice([0.0005, 0.002]), 'mix': mix, 'events': events, 'mode': rng.choice(['coherence', 'coherence', 'coherence', 'global_coherence']),
                'ndownsel': rng.choice([6, 8, 8]), 'vecs': rng.random() < 0.6, 'fit': rng.choice(['multi', 'multi', 'fit']),
                'dead': [rng.randrange(n)] if rng.random() < 0.2 else [], 'origin': rng.choice([[0.0, 0.0], [412345.5, 5043210.25]]),
                'tilt': round(rng.uniform(0, TWO_PI), 4), 'labels': rng.choice(['cmb', 'cmb', 'mixed'])}

    def directed(self, tier):
        rng = random.Random(22)
        out = []
        for kind in ('swap', 'cycle'):
            for vecs in (True, False):
                for ev in ([], [['lost', 0, 3]], [['restart', 1, 0]], [['stale', 1, 2]], [['late', 0, 1]]):
                    sc = self.generate(rng, tier)
                    sc.update(groups=2, size=6, mix=[[kind, 0, [0, 1, 2]]], vecs=vecs, events=ev, dead=[], octaves=1, dt=1.0, N=3600, scale=14.0,
                              fit='multi', mode='coherence', ndownsel=8)
                    out.append(sc)
        return out

    def shrink(self, sc):
        for k in ('events', 'mix', 'dead'):
            for i in range(len(sc[k])):
                yield dict(sc, **{k: sc[k][:i] + sc[k][i + 1:]})
        for k, v in (('gains', False), ('origin', [0.0, 0.0]), ('octaves', 1), ('vecs', True), ('noise', 0.0005), ('groups', 1), ('groups', 2),
                     ('tilt', 0.0), ('labels', 'cmb'), ('dt', 1.0)):
            if sc[k] != v and not (k == 'groups' and sc[k] < v):
                z = dict(sc, **{k: v})
                z['N'] = int(3600 / z['dt'])
                yield z

    def plant(self, sc):
        rng = random.Random(f'plant{sc["seed"]}')
        G, S, D = sc['groups'], sc['size'], sc['space']
        wide = int(np.ceil(np.sqrt(S)))
        pts, group = [], []
        for g in range(G):
            for i in range(S):
                pts.append([(g * (wide + 0.5) + i % wide) * D + rng.uniform(-0.1, 0.1) * D, (i // wide) * D + rng.uniform(-0.1, 0.1) * D])
                group.append(g)
        pts = np.array(pts)
        c, s = np.cos(sc['tilt']), np.sin(sc['tilt'])
        pts = (pts - pts.mean(0)) @ np.array([[c, s], [-s, c]])
        if sc['labels'] == 'cmb':
            lab = [f'CMB-{g + 1:03d}-{k + 1}' for g in range(G) for k in range(S)]
        else:               # names whose alphabetical order is not that of the plan
            lab = [f'{chr(97 + (7 * k + 3) % 26)}{k}/{g}' for g in range(G) for k in range(S)]
        # where[i]: the place whose clouds the combiner labelled i really sees
        where = list(range(G * S))
        for kind, g, who in sc['mix']:
            a = list(dict.fromkeys((g % G) * S + w % S for w in who))[:2 if kind == 'swap' else 3]
            old = [where[i] for i in a]
            for i, w in zip(a, old[1:] + old[:1]):
                where[i] = w
        return pts, group, lab, where, rng

    def execute(self, sc, run):
        pts, group, lab, where, rng = self.plant(sc)
        n = len(pts)
        org = np.array(sc['origin'])
        true = pts[where]                         # true position of every label
        t = np.arange(sc['N']) * sc['dt']
        u = [np.array([np.cos(a), np.sin(a)]) for a in sc['theta']]
        dead = {d % n for d in sc['dead'] if where[d % n] == d % n}
        days = []
        for k in range(len(u)):
            sky = Sky(f'{sc["seed"]}-{k}', size=sc['speed'][k] * sc['scale'], octaves=sc['octaves'], depth=0.35, fronts=sc['theta'][k])
            x = record(sky, true, sc['speed'][k] * u[k], t)
            if sc['gains']:
                x = x * np.array([rng.uniform(0.8, 1.1) for _ in range(n)])
            x = x + sc['noise'] * np.random.RandomState(rng.randrange(1 << 31)).standard_normal(x.shape)
            for d in dead:
                x[:, d] = np.nan
            days.append(table(x, lab, sc['dt']))
        for _ in dead:
            run.fault('combiner_dead')
        if any(w != i for i, w in enumerate(where)):
            run.fault('mislabelled', sum(w != i for i, w in enumerate(where)))
        plan = pd.DataFrame(pts + org, index=lab, columns=['E', 'N'])
        keep = plan.copy()
        vec = [sc['speed'][k] * u[k] for k in range(len(u))]
        if not sc['vecs']:
            est = []
            for df in days:
                s, a, _ = real(cmv.compute_cmv, df, plan, method='jamaly', options={'minvelocity': 1}, what='compute_cmv')
                est.append(np.array(spatial.pol2rect(s, a), float))
            if not all(np.hypot(*(e - v)) < 0.3 * np.hypot(*v) for e, v in zip(est, vec)):
                run.probe('motion_unclear')       # judged by C06
                est = vec
            vec = est
        pairs = [(a, b) for a, b in itertools.combinations(range(len(u)), 2)
                 if abs(vec[a][0] * vec[b][1] - vec[a][1] * vec[b][0]) > 0.5 * np.hypot(*vec[a]) * np.hypot(*vec[b])]
        if not pairs:
            run.probe('no_pair')
            return
        remap = [(x, x) for x in lab]
        pos = plan.copy()
        seen = [remap]
        stale = None
        right_at = None
        kinds = set()
        for rnd in range(5):
            todo = [e for e in sc['events'] if e[1] == rnd]
            saved = pickle.dumps((remap, pos, seen))
            mean = pd.DataFrame(np.nan, index=lab, columns=['E', 'N'])
            expect = np.full((n, 2), np.nan)      # truth plus what misplaced comparison combiners add
            bound = np.full(n, np.inf)
            order = list(range(n))
            rng.shuffle(order)                    # workers finish in any order
            lost = {e[2] for e in todo if e[0] == 'lost'}
            if lost:
                run.fault('worker_lost', len(lost))
                kinds.add('lost')
            here = pos.to_numpy() - org
            for i in order:
                if i in lost:
                    continue
                got, want, bnd = [], [], []
                for a, b in pairs:
                    p, det = real(field.compute_predicted_position, [days[a], days[b]], pos, lab[i], [tuple(vec[a]), tuple(vec[b])], sc['mode'],
                                  sc['ndownsel'], 5, 0.6, 0.02, sc['fit'], what='compute_predicted_position')
                    run.steps += 1
                    got.append(np.asarray(p, float))
                    if i in dead:
                        continue
                    e, off, w = [], [], []
                    for k, d in ((a, det[0]), (b, det[1])):
                        j = [lab.index(z) for z in d.index]
                        j = [z for z in j if z not in dead]
                        dirn = vec[k] / np.hypot(*vec[k])
                        r = true[i] - true[j]
                        along = r @ u[k]
                        tau = np.abs(along) / sc['speed'][k]
                        tol = tau * 1.3 / (0.02 * (sc['N'] // 5) * sc['dt']) + 0.05 * sc['dt'] + 0.02
                        # a motion that is slightly off misjudges the distances to the others
                        skew = np.abs(along * np.hypot(*vec[k]) / sc['speed'][k] - r @ dirn)
                        e.append((tol * np.hypot(*vec[k]) + skew).mean() if j else np.inf)
                        off.append(((here[j] - true[j]) @ dirn).mean() if j else np.nan)
                        w.append(dirn)
                    want.append(true[i] + np.linalg.solve(np.array(w), off))
                    bnd.append(sum(e) / abs(w[0][0] * w[1][1] - w[0][1] * w[1][0]) + 0.01)
                mean.loc[lab[i]] = pd.DataFrame(got).mean().to_numpy()
                if i not in dead:
                    expect[i], bound[i] = np.mean(want, 0) + org, np.mean(bnd)
            for i in range(n):
                if np.isfinite(bound[i]):
                    g = mean.loc[lab[i]].to_numpy()
                    check(np.isfinite(g).all() and np.hypot(*(g - expect[i])) <= bound[i], 'wrong-prediction',
                          lambda: f'round {rnd}: {lab[i]} predicted {g - true[i] - org} m from its true position, {expect[i] - true[i] - org} m expected, '
                          f'estimation error {bound[i]:.1f} m')
            if any(e[0] == 'stale' for e in todo) and stale is not None:
                # one worker hands in its result of the round before
                w = [e[2] for e in todo if e[0] == 'stale'][0]
                mean.loc[lab[w]] = stale.loc[lab[w]]
                bound[w] = np.inf
                run.fault('stale_result')
                kinds.add('stale')
            stale = mean.copy()
            new = []
            judged = {}
            for g in range(sc['groups']):
                sub = [x for x, y in zip(lab, group) if y == g]
                inds, moved = real(field.assign_positions, pos.loc[sub], mean.loc[sub], what='assign_positions')
                run.steps += 1
                new += list(inds)
                ids = [lab.index(x) for x in sub]
                live = [i for i in ids if i not in dead and i not in lost]
                if not np.isfinite(bound[live]).all():
                    continue
                # which place everybody gets, if the predictions leave no doubt
                E = expect[live] - org
                cost = np.hypot(E[:, None, 0] - here[None, live, 0], E[:, None, 1] - here[None, live, 1])
                best, sure = match(cost.tolist(), bound[live].tolist())
                if sure:
                    judged[g] = {i: live[b] for i, b in zip(live, best)}
                    judged[g].update({i: i for i in ids if i not in live})
            whole = real(field.cascade_remap, remap, new, what='cascade_remap')
            upd = real(field.remap_positions, plan, whole, what='remap_positions')
            check(sorted(whole) == sorted(zip(lab, [b for _, b in sorted(whole, key=lambda z: lab.index(z[0]))])) and sorted(b for _, b in whole) == sorted(lab),
                  'not-a-permutation', f'round {rnd}: {whole}')
            check(list(upd.index) == lab, 'order', 'the plan lists the combiners in another order')
            dest = dict(whole)
            right = len(judged) == sc['groups']
            for g, to in judged.items():
                run.probe('group_judged')
                if any(i != j for i, j in to.items()):
                    run.probe('group_rearranged')
                for i, j in to.items():
                    check(np.abs(upd.loc[lab[i]].to_numpy() - org - here[j]).max() < 1e-6, 'wrong-repair',
                          lambda: f'round {rnd}: {lab[i]} was located {expect[i] - org} and belongs to the place {here[j]} of the plan, it was put at '
                          f'{upd.loc[lab[i]].to_numpy() - org}; it really stands at {true[i]}')
                    check(np.abs(plan.loc[dest[lab[i]]].to_numpy() - org - here[j]).max() < 1e-6, 'wrong-repair',
                          lambda: f'round {rnd}: {lab[i]} is mapped to {dest[lab[i]]}, whose place is not {here[j]}')
                    right &= i in dead or bool(np.hypot(*(here[j] - true[i])) < 1e-6)
            if right and right_at is None:
                right_at = rnd
            if any(e[0] == 'restart' for e in todo):
                remap, pos, seen = pickle.loads(saved)      # the round is lost
                run.fault('coordinator_restart')
                kinds.add('restart')
                continue
            if any(e[0] == 'late' for e in todo) and rnd:
                run.fault('late_result')                    # a late copy of a result changes nothing
                kinds.add('late')
            faulty = bool(lost) or any(e[0] in ('stale',) for e in todo)
            if whole in seen and not faulty:
                break
            pos, remap = upd, whole
            seen.append(whole)
        run.sim += (rnd + 1) * len(days) * sc['N'] * sc['dt']
        run.probe('repaired' if right_at is not None else 'never_clear')
        check(plan.equals(keep), 'argument-changed', 'the plan given was changed')
        run.nontrivial = where != list(range(n)) and right_at is not None
        run.state(sc['groups'], tuple(sorted(m[0] for m in sc['mix'])), tuple(sorted(kinds)), sc['vecs'], sc['mode'], right_at)
        run.log('end', rnd, right_at, ' '.join(f'{a}>{b}' for a, b in whole if a != b), ' '.join(f'{x:.5g}' for x in (mean.to_numpy() - org).ravel()))
