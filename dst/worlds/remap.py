"""C09: a coordinator and unreliable prediction workers iterate
predict -> assign -> cascade -> remap over a plant."""
import heapq
import itertools
import json
import math
import random

import numpy as np
import pandas as pd

from dst.core import World, check, real
from solarspatialtools import field


def hungarian(cost):
    """Independent minimum-cost assignment (rows to columns), O(n^3)."""
    n = len(cost)
    INF = float('inf')
    u, v, p, way = [0.0] * (n + 1), [0.0] * (n + 1), [0] * (n + 1), [0] * (n + 1)
    for i in range(1, n + 1):
        p[0], j0 = i, 0
        minv, used = [INF] * (n + 1), [False] * (n + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], INF, 0
            for j in range(1, n + 1):
                if not used[j]:
                    cur = cost[i0 - 1][j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j], way[j] = cur, j0
                    if minv[j] < delta:
                        delta, j1 = minv[j], j
            for j in range(n + 1):
                if used[j]:
                    u[p[j]] += delta
                    v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    return sum(cost[p[j] - 1][j - 1] for j in range(1, n + 1))


def best_cost(cost):
    n = len(cost)
    if n == 0:
        return 0.0
    if n <= 6:
        return min(sum(cost[i][q[i]] for i in range(n)) for q in itertools.permutations(range(n)))
    return hungarian(cost)


class Remap(World):
    prop = 'C09'
    batch = 12
    runs = {'quick': 2200, 'thorough': 60000}
    wall = {'quick': 60, 'thorough': 2400}
    rule = ('one run = one plant, one hidden permutation per group and a history of prediction rounds '
            'whose worker messages are lost, duplicated, late, corrupt or out of order, with stop/resume; '
            'non-trivial when at least one such fault fired')
    measure = 'distinct (group size, missing set size, cycle type of the mapping, fault mix) per step'
    real_parts = ['field.assign_positions', 'field.cascade_remap', 'field.remap_positions']
    stub_parts = ['prediction workers (true position plus error)', 'message transport', 'checkpoint store']
    assumptions = ['callers list predictions in the order of the layout table, as the package tests and demos do']

    def generate(self, rng, tier):
        ng = rng.choice([1, 1, 2, 3])
        big = tier == 'thorough' and rng.random() < 0.1
        groups = [rng.randint(1, rng.choice([3, 5, 7, 9] + ([24] if big else []))) for _ in range(ng)]
        return {
            'seed': rng.randrange(1 << 30),
            'groups': groups,
            'names': rng.choice(['str', 'int', 'rev', 'mixed-order']),
            'ties': rng.random() < 0.15,
            'intpos': rng.random() < 0.15,
            'extra': rng.choice([None, None, 'num', 'text']),
            'subsetcols': rng.random() < 0.15,
            'shuffle_rows': rng.random() < 0.4,
            'scramble': rng.choice([0.0, 0.6, 1.0, 1.0]),
            'rounds': [{
                'loss': rng.choice([0, 0, 0.1, 0.1, 0.3, 0.3, 0.6, 1.0 if rng.random() < 0.3 else 0.2]),
                'late': rng.choice([0, 0, 0.2]),
                'dup': rng.choice([0, 0, 0.3]),
                'half': rng.choice([0, 0, 0, 0.2]),
                'noise': rng.choice([0.0, 0.2, 1.0, 5.0]),
                'resume': rng.random() < 0.3,
                'sub': rng.random() < 0.15,
            } for _ in range(rng.randint(1, 6))],
        }

    def shrink(self, sc):
        for i in range(len(sc['rounds'])):
            if len(sc['rounds']) > 1:
                yield dict(sc, rounds=sc['rounds'][:i] + sc['rounds'][i + 1:])
        for i in range(len(sc['groups'])):
            if len(sc['groups']) > 1:
                yield dict(sc, groups=sc['groups'][:i] + sc['groups'][i + 1:])
            if sc['groups'][i] > 1:
                yield dict(sc, groups=[g - (k == i) for k, g in enumerate(sc['groups'])])
        for k, z in (('extra', None), ('subsetcols', False), ('shuffle_rows', False), ('ties', False),
                     ('intpos', False), ('names', 'str'), ('scramble', 0.0)):
            if sc[k] != z:
                yield dict(sc, **{k: z})
        for i, r in enumerate(sc['rounds']):
            for k, z in (('loss', 0), ('late', 0), ('dup', 0), ('half', 0), ('noise', 0.0),
                         ('resume', False), ('sub', False)):
                if r[k]:
                    yield dict(sc, rounds=[dict(x, **{k: z}) if j == i else x
                                           for j, x in enumerate(sc['rounds'])])

    def execute(self, sc, run):
        rng = random.Random(sc['seed'])
        names, group_of, pos = [], {}, []
        for g, n in enumerate(sc['groups']):
            for i in range(n):
                k = len(names)
                name = {'str': f'CMB-{g}-{i:02d}', 'int': 100 * g + i, 'rev': f'Z{99 - k:02d}',
                        'mixed-order': f'{(k * 7919) % 97:02d}-{g}'}[sc['names']]
                names.append(name)
                group_of[name] = g
                pos.append((20.0 * (k % 5), 20.0 * (k // 5)) if not (sc['ties'] and i % 2 and i)
                           else pos[-1])
        if not sc['ties']:
            pos = [(x + rng.uniform(-4, 4), y + rng.uniform(-4, 4)) for x, y in pos]
        if sc['intpos']:
            pos = [(int(x), int(y)) for x, y in pos]
        order = list(range(len(names)))
        if sc['shuffle_rows']:
            rng.shuffle(order)
        names, pos = [names[i] for i in order], [pos[i] for i in order]
        layout = pd.DataFrame(pos, index=names, columns=['E', 'N'])
        if sc['extra'] == 'num':
            layout['h'] = [1000.0 + i for i in range(len(names))]
        elif sc['extra'] == 'text':
            layout['inv'] = [f'label{i}' for i in range(len(names))]
        groups = {}
        for nm in names:
            groups.setdefault(group_of[nm], []).append(nm)
        # the hidden truth: where each sensor really stands
        truth = {}
        for g, members in groups.items():
            perm = members[:]
            if rng.random() < sc['scramble']:
                rng.shuffle(perm)
            truth.update(zip(members, perm))
        true_xy = {nm: tuple(layout.loc[truth[nm], ['E', 'N']].astype(float)) for nm in names}
        keep = layout.copy(deep=True)

        mapping = [(nm, nm) for nm in names]
        model = {nm: nm for nm in names}
        clock = 0.0
        for rno, rd in enumerate(sc['rounds']):
            cur = layout.copy() if rno == 0 else real(field.remap_positions, layout, mapping)
            self.check_layout(layout, cur, model, groups, run)
            cols = ['E', 'N']
            preds = pd.DataFrame(np.nan, index=names, columns=cols, dtype=float)
            # workers answer; the transport loses, duplicates, delays
            events, seq = [], 0
            for nm in names:
                if rng.random() < rd['loss']:
                    run.fault('result_lost')
                    continue
                copies = 1
                if rng.random() < rd['dup']:
                    copies = 2
                    run.fault('result_duplicated')
                err = (rng.gauss(0, rd['noise']), rng.gauss(0, rd['noise']))
                half = rng.random() < rd['half']
                if half:
                    run.fault('result_half_missing')
                for _ in range(copies):
                    lat = rng.expovariate(1.0)
                    if rng.random() < rd['late']:
                        lat += 100.0
                        run.fault('result_late')
                    heapq.heappush(events, (clock + lat, seq, nm, err, half))
                    seq += 1
            cutoff = clock + 50.0
            arrival = []
            while events and events[0][0] <= cutoff:
                t, _, nm, err, half = heapq.heappop(events)
                arrival.append(names.index(nm))
                x, y = true_xy[nm]
                preds.loc[nm] = [x + err[0], np.nan if half else y + err[1]]
            if arrival != sorted(arrival):
                run.fault('results_out_of_order')
            clock = cutoff
            run.sim += 50.0
            run.steps += len(arrival)
            # assignment group by group
            newmap = []
            for g, members in groups.items():
                orig, pred = cur.loc[members], preds.loc[members]
                o2, p2 = orig.copy(deep=True), pred.copy(deep=True)
                pairs, out = real(field.assign_positions, o2, p2)
                check(o2.equals(orig) and p2.equals(pred), 'argument-modified', 'assign_positions changed its inputs')
                self.check_assign(orig, pred, pairs, out, run, truth, rd)
                if rd['sub'] and len(members) > 1:
                    self.check_order(orig, pred, pairs, rng)
                newmap.extend(pairs)
            before = [tuple(p) for p in mapping]
            # applying step by step must equal applying the cascade
            seq_layout = real(field.remap_positions, cur, newmap)
            casc = real(field.cascade_remap, mapping, newmap)
            check([tuple(p) for p in mapping] == before, 'argument-modified', 'cascade_remap changed its first input')
            nm_dict = dict(newmap)
            model = {k: model[nm_dict[k]] for k in model}
            check(isinstance(casc, list) and len(casc) == len(names) and dict(casc) == model, 'cascade-wrong',
                  lambda: f'cascade gave {casc}, composition is {sorted(model.items(), key=str)}')
            direct = real(field.remap_positions, layout, casc)
            check(direct.equals(seq_layout), 'cascade-not-composition',
                  lambda: f'one application:\n{direct}\nstep by step:\n{seq_layout}')
            if sc['subsetcols']:
                part = real(field.remap_positions, layout, casc, columns=['E'])
                check(list(part['E']) == list(direct['E']) and part['N'].equals(layout['N']),
                      'column-selection', 'remap_positions touched columns that were not asked for')
            mapping = casc
            run.log('round', rno, sorted(model.items(), key=str), len(arrival))
            if rd['resume']:
                run.fault('stop_and_resume')
                mapping = [tuple(p) for p in json.loads(json.dumps(mapping))]
            run.probe('assignments')
        check(layout.equals(keep), 'argument-modified', 'the original layout was changed')
        # faults stop: one complete, accurate round must reach the true layout
        if not sc['ties'] and not sc['intpos']:
            cur = real(field.remap_positions, layout, mapping)
            newmap = []
            for g, members in groups.items():
                pred = pd.DataFrame([true_xy[nm] for nm in members], index=members, columns=['E', 'N'])
                newmap.extend(real(field.assign_positions, cur.loc[members], pred)[0])
            mapping = real(field.cascade_remap, mapping, newmap)
            check(dict(mapping) == truth, 'no-convergence',
                  lambda: f'after a fault-free round the mapping is {dict(mapping)}, truth {truth}')
            fin = real(field.remap_positions, layout, mapping)
            self.check_layout(layout, fin, truth, groups, run)
            run.log('final', sorted(dict(mapping).items(), key=str))

    def check_layout(self, layout, cur, model, groups, run):
        check(list(cur.index) == list(layout.index) and list(cur.columns) == list(layout.columns),
              'layout-shape', 'the remapped layout lists other rows or columns')
        for nm in layout.index:
            check(list(cur.loc[nm]) == list(layout.loc[model[nm]]), 'layout-wrong',
                  lambda: f'{nm} should stand at {model[nm]}')
        for members in groups.values():
            a = sorted(map(tuple, cur.loc[members, ['E', 'N']].values.tolist()))
            b = sorted(map(tuple, layout.loc[members, ['E', 'N']].values.tolist()))
            check(a == b, 'positions-not-conserved', lambda: f'{a} vs {b}')

    def check_assign(self, orig, pred, pairs, out, run, truth, rd):
        members = list(orig.index)
        check(isinstance(pairs, list) and all(isinstance(p, tuple) and len(p) == 2 for p in pairs),
              'assign-type', 'assign_positions does not return a list of pairs')
        firsts, seconds = [p[0] for p in pairs], [p[1] for p in pairs]
        check(sorted(firsts, key=str) == sorted(members, key=str) and
              sorted(seconds, key=str) == sorted(members, key=str), 'not-a-permutation',
              lambda: f'{pairs} over {members}')
        m = dict(pairs)
        good = [k for k in members if not pred.loc[k].isna().any()]
        for k in members:
            if k not in good:
                check(m[k] == k, 'missing-moved', lambda: f'{k} has no prediction but moved to {m[k]}')
        cost = [[math.hypot(float(orig.loc[b, 'E']) - pred.loc[a, 'E'], float(orig.loc[b, 'N']) - pred.loc[a, 'N'])
                 for b in good] for a in good]
        col = {b: j for j, b in enumerate(good)}
        got = sum(cost[i][col[m[a]]] for i, a in enumerate(good))
        best = best_cost(cost)
        check(got <= best + 1e-6 * (1 + best), 'assignment-not-optimal',
              lambda: f'total distance {got} where {best} is possible: {pairs}')
        check(list(out.index) == members, 'assign-output', 'row order of the remapped copy')
        for k in members:
            check(list(out.loc[k]) == list(orig.loc[m[k]]), 'assign-output',
                  lambda: f'returned copy has {k} elsewhere than {m[k]}')
        moved = [k for k in members if m[k] != k]
        run.state(len(members), len(members) - len(good), cycle_type(m), rd['dup'] > 0, rd['late'] > 0)
        run.probe('missing_in_group' if len(good) < len(members) else 'complete_group')
        if len(good) == 0:
            run.probe('group_without_any_prediction')
        if moved:
            run.probe('moved')

    def check_order(self, orig, pred, pairs, rng):
        """The listing order of the sensors is no information."""
        if orig[['E', 'N']].duplicated().any():
            return
        perm = list(orig.index)
        rng.shuffle(perm)
        again, _ = real(field.assign_positions, orig.loc[perm], pred.loc[perm])
        check(sorted(again, key=str) == sorted(pairs, key=str), 'row-order-matters',
              lambda: f'{pairs} became {again} when the rows were listed as {perm}')


def cycle_type(m):
    seen, out = set(), []
    for k in m:
        n = 0
        while k not in seen:
            seen.add(k)
            k = m[k]
            n += 1
        if n:
            out.append(n)
    return tuple(sorted(out))
