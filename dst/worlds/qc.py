"""C03: a network of radiometers with losses, sentinels and flags, and the
quality control applied to what the collector stored."""
import heapq
import random

import numpy as np
import pandas as pd

from dst.core import World, check, real
from dst.worlds import qcmodel
from solarspatialtools.dataio import hope_campaign as hc


class QC(World):
    prop = 'C03'
    batch = 25
    runs = {'quick': 20000, 'thorough': 400000}
    wall = {'quick': 60, 'thorough': 2400}
    rule = ('one run = one sensor network recording with lost, late, duplicated, sentinel and flagged samples, pushed '
            'through the three quality-control steps; non-trivial when a fault fired')
    measure = 'distinct (limit, set of (run length relative to the limit, position) per column) of missing samples'
    real_parts = ['hope_campaign.null_qc', 'hope_campaign.flag_qc', 'hope_campaign.interp_nan']
    stub_parts = ['sensor nodes', 'radio network', 'collector']
    assumptions = ['sentinels are values below -100, as documented in the data set']

    def generate(self, rng, tier):
        n = rng.choice([1, 2, 3, 8, 20, 40, 80, 150] + ([600] if tier == 'thorough' else []))
        ns = rng.choice([1, 1, 2, 3, 5])
        limit = rng.choice([5, 5, 5, 1, 2, 3, 4, 7, 10])
        sens = []
        for _ in range(ns):
            ev = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
                at = rng.randrange(n)
                k = rng.choice(['burst', 'burst', 'burst', 'loss', 'sentinel', 'flag', 'edge', 'pair'])
                ln = max(1, rng.choice([1, 2, limit - 1, limit, limit, limit + 1, limit + 1, limit + 2, 2 * limit - 1,
                                        2 * limit, 2 * limit + 1, 3 * limit, 30]))
                if k == 'pair':          # two bursts with few good samples between them
                    ev.append(['burst', at, ln])
                    ev.append(['burst', at + ln + rng.choice([1, 1, 2, limit]), max(1, rng.choice([1, limit, limit + 1]))])
                elif k == 'edge':
                    ev.append(['burst', *rng.choice([(0, min(ln, n)), (max(0, n - ln), ln)])])
                elif k == 'loss':
                    ev.append(['burst', at, 1])
                elif k == 'sentinel':
                    ev.append(['sentinel', at, ln])
                elif k == 'flag':
                    ev.append(['flag', at, ln, rng.choice([0, 1, 2, 3, 4, 9])])
                else:
                    ev.append(['burst', at, ln])
            if rng.random() < 0.05:
                ev.append(['burst', 0, n])
            sens.append(ev)
        if rng.random() < 0.02:         # a good part of a day at one sample a second
            n, ns = rng.choice([1100, 2400, 5000]), 1
            ev = [['burst', rng.randrange(n), rng.choice([limit, limit + 1, limit + 1, 2 * limit, 120, 400, 1000])] for _ in range(rng.choice([2, 4, 8]))]
            ev += [['burst', ev[0][1] + 1000 + ev[0][2], rng.choice([1, limit])]] * rng.choice([0, 1])
            sens = [ev]
        return {'seed': rng.randrange(1 << 30), 'n': n, 'sensors': sens, 'limit': limit,
                'level': rng.choice([2, 2, 2, 1, 3, 4]), 'step': rng.choice([1, 1, 1, 10, 60, 3600, 0.1]),
                'start': rng.choice(['2013-04-03 04:00', '2013-04-03 23:59:50', '2013-12-31 23:59', '2013-03-31 00:30',
                                     '2013-04-03 11:59:57']), 'zone': rng.choice(['UTC', 'UTC', None, 'Europe/Berlin']),
                'flagrows': rng.choice(['same', 'same', 'same', 'shuffled']), 'flagcols': rng.choice(['same', 'same', 'shuffled']),
                'flagtype': rng.choice(['i1', 'i1', 'f4', 'i8', 'f8']), 'unflagged': rng.random() < 0.4,
                'inf': rng.random() < 0.2,
                'dtype': rng.choice(['f8', 'f8', 'f4']), 'labels': rng.choice(['int', 'str']),
                'dup': rng.random() < 0.3, 'delay': rng.random() < 0.5, 'default_limit': rng.random() < 0.3}

    def shrink(self, sc):
        S = sc['sensors']
        for i in range(len(S)):
            if len(S) > 1:
                yield dict(sc, sensors=S[:i] + S[i + 1:])
            for j in range(len(S[i])):
                yield dict(sc, sensors=S[:i] + [S[i][:j] + S[i][j + 1:]] + S[i + 1:])
                e = S[i][j]
                if e[2] > 1:
                    yield dict(sc, sensors=S[:i] + [S[i][:j] + [[e[0], e[1], e[2] - 1] + e[3:]] + S[i][j + 1:]] + S[i + 1:])
                if e[1] > 0:
                    yield dict(sc, sensors=S[:i] + [S[i][:j] + [[e[0], e[1] // 2] + e[2:]] + S[i][j + 1:]] + S[i + 1:])
        for m in (sc['n'] // 2, sc['n'] - 1):
            if 0 < m < sc['n']:
                yield dict(sc, n=m)
        for k, z in (('dup', False), ('delay', False), ('step', 1), ('dtype', 'f8'), ('labels', 'str'),
                     ('start', '2013-04-03 04:00'), ('zone', 'UTC'), ('flagrows', 'same'), ('flagcols', 'same'), ('flagtype', 'i1'),
                     ('unflagged', False), ('inf', False)):
            if sc[k] != z:
                yield dict(sc, **{k: z})

    def execute(self, sc, run):
        rng = random.Random(sc['seed'])
        n, limit = sc['n'], 5 if sc['default_limit'] else sc['limit']
        labels = [f'S{i}' if sc['labels'] == 'str' else 10 + i for i in range(len(sc['sensors']))]
        index = pd.date_range(sc['start'], periods=n, freq=f'{round(sc["step"] * 1000)}ms', tz=sc['zone'])
        store = np.full((n, len(labels)), np.nan, dtype=sc['dtype'])
        flags = np.ones((n, len(labels)), dtype='i1')
        seq, queue = 0, []
        for j, events in enumerate(sc['sensors']):
            lost, sent = set(), set()
            for e in events:
                span = range(max(0, e[1]), min(n, e[1] + e[2]))
                if not len(span):
                    continue
                if e[0] == 'burst':
                    lost.update(span)
                    run.fault('samples_lost', len(span))
                elif e[0] == 'sentinel':
                    sent.update(span)
                    run.fault('sentinel', len(span))
                else:
                    flags[span.start:span.stop, j] = e[3]
                    run.fault('flagged', len(span))
            level = rng.uniform(20, 900)
            hidden = rng.choice([-999.0, -999.0, -999.0, -9999.0, -998.5, -101.0, -100.25])
            for i in range(n):
                level = min(1200, max(-6, level + rng.gauss(0, 40)))
                if i in lost:
                    continue
                v = hidden if i in sent else level
                if i not in sent and rng.random() < 0.02:
                    v = rng.choice([-3.5, -99.0, -99.75, -100.0, 0.0])
                t = i + (rng.expovariate(0.3) if sc['delay'] else 0)
                heapq.heappush(queue, (t, seq, i, j, v))
                seq += 1
                if sc['dup'] and rng.random() < 0.1:
                    heapq.heappush(queue, (t + rng.random() * 5, seq, i, j, v))
                    seq += 1
                    run.fault('duplicated')
        order = []
        while queue:                     # the collector stores what arrives, when it arrives
            t, _, i, j, v = heapq.heappop(queue)
            store[i, j] = v
            order.append(i)
            run.sim = max(run.sim, t * sc['step'])
        if order != sorted(order):
            run.fault('out_of_order')
        run.steps += len(order)
        data = pd.DataFrame(store, index=index, columns=labels)
        flag = pd.DataFrame(flags, index=index, columns=labels)
        flag = flag.astype(sc['flagtype'])
        given = flags.astype(float)
        if sc.get('unflagged') and sc['flagtype'][0] == 'f':     # samples whose flag was never delivered
            for _ in range(rng.choice([1, 3, n])):
                i, j = rng.randrange(n), rng.randrange(len(labels))
                given[i, j] = np.nan
                flag.iloc[i, j] = np.nan
                run.fault('flag_lost')
        if sc['flagcols'] == 'shuffled':     # the flag table lists sensors or times in another order
            flag = flag[rng.sample(labels, len(labels))]
        if sc['flagrows'] == 'shuffled':
            flag = flag.iloc[rng.sample(range(n), n)]
        d0, f0 = data.copy(deep=True), flag.copy(deep=True)

        raw = qcmodel.to_lists(data)
        if sc.get('inf'):                # a saturated converter delivers an infinite reading
            hot = data.copy()
            for _ in range(rng.choice([1, 2, 5])):
                hot.iloc[rng.randrange(n), rng.randrange(len(labels))] = rng.choice([np.inf, np.inf, -np.inf])
            run.fault('infinite_reading')
            before = qcmodel.to_lists(hot)
            self.compare(real(hc.null_qc, hot), qcmodel.null_model(before), before, hot, 'null_qc')
        nulled = real(hc.null_qc, data)
        self.compare(nulled, qcmodel.null_model(raw), raw, data, 'null_qc')
        check(data.equals(d0), 'argument-modified', 'null_qc changed its input')
        level = sc['level']
        flagged = real(hc.flag_qc, data, flag) if level == 2 and n % 2 else real(hc.flag_qc, data, flag, level)
        want = [[None if given[i, j] >= level else v for i, v in enumerate(c)] for j, c in enumerate(raw)]
        self.compare(flagged, want, raw, data, 'flag_qc')
        check(data.equals(d0) and flag.equals(f0), 'argument-modified', 'flag_qc changed its input')
        src = nulled if sc['seed'] % 3 else real(hc.null_qc, flagged)
        s0 = src.copy(deep=True)
        cols = qcmodel.to_lists(src)
        filled = real(hc.interp_nan, src) if sc['default_limit'] else real(hc.interp_nan, src, limit=limit)
        check(src.equals(s0), 'argument-modified', 'interp_nan changed its input')
        self.compare(filled, [qcmodel.fill_gaps(c, limit) for c in cols], cols, src, f'interp_nan(limit={limit})')
        for c in cols:
            rel = [('=' if k == limit else '+1' if k == limit + 1 else '<' if k < limit else '>', w) for k, w in qcmodel.runs(c)]
            run.state(limit, tuple(sorted(set(rel))))
            for k, w in rel:
                run.probe(f'gap_{w}_{k}')
        run.log(n, limit, [qcmodel.runs(c) for c in cols])

    @staticmethod
    def compare(got, want, before, src, what):
        check(list(got.columns) == list(src.columns) and got.index.equals(src.index), 'qc-shape', f'{what}: rows or columns differ')
        g = qcmodel.to_lists(got)
        for j, (gc, wc, bc) in enumerate(zip(g, want, before)):
            for i, (a, b, x) in enumerate(zip(gc, wc, bc)):
                if a is None and b is None:
                    continue
                where = lambda: f'{what}: sensor {j} sample {i} is {a}, should be {b} (was {x}); missing runs {qcmodel.runs(bc)}'
                if x is not None and b is not None:
                    check(a == x, 'valid-sample-altered', where)
                else:
                    check((a is None) == (b is None), 'valid-sample-lost' if x is not None else
                          ('long-gap-filled' if b is None else 'short-gap-not-filled'), where)
                    check(abs(a - b) <= 1e-3 + 1e-5 * abs(b), 'wrong-fill-value', where)
