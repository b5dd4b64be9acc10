"""C21: a plant reports power through outages; the daily quantile of the stream
is made of the past days only, and exact."""
import random
import warnings

import numpy as np
import pandas as pd

from dst.core import World, check, real
from solarspatialtools import stats

warnings.simplefilter('ignore')


class DailyQuantile(World):
    prop = 'C21'
    batch = 10
    runs = {'quick': 2000, 'thorough': 60000}
    wall = {'quick': 60, 'thorough': 2000}
    rule = ('one run = one stream of daily records with lost, missing and late samples, dead days and clock hiccups, and the '
            'quantiles computed from it, also as the stream grows day by day; non-trivial when samples or days are missing')
    measure = 'distinct (window, zone, kinds of fault, days with and without a result)'
    real_parts = ['stats.calc_quantile', 'pandas']
    stub_parts = ['sun, clouds, plant and its logger']
    assumptions = ['no change of daylight saving within the record; times strictly increasing',
                   'the sample at midnight of the day itself may or may not count as part of the past days']

    def generate(self, rng, tier):
        nd = rng.randint(2, 11)
        ev = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            k = rng.choice(['lost', 'nan', 'day_lost', 'day_nan', 'shifted', 'spike', 'same_time'])
            ev.append([k, rng.randrange(nd), round(rng.random(), 4), rng.choice([1, 2, 5, 20])])
        return {'seed': rng.randrange(1 << 30), 'days': nd, 'step': rng.choice([15, 30, 60, 60, 180, 360, 7]), 'events': ev,
                'n': rng.choice(['1d', '2d', '3d', '3D', '5d', '30d', '48h', '2 days']), 'q': rng.choice([0.9, 0.9, 0.5, 0.0, 1.0, 0.25, 0.77]),
                'tz': rng.choice([None, 'UTC', 'Etc/GMT+5', 'Europe/Berlin', 'Asia/Kolkata']),
                'start': rng.choice(['2013-06-10', '2013-12-27', '2016-02-26', '2013-06-10 05:30']),
                'sub': rng.choice([0, 0, 0, 250, 1000]), 'tail': round(rng.random(), 3), 'frame': rng.random() < 0.5,
                'dtype': rng.choice(['f8', 'f8', 'f4', 'i8']), 'unit': rng.choice(['ns', 'ns', 'us', 's']), 'grow': rng.random() < 0.3}

    def directed(self, tier):
        rng = random.Random(21)
        out = []
        for tz in (None, 'UTC', 'Etc/GMT+5'):
            for n in ('1d', '3d'):
                for k in ('lost', 'nan', 'day_lost', 'day_nan'):
                    sc = self.generate(rng, tier)
                    sc.update(tz=tz, n=n, days=8, events=[[k, 3, 0.4, 3]], start='2013-06-10', sub=0, step=60, dtype='f8', unit='ns')
                    out.append(sc)
        return out

    def shrink(self, sc):
        E = sc['events']
        for i in range(len(E)):
            yield dict(sc, events=E[:i] + E[i + 1:])
        if sc['days'] > 2:
            yield dict(sc, days=sc['days'] - 1)
        for k, v in (('step', 360), ('tz', None), ('tz', 'UTC'), ('start', '2013-06-10'), ('sub', 0), ('tail', 0.99), ('frame', False), ('dtype', 'f8'),
                     ('unit', 'ns'), ('n', '1d'), ('q', 0.5), ('grow', False)):
            if sc[k] != v:
                yield dict(sc, **{k: v})

    def record(self, sc, run):
        rng = random.Random(f'pv{sc["seed"]}')
        start = pd.Timestamp(sc['start'])
        end = start.normalize() + pd.Timedelta(days=sc['days'] - 1) + pd.Timedelta(seconds=round(sc['tail'] * 86399))
        t = pd.date_range(start, max(end, start), freq=pd.Timedelta(minutes=sc['step']))
        val = np.array([rng.uniform(0, 100) for _ in t])
        if sc['dtype'] == 'i8':
            val = np.round(val)
        keep = np.ones(len(t), bool)
        ms = np.zeros(len(t), int)
        day = ((t.normalize() - start.normalize()) / pd.Timedelta(days=1)).to_numpy().astype(int)
        for k, d, a, ln in sc['events']:
            at = np.flatnonzero(day == d % sc['days'])
            if not len(at):
                continue
            i = at[int(a * len(at))]
            run.fault(k)
            if k == 'lost':
                keep[i:i + ln] = False
            elif k == 'nan' and sc['dtype'] != 'i8':
                val[i:i + ln] = np.nan
            elif k == 'day_lost':
                keep[at] = False
            elif k == 'day_nan' and sc['dtype'] != 'i8':
                val[at] = np.nan
            elif k == 'shifted':          # the logger's clock runs ahead for the rest of the day
                ms[i:at[-1] + 1] = 500 * ln
            elif k == 'spike':
                val[i] = 1e6
            elif k == 'same_time':
                val[i:i + ln] = val[i]
        ms = ms + sc['sub']
        idx = pd.DatetimeIndex(t + pd.to_timedelta(ms, unit='ms'))
        keep &= np.r_[True, np.diff(idx.asi8) > 0]
        keep[-1] = keep[-1] or not keep.any()
        idx, val = idx[keep], val[keep].astype(sc['dtype'])
        unit = sc['unit']
        if unit == "s" and (ms % 1000).any():
            unit = 'us'
        idx = idx.as_unit(unit).tz_localize(sc['tz'])
        s = pd.Series(val, index=idx, name='pv')
        return s.to_frame() if sc['frame'] else s

    @staticmethod
    def model(s, n, q):
        """time of day over the n days before, for every sample"""
        loc = s.index.tz_localize(None)
        dates = [x.toordinal() for x in loc.date]
        tod = [x for x in loc.time]
        table = {}
        for d, t, v in zip(dates, tod, s.to_numpy().ravel().astype(float)):
            table.setdefault(t, {})[d] = v
        have = set(dates)
        out = []
        for d, t in zip(dates, tod):
            past = [table[t][x] for x in range(d - n, d) if x in table[t] and not np.isnan(table[t][x])]
            own = table[t][d]
            ways = [past]
            if t.hour == t.minute == t.second == t.microsecond == 0 and not np.isnan(own):
                ways.append(past + [own])
            vals = [np.quantile(w, q) if w else np.nan for w in ways]
            if d - n not in have:        # the window does not begin inside the record
                vals = [np.nan] + (vals if min(dates) < d - n else [])
            out.append(vals)
        return out

    def execute(self, sc, run):
        s = self.record(sc, run)
        n = pd.Timedelta(sc['n']).days
        keep = s.copy()
        whole = None
        ends = [len(s)]
        if sc['grow']:
            cuts = np.flatnonzero(np.diff([x.toordinal() for x in s.index.date])) + 1
            ends = sorted(set(int(c) for c in cuts if c > 1)) + ends
            ends = ends[-4:]
        for e in ends:
            part = s.iloc[:e]
            got = real(stats.calc_quantile, part, sc['n'], sc['q'], what='calc_quantile')
            run.steps += 1
            check(isinstance(got, pd.DataFrame) and list(got.columns) == ['pv_quant'] and got.index.equals(part.index), 'shape',
                  lambda: f'result has columns {list(got.columns)}, {len(got)} rows of {len(part)}')
            g = got['pv_quant'].to_numpy(float)
            tol = 1e-4 if sc['dtype'] == 'f4' else 1e-9
            for i, (x, ways) in enumerate(zip(g, self.model(part, n, sc['q']))):
                ok = any(np.isnan(w) and np.isnan(x) or abs(w - x) <= tol * (1 + abs(w)) for w in ways)
                check(ok, 'wrong-quantile', lambda: f'{part.index[i]}: {x}, the {sc["q"]} quantile of the {n} days before is {ways} '
                      f'({len(part)} samples, record from {part.index[0]} to {part.index[-1]})')
            if whole is not None and len(whole):      # the past does not change as the stream grows
                old = g[:len(whole)]
                check(np.array_equal(old, whole, equal_nan=True), 'past-changed', 'values of earlier days changed when later days came in')
                run.probe('grown')
            whole = g
        check(s.equals(keep), 'argument-changed', 'the input changed')
        run.sim += (s.index[-1] - s.index[0]).total_seconds()
        run.probe('values', int(np.isfinite(g).sum()))
        run.state(n, sc['tz'], tuple(sorted(set(e[0] for e in sc['events']))), bool(np.isfinite(g).any()))
        run.log(len(s), float(np.nansum(g)))
