"""C17, C19, C20: a season of records from a sensor field, with lost samples, dead and
stuck sensors and collector outages, goes through the steps of the package's demo of
automatic motion detection: clear-sky index, variability of every period, motion of
the variable ones, choice of the most diverse motions."""
import random
import warnings

import numpy as np
import pandas as pd
from scipy.optimize import linear_sum_assignment

from dst.core import World, check, real
from dst.worlds.sky import Sky, record
from solarspatialtools import cmv, irradiance, spatial, stats

warnings.simplefilter('ignore')
TWO_PI = 2 * np.pi


class Season(World):
    batch = 8
    timeout = 120
    real_parts = ['stats', 'irradiance.clearsky_index', 'cmv.compute_cmv', 'cmv.optimum_subset', 'spatial', 'numpy/scipy/pandas']
    stub_parts = ['clouds', 'clear-sky model', 'sensors and collector']
    FAULTS = ['lost', 'lost', 'dead', 'stuck', 'spike', 'negative', 'outage', 'inf', 'gap']
    windows = (3, 8)

    def generate(self, rng, tier):
        dt = rng.choice([0.5, 1.0, 1.0, 5.0, 10.0, 10.0, 30.0, 60.0, 0.01, 0.25])
        W = rng.randint(*self.windows)
        n = rng.randint(1, 7)
        m = rng.choice([60, 120, 121, 240])
        return {'seed': rng.randrange(1 << 30), 'dt': dt, 'm': m, 'n': n, 'kinds': [rng.choice(['cloud', 'cloud', 'cloud', 'clear', 'overcast', 'night'])
                                                                                 for _ in range(W)],
                'theta': [round(rng.uniform(0, TWO_PI), 5) for _ in range(W)], 'speed': round(rng.uniform(5, 20), 3),
                'faults': [[rng.choice(self.FAULTS), rng.randrange(n), rng.randrange(W * m), rng.choice([1, 2, 5, 30, m, 2 * m])]
                           for _ in range(rng.choice([0, 1, 2, 3, 6]))],
                'tz': rng.choice([None, 'UTC', 'Etc/GMT-3']), 'start': rng.choice(['06:00:00', '23:40:00', '12:00:07']),
                'labels': rng.choice(['int', 'str', 'dup']), 'pick': rng.randrange(1 << 30)}

    def shrink(self, sc):
        F = sc['faults']
        for i in range(len(F)):
            yield dict(sc, faults=F[:i] + F[i + 1:])
        W = len(sc['kinds'])
        if W > 1:
            for i in range(W):
                yield dict(sc, kinds=sc['kinds'][:i] + sc['kinds'][i + 1:], theta=sc['theta'][:i] + sc['theta'][i + 1:])
        for k, v in (('n', 1), ('n', 2), ('tz', None), ('start', '06:00:00'), ('labels', 'int'), ('dt', 1.0)):
            if sc[k] != v and not (k == 'n' and sc[k] < v):
                yield dict(sc, **{k: v})

    def stream(self, sc, run):
        rng = random.Random(f'season{sc["seed"]}')
        n, m, dt, W = sc['n'], sc['m'], sc['dt'], len(sc['kinds'])
        pos = np.array([[rng.uniform(-1, 1), rng.uniform(-1, 1)] for _ in range(n)]) * sc['speed'] * dt * 6
        if n == 4:
            pos = np.array([[-1, -.8], [1.1, -1], [-.9, 1], [1, 1.05]]) * sc['speed'] * dt * 4
        N = W * m
        cs = 1000 * np.sin(np.linspace(0.15, np.pi - 0.15, N))
        kt = np.zeros((N, n))
        for w, kind in enumerate(sc['kinds']):
            s = slice(w * m, (w + 1) * m)
            if kind == 'cloud':
                th = sc['theta'][w]
                sky = Sky(f'{sc["seed"]}-{w}', size=sc['speed'] * dt * 4, octaves=1, depth=0.35, fronts=th)
                kt[s] = record(sky, pos, sc['speed'] * np.array([np.cos(th), np.sin(th)]), np.arange(m) * dt)
            elif kind == 'night':
                cs[s] = 0.0
            else:
                kt[s] = 1.0 if kind == 'clear' else 0.15
        ghi = kt * cs[:, None] + 0.01 * np.random.RandomState(sc['seed']).standard_normal((N, n))
        night = cs == 0
        ghi[night] = np.array([[rng.choice([-2.0, -1.0, 0.0, 0.5]) for _ in range(n)] for _ in range(night.sum())]).reshape(-1, n)
        gone = np.zeros(N, bool)
        touched = set()
        for kind, i, at, size in sc['faults']:
            i, s = i % n, slice(at % N, at % N + size)
            run.fault(kind)
            touched.add(i)
            if kind == 'lost':
                ghi[s, i] = np.nan
            elif kind == 'dead':
                ghi[:, i] = np.nan
            elif kind == 'stuck':
                ghi[s, i] = ghi[at % N, i]
            elif kind == 'spike':
                ghi[s, i] = ghi[s, i] * 4 + 50
            elif kind == 'negative':
                ghi[s, i] = -20.0
            elif kind == 'inf':
                ghi[at % N, i] = rng.choice([np.inf, -np.inf])
            elif kind == 'outage':
                ghi[s] = np.nan
            elif kind == 'gap':
                gone[s] = True
        if gone.all():
            gone[:] = False
        idx = pd.date_range(f'2013-09-08 {sc["start"]}', periods=N, freq=pd.Timedelta(milliseconds=int(round(dt * 1000))), tz=sc['tz'])
        labels = {'int': [11 + 3 * i for i in range(n)], 'str': [f'S{i}' for i in range(n)], 'dup': ['b', 'a', 'a_b', 'B', 'c', ' ', 'é'][:n]}[sc['labels']]
        tab = pd.DataFrame(ghi, index=idx, columns=labels)[~gone]
        clear = pd.Series(cs, index=idx)[~gone]
        run.sim += N * dt
        run.state(dt, tuple(sorted(set(f[0] for f in sc['faults']))), tuple(sorted(set(sc['kinds']))), n > 1, sc['labels'])
        return tab, clear, pd.DataFrame(pos, index=labels, columns=['E', 'N']), np.repeat(np.arange(W), m)[~gone], touched


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid='ignore'):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * np.maximum(1, np.abs(b)))))


class Index(Season):
    prop = 'C20'
    batch = 24
    runs = {'quick': 4000, 'thorough': 200000}
    wall = {'quick': 40, 'thorough': 1800}
    rule = ('one run = a season of records with night, lost samples and faulty sensors, turned into clear-sky indices as a table, '
            'sensor by sensor and as arrays; non-trivial when a fault was injected')
    measure = 'distinct (time step, kinds of fault, kinds of period, one or several sensors, labels)'
    assumptions = ['records and clear-sky model share their times']

    def execute(self, sc, run):
        tab, clear, _, _, _ = self.stream(sc, run)
        rng = random.Random(sc['pick'])
        c = clear.to_numpy().copy()
        for _ in range(rng.choice([0, 0, 1, 3])):           # a model that fails here and there
            c[rng.randrange(len(c))] = rng.choice([np.nan, -1.0, 0.0, 1e-3])
            run.fault('model_fault')
        clear = pd.Series(c, index=clear.index)
        top = rng.choice([None, 2.0, 1.0, 1.5, 0.8, 5.0, 100.0, 3])
        kw = {} if top is None else {'max_clearsky_index': top}
        keep = tab.copy(), clear.copy()
        g = tab.to_numpy()
        want = np.empty(g.shape)
        for j in range(g.shape[1]):
            for i in range(len(g)):
                if not (np.isfinite(g[i, j]) and np.isfinite(c[i])):
                    want[i, j] = np.nan
                elif c[i] == 0:
                    want[i, j] = 0.0
                else:
                    want[i, j] = min(max(g[i, j] / c[i], 0.0), 2.0 if top is None else top)
        out = real(irradiance.clearsky_index, tab, clear, what='clearsky_index(table)', **kw)
        run.steps += 1
        check(isinstance(out, pd.DataFrame) and out.index.equals(tab.index) and list(out.columns) == list(tab.columns), 'labels-changed',
              'the index of a table is not labelled like the table')
        bad = ~((out.to_numpy() == want) | np.isnan(out.to_numpy()) & np.isnan(want) | (np.abs(out.to_numpy() - want) < 1e-12))
        check(not bad.any(), 'wrong-index', lambda: f'{bad.sum()} of {bad.size} indices of a table wrong, first: irradiance '
              f'{g[tuple(np.argwhere(bad)[0])]} under clear sky {c[np.argwhere(bad)[0][0]]} is {out.to_numpy()[tuple(np.argwhere(bad)[0])]}, '
              f'not {want[tuple(np.argwhere(bad)[0])]} (maximum {top})')
        for j in range(g.shape[1]):
            one = real(irradiance.clearsky_index, tab.iloc[:, j], clear, what='clearsky_index(series)', **kw)
            check(isinstance(one, pd.Series) and one.index.equals(tab.index) and same(one, want[:, j], 1e-12), 'wrong-index',
                  f'sensor {j} alone: the index differs from the definition')
            arr = real(irradiance.clearsky_index, g[:, j].copy(), c.copy(), what='clearsky_index(array)', **kw)
            check(same(arr, want[:, j], 1e-12), 'wrong-index', f'sensor {j} as an array: the index differs from the definition')
            run.steps += 2
        cut = rng.randrange(1, len(tab)) if len(tab) > 1 else 1
        part = real(irradiance.clearsky_index, tab.iloc[:cut], clear.iloc[:cut], what='clearsky_index(part)', **kw)
        check(same(part, want[:cut], 1e-12), 'depends-on-later', 'the index of the first part of the season depends on the rest')
        check(tab.equals(keep[0]) and clear.equals(keep[1]), 'argument-changed', 'the records or the model were changed')
        fin = out.to_numpy()[np.isfinite(out.to_numpy())]
        run.log('idx', len(fin), f'{fin.sum():.9g}', int(np.isnan(want).sum()), top)
        run.probe('capped' if (want == (top or 2)).any() else 'not_capped')


class Variability(Season):
    prop = 'C17'
    batch = 8
    runs = {'quick': 1600, 'thorough': 80000}
    wall = {'quick': 60, 'thorough': 2400}
    rule = ('one run = a season of records with lost samples, gaps and faulty sensors, cut into periods; every metric of every period and '
            'sensor is compared with its definition over the valid records; non-trivial when a fault was injected')
    measure = 'distinct (time step, kinds of fault, kinds of period, one or several sensors, labels)'
    assumptions = ['variability index under losses: path lengths over the valid increments']

    @staticmethod
    def binned(x, t0, t, size):
        """Means over periods of length size (ns) counted from midnight."""
        b = (t - t0) // size
        lo, hi = int(b[0]), int(b[-1])
        out = np.full(hi - lo + 1, np.nan)
        ok = np.isfinite(x)
        s = np.bincount(b[ok] - lo, weights=x[ok], minlength=len(out))
        k = np.bincount(b[ok] - lo, minlength=len(out))
        out[k > 0] = s[k > 0] / k[k > 0]
        return out

    @staticmethod
    def ramps(x, tau):
        d = x[tau:] - x[:-tau] if len(x) > tau else np.array([])
        return d[~np.isnan(d)]

    def score(self, x, tau):
        d = np.abs(self.ramps(x, tau))
        if not len(d):
            return np.nan
        srt = np.sort(d)
        less = np.searchsorted(srt, d, 'left')
        upto = np.searchsorted(srt, d, 'right')
        return (d * (1 - (less + upto + 1) / 2 / len(d))).max()

    def execute(self, sc, run):
        sc = dict(sc, faults=[f for f in sc['faults'] if f[0] != 'inf'])
        tab, clear, _, win, touched = self.stream(sc, run)
        rng = random.Random(sc['pick'])
        keep = tab.copy(), clear.copy()
        per = [w for w in range(len(sc['kinds'])) if (win == w).sum() >= 8]
        med = {}
        for w in per:
            part, cs = tab[win == w], clear[win == w]
            t = part.index.astype('datetime64[ns, UTC]' if part.index.tz is not None else 'datetime64[ns]').asi8
            local = part.index.tz_localize(None).astype('datetime64[ns]').asi8
            t0 = t[0] - (local[0] % (86400 * 10 ** 9))
            dtn = np.median(np.diff(t))
            x = part.to_numpy()
            tau = rng.choice([1, 1, 2, 3, 4, 7, 10])
            avg, pct = rng.random() < 0.5, rng.random() < 0.3
            size = int(tau * dtn)
            bins = avg and tau > 1
            cols = [self.binned(x[:, j], t0, t, size) if bins else x[:, j] for j in range(x.shape[1])]
            csb = self.binned(cs.to_numpy(), t0, t, size) if bins else cs.to_numpy()
            step = 1 if bins else tau
            kw = dict(tau=tau, moving_avg=avg, pct=pct)
            f = 0.1 if pct else 1.0
            what = f'period {w}, step {dtn / 1e9} s, tau {tau}, averaged {bins}, percent {pct}'
            vs = real(stats.variability_score, part, what=f'variability_score ({what})', **kw)
            want = [f * self.score(c, step) for c in cols]
            check(isinstance(vs, pd.Series) and list(vs.index) == list(part.columns) and same(vs, want), 'wrong-metric',
                  lambda: f'variability score, {what}: {np.asarray(vs)}, by definition {np.array(want)}')
            da = real(stats.darr, part, what=f'darr ({what})', **kw)
            wda = [f * np.abs(self.ramps(c, step)).sum() for c in cols]
            check(isinstance(da, pd.Series) and list(da.index) == list(part.columns) and same(da, wda), 'wrong-metric',
                  lambda: f'daily aggregate ramp rate, {what}: {np.asarray(da)}, by definition {np.array(wda)}')
            norm = rng.random() < 0.5
            at = tau if rng.random() < 0.5 else 1
            dtm = (size if at > 1 else dtn) / 6e10

            def path(v):
                return np.sqrt(self.ramps(v, 1) ** 2 + dtm ** 2).sum()
            xc = [self.binned(x[:, j], t0, t, size) if at > 1 else x[:, j] for j in range(x.shape[1])]
            xs = self.binned(cs.to_numpy(), t0, t, size) if at > 1 else cs.to_numpy()
            if len(xs) > 1:
                vi = real(stats.variability_index, part, cs, moving_avg_tau=at, norm=norm, what=f'variability_index ({what})')
                wvi = [path(v) / path(xs) * (np.sqrt(dtm) if norm else 1) for v in xc]
                check(isinstance(vi, pd.Series) and list(vi.index) == list(part.columns) and same(vi, wvi), 'wrong-metric',
                      lambda: f'variability index, {what}, averaging {at}: {np.asarray(vi)}, by definition {np.array(wvi)}')
                own = real(stats.variability_index, cs, cs, moving_avg_tau=at, what='variability_index')
                check(abs(own - 1) < 1e-9, 'wrong-metric', f'variability index of the clear sky itself is {own}')
                j = rng.randrange(x.shape[1])
                one = real(stats.variability_index, part.iloc[:, j], cs, moving_avg_tau=at, norm=norm, what='variability_index')
                check(same(one, wvi[j]), 'columns-interact', lambda: f'variability index, {what}: sensor {j} alone {one}, in the table {wvi[j]}')
            j = rng.randrange(x.shape[1])
            for name, fn, ref in (('variability score', stats.variability_score, want), ('aggregate ramp rate', stats.darr, wda)):
                one = real(fn, part.iloc[:, j], what=name, **kw)
                check(same(one, ref[j]), 'columns-interact', lambda: f'{name}, {what}: sensor {j} alone {one}, in the table {ref[j]}')
            run.steps += 6
            # errors of one sensor against another, over the valid records
            k = rng.randrange(x.shape[1])
            a, b = part.iloc[:, j], part.iloc[:, k]
            e = x[:, k] - x[:, j]
            ok = e[~np.isnan(e)]
            for fn, ref in ((stats.bias_error, e), (stats.absolute_error, np.abs(e)), (stats.squared_error, e * e)):
                r = real(fn, a, b, what=fn.__name__)
                check(isinstance(r, pd.Series) and r.index.equals(part.index) and same(r, ref), 'wrong-metric', f'{fn.__name__} of sensors {j} and {k}, {what}')
                check(same(real(fn, x[:, j].copy(), x[:, k].copy(), what=fn.__name__), ref), 'wrong-metric', f'{fn.__name__} of arrays, {what}')
            for fn, ref in ((stats.mbe, ok.mean() if len(ok) else np.nan), (stats.mae, np.abs(ok).mean() if len(ok) else np.nan),
                            (stats.mse, (ok ** 2).mean() if len(ok) else np.nan), (stats.rmse, np.sqrt((ok ** 2).mean()) if len(ok) else np.nan)):
                r = real(fn, a, b, what=fn.__name__)
                check(same(r, ref), 'wrong-metric', lambda: f'{fn.__name__} of sensors {j} and {k}, {what}: {r}, by definition {ref}')
            if clear[win == w].min() > 20:
                vs = np.asarray(real(stats.variability_score, real(irradiance.clearsky_index, part, cs, what='clearsky_index'), what='variability_score'))
                med[w] = np.nanmedian(vs) if np.isfinite(vs).any() else np.nan
            run.log('w', w, tau, avg, ' '.join(f'{z:.9g}' for z in np.r_[want, wda]))
        # cloudy periods stand out
        healthy = len(touched) * 2 < sc['n'] and not any(f[0] in ('outage', 'gap') for f in sc['faults'])
        if healthy:
            cl = [med[w] for w in med if sc['kinds'][w] == 'cloud']
            cr = [med[w] for w in med if sc['kinds'][w] == 'clear']
            if cl and cr:
                run.probe('ranked')
                check(min(cl) > max(cr), 'not-ranked', lambda: f'variability scores of cloudy periods {cl}, of clear periods {cr}')
        check(tab.equals(keep[0]) and clear.equals(keep[1]), 'argument-changed', 'the records or the model were changed')


def aligned(vec, n, grid=721):
    """For every turn of n evenly spread axes: the best total alignment of n of the vectors with them."""
    u = vec / np.hypot(vec[:, 0], vec[:, 1])[:, None]
    out = []
    for a in np.linspace(0, np.pi / n, grid):
        th = np.arange(n) / n * np.pi + a
        d = np.abs(np.outer(np.cos(th), u[:, 0]) + np.outer(np.sin(th), u[:, 1]))
        r, c = linear_sum_assignment(-d)
        out.append(d[r, c].sum() / n)
    return np.array(out)


class Diverse(Season):
    prop = 'C19'
    batch = 4
    windows = (5, 12)
    runs = {'quick': 800, 'thorough': 50000}
    wall = {'quick': 60, 'thorough': 2400}
    rule = ('one run = a season whose motions are estimated period by period with faulty sensors, added to an archive of earlier motions, '
            'and the most diverse chosen; the same season turned, reversed, reordered and with other speeds must give as good a choice; '
            'non-trivial when a period failed or a fault was injected')
    measure = 'distinct (time step, kinds of fault, kinds of period, one or several sensors, labels)'
    assumptions = ['the choice is found by numerical optimisation: its spread is judged to within a tenth of the best']

    def generate(self, rng, tier):
        sc = super().generate(rng, tier)
        kind = rng.choice(['even', 'narrow', 'two', 'repeats', 'axis'])
        m = rng.choice([0, 0, 5, 12, 30])
        base = rng.uniform(0, TWO_PI)
        if kind == 'even':
            a = [rng.uniform(0, TWO_PI) for _ in range(m)]
        elif kind == 'narrow':
            a = [base + rng.gauss(0, 0.2) for _ in range(m)]
        elif kind == 'two':
            a = [base + rng.choice([0, 1.4]) + rng.gauss(0, 0.1) for _ in range(m)]
        elif kind == 'repeats':
            a = [base + rng.choice([0, 1, 2, 3]) for _ in range(m)]
        else:
            a = [rng.choice([0, np.pi / 2, np.pi, 3 * np.pi / 2]) for _ in range(m)]
        sc.update(n=rng.choice([4, 5, 6]), m=120, dt=rng.choice([1.0, 5.0, 10.0]), archive=[[round(x, 6), round(rng.uniform(0.5, 30), 3)] for x in a],
                  want=rng.choice([2, 2, 3, 3, 4, 5, 8]), turn=round(rng.uniform(0, TWO_PI), 5), form=rng.choice(['series', 'series', 'array', 'dup']))
        return sc

    def shrink(self, sc):
        yield from super().shrink(sc)
        A = sc['archive']
        for i in range(len(A)):
            yield dict(sc, archive=A[:i] + A[i + 1:])

    def execute(self, sc, run):
        tab, clear, pos, win, _ = self.stream(sc, run)
        kt = real(irradiance.clearsky_index, tab, clear, what='clearsky_index')
        rng = random.Random(sc['pick'])
        vec = []
        for w in range(len(sc['kinds'])):
            part = kt[win == w]
            if len(part) < 20:
                continue
            spd, ang, dat = real(cmv.compute_cmv, part, pos, method='jamaly', options={'minvelocity': 1}, what='compute_cmv')
            run.steps += 1
            if dat.flag is not cmv.Flag.GOOD or not spd > 0:
                run.fault('period_rejected')
                continue
            vec.append(real(spatial.pol2rect, spd, ang, what='pol2rect'))
            run.probe('period_used')
        vec += [(s * np.cos(a), s * np.sin(a)) for a, s in sc['archive']]
        vec = np.array(vec, float).reshape(-1, 2)
        vec = vec[np.isfinite(vec).all(1) & (np.hypot(vec[:, 0], vec[:, 1]) > 1e-6)]
        n = sc['want']
        if len(vec) < n:
            run.probe('too_few')
            return

        def choose(v, what):
            x, y = v[:, 0].copy(), v[:, 1].copy()
            if sc['form'] != 'array':
                idx = [z // 2 if sc['form'] == 'dup' else 50 - z for z in range(len(v))]
                x, y = pd.Series(x, index=idx, name='x'), pd.Series(y, index=idx, name='y')
            k = x.copy(), y.copy()
            pick = np.asarray(real(cmv.optimum_subset, x, y, n, what=f'optimum_subset {what}'))
            run.steps += 1
            check(np.array_equal(np.asarray(x), np.asarray(k[0])) and np.array_equal(np.asarray(y), np.asarray(k[1])), 'argument-changed', 'the motions were changed')
            check(len(pick) == n and len(set(pick.tolist())) == n and all(0 <= int(p) < len(v) and int(p) == p for p in pick), 'not-distinct',
                  lambda: f'{n} of {len(v)} motions wanted ({what}), got {pick.tolist()}')
            poss, mine = aligned(v, n), aligned(v[pick], n)
            best, got = poss.max(), mine.max()
            check(got >= best - 0.1 and (poss - mine).min() < 0.006, 'not-diverse', lambda: f'{what}: {n} of {len(v)} motions chosen with mean alignment {got:.4f}, {best:.4f} is possible, and best for no turn of the axes by {(poss - mine).min():.4f}; directions '
                  f'{np.round(np.degrees(np.arctan2(v[pick, 1], v[pick, 0])) % 180, 1).tolist()} of {np.round(np.degrees(np.arctan2(v[:, 1], v[:, 0])) % 180, 1).tolist()}')
            return pick, got, best
        pick, got, best = choose(vec, 'as recorded')
        run.log('pick', pick.tolist(), f'{got:.6f}', f'{best:.6f}')
        again = choose(vec, 'again')[0]
        check(list(again) == list(pick), 'not-repeatable', 'the same choice made again differs')
        c, s = np.cos(sc['turn']), np.sin(sc['turn'])
        choose(vec @ np.array([[c, s], [-s, c]]), 'turned')
        flip = np.array([rng.choice([1, -1]) for _ in vec])[:, None]
        choose(vec * flip, 'some reversed')
        choose(vec * np.array([rng.uniform(0.3, 3) for _ in vec])[:, None], 'other speeds')
        order = list(range(len(vec)))
        rng.shuffle(order)
        choose(vec[order], 'reordered')
        gaps = []
        for j in range(16):
            a = (j + rng.random()) * np.pi / n / 16
            c, s = np.cos(a), np.sin(a)
            v = vec @ np.array([[c, s], [-s, c]])
            pick = np.asarray(real(cmv.optimum_subset, v[:, 0], v[:, 1], n, what='optimum_subset'))
            gaps.append(best - aligned(vec[pick], n, 181).max())
        run.steps += 16
        check(np.mean(gaps) < (0.014 if n == 2 else 0.008), 'not-diverse', lambda: f'over turns of {n} of {len(vec)} motions the choice misses the best alignment by {np.mean(gaps):.4f} on average')
        run.state('n', n, len(vec) // 5, sc['form'])
