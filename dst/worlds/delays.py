"""C10: recorders with their own clocks hear the same passing signal; batches of
pairs, some with broken recorders, go through every delay estimator."""
import random
import warnings

import numpy as np
import pandas as pd

from dst.core import Violation, World, check, real
from dst.worlds.sky import Sky, table
from solarspatialtools import field, signalproc

warnings.simplefilter('ignore')


def own_corr(a, b, centre=True, norm=True):
    """Correlation of a with b delayed by k samples, for k = -(n-1)..n-1."""
    n = len(a)
    if centre:
        a, b = a - a.mean(), b - b.mean()
    m = 1 << (2 * n).bit_length()
    c = np.fft.irfft(np.conj(np.fft.rfft(a, m)) * np.fft.rfft(b, m), m)
    c = np.r_[c[-(n - 1):], c[:n]]
    if norm:
        c = c / (n * a.std() * b.std())
    return np.arange(-(n - 1), n), c


class Delays(World):
    prop = 'C10'
    batch = 12
    runs = {'quick': 2400, 'thorough': 120000}
    wall = {'quick': 75, 'thorough': 3000}
    timeout = 120
    rule = ('one run = one signal, recorders with travel times, clock offsets and gains, and a batch of pairs in arbitrary order, '
            'some with a broken recorder; every pair is judged against the known delay and against the same pair alone; '
            'non-trivial when a recorder was broken or its clock off')
    measure = 'distinct (estimator, mode, batch form, kinds of broken recorders, label style)'
    real_parts = ['signalproc.compute_delays', 'signalproc.compute_delays_tf', 'signalproc.tf_delay', 'signalproc.averaged_tf',
                  'signalproc.xcorr_delay', 'signalproc.correlation', 'field.compute_delays', 'numpy/scipy/pandas']
    stub_parts = ['signal source', 'recorders and their clocks']
    assumptions = ['exact delays are judged where the correlation of the recordings itself peaks at the true delay',
                   'transfer-function delays carry the bias of spectral averaging, bounded by 1.3/(frequency limit * segment length) '
                   'of the delay']
    BROKEN = ['nan', 'nan_one', 'const', 'zero', 'noise', 'inf']

    def generate(self, rng, tier):
        est = rng.choice(['loop', 'loop', 'fft', 'xcorr_delay', 'multi', 'multi', 'fit', 'field'])
        tf = est in ('multi', 'fit', 'field')
        dt = rng.choice([0.01, 0.1, 0.5, 1.0, 1.0, 2.0, 10.0, 60.0])
        N = rng.choice([900, 1500, 2400]) if tf else rng.choice([64, 101, 200, 400, 777])
        nrec = rng.randint(2, 6)
        off = [rng.choice([0, 0, rng.randint(-3, 3)]) for _ in range(nrec)]
        tau = [rng.randint(-N // 150 if tf else -N // 16, N // 150 if tf else N // 16) for _ in range(nrec)]
        npairs = rng.choice([1, 2, 3, 5, 8, 20])
        form = rng.choice(['NxN', 'NxN', '1xN', 'series', 'Nx1']) if tf else 'NxN'
        return {'seed': rng.randrange(1 << 30), 'est': est, 'dt': dt, 'N': N, 'tau': tau, 'off': off,
                'size': rng.choice([4, 6, 10]) if tf else rng.choice([3, 6, 12]), 'octaves': rng.choice([1, 2]) if tf else rng.choice([2, 3]),
                'mean': rng.choice([0.0, 0.7]), 'unit': rng.choice([1.0, 1.0, 1.0, 1.0, 0.01, 1000.0]), 'gains': rng.random() < 0.4,
                'pairs': [[rng.randrange(nrec), rng.randrange(nrec)] for _ in range(npairs)], 'form': form,
                'scaling': rng.choice(['coeff', 'coeff', 'none']) if est in ('loop', 'fft') else
                rng.choice(['coeff', 'energy', 'unbiased_coeff', 'unbiased_energy', 'none']),
                'broken': [{'rec': rng.randrange(nrec), 'kind': rng.choice(self.BROKEN)} for _ in range(rng.choice([0, 0, 1, 1, 2]))],
                'labels': rng.choice(['str', 'int', 'under', 'same']), 'navgs': rng.choice([3, 5, 8]),
                'fl': rng.choice([0.02, 0.04, 0.08]), 'xc': rng.random() < 0.5, 'coh': rng.choice([0.6, 0.3, 0.8]),
                'clock': rng.choice(['datetime', 'timedelta']), 'tz': rng.choice([None, 'UTC'])}

    def directed(self, tier):
        out = []
        base = {'seed': 3, 'dt': 1.0, 'tau': [0, 4, -6, 9], 'off': [0, 1, 0, -2], 'mean': 0.7, 'gains': True, 'form': 'NxN',
                'pairs': [[0, 1], [1, 2], [2, 3], [3, 0], [1, 1]], 'scaling': 'coeff', 'labels': 'str', 'navgs': 5, 'fl': 0.04, 'xc': True,
                'coh': 0.6, 'clock': 'datetime', 'tz': 'UTC'}
        for est in ('loop', 'fft', 'xcorr_delay', 'multi', 'fit', 'field'):
            tf = est in ('multi', 'fit', 'field')
            for k in self.BROKEN:
                out.append(dict(base, est=est, N=1500 if tf else 300, size=5, octaves=2, broken=[{'rec': 1, 'kind': k}]))
            for lab in ('under', 'same', 'int'):
                out.append(dict(base, est=est, N=1500 if tf else 300, size=5, octaves=2, broken=[], labels=lab,
                                pairs=base['pairs'] + [[0, 1]]))
        return out

    def shrink(self, sc):
        P = sc['pairs']
        if len(P) > 1:
            yield dict(sc, pairs=P[:len(P) // 2])
            yield dict(sc, pairs=P[len(P) // 2:])
            for i in range(len(P)):
                yield dict(sc, pairs=P[:i] + P[i + 1:])
        for i in range(len(sc['broken'])):
            yield dict(sc, broken=sc['broken'][:i] + sc['broken'][i + 1:])
        for k, v in (('gains', False), ('labels', 'str'), ('clock', 'datetime'), ('tz', 'UTC'), ('dt', 1.0), ('mean', 0.0), ('xc', False),
                     ('off', [0] * len(sc['off'])), ('form', 'NxN'), ('unit', 1.0)):
            if sc.get(k, v) != v:
                yield dict(sc, **{k: v})

    # ------------------------------------------------------------------
    def execute(self, sc, run):
        rng = random.Random(f'rec{sc["seed"]}')
        n, dt = sc['N'], sc['dt']
        sky = Sky(sc['seed'], size=float(sc['size']), octaves=sc['octaves'], depth=0.35, mean=sc['mean'], fronts=0.0)
        grid = np.arange(n)
        recs, lag = [], []
        for t, o in zip(sc['tau'], sc['off']):
            k = t + o                       # later arrival and a clock that runs ahead both look late
            g = rng.uniform(0.7, 1.3) if sc['gains'] else 1.0
            recs.append(sc.get('unit', 1.0) * g * sky.at((k - grid).astype(float), np.zeros(n)))
            lag.append(k)
            if o:
                run.fault('clock_offset')
        bad = {}
        for b in sc['broken']:
            i = b['rec'] % len(recs)
            bad[i] = b['kind']
            x = recs[i].copy()
            if b['kind'] == 'nan':
                x[:] = np.nan
            elif b['kind'] == 'nan_one':
                x[rng.randrange(n)] = np.nan
            elif b['kind'] == 'inf':
                x[rng.randrange(n)] = np.inf
            elif b['kind'] == 'const':
                x[:] = rng.choice([0.3, 1.0, 0.1])
            elif b['kind'] == 'zero':
                x[:] = 0.0
            else:
                x = np.array([rng.gauss(0, 1) for _ in range(n)])
            recs[i] = x
            run.fault('recorder_' + b['kind'])
        pairs = [tuple(p) for p in sc['pairs']]
        form = sc['form']
        if form in ('1xN', 'series'):
            pairs = [(pairs[0][0], j) for _, j in pairs]
        elif form == 'Nx1':
            pairs = [(i, pairs[0][1]) for i, _ in pairs]
        names = {'str': [f'r{i}' for i in range(9)], 'int': list(range(10, 19)),
                 'under': ['a', 'a_b', 'b', 'b_a', 'a_a', 'b_b', 'a_b_a', '_', 'c'], 'same': ['r'] * 9}[sc['labels']]
        run.nontrivial = run.nontrivial or len(pairs) > 1
        run.state(sc['est'], sc['scaling'], form, tuple(sorted(set(bad.values()))), sc['labels'], len(pairs))
        run.sim += n * dt
        self.tf = sc['est'] in ('multi', 'fit', 'field')
        fl = sc['fl'] / dt
        seg = n // sc['navgs']

        def frame(cols):
            return table(np.array([recs[i] for i in cols]).T, [names[i] for i in cols], dt, tz=sc['tz'], kind=sc['clock'])

        def call(ps, est=sc['est'], form=form):
            if est == 'xcorr_delay':
                out = []
                for i, j in ps:
                    d, c = real(signalproc.xcorr_delay, frame([i]).iloc[:, 0], frame([j]).iloc[:, 0], sc['scaling'], what='xcorr_delay')
                    out.append((d, c))
                return np.array([o[0] for o in out]), {'peak_corr': np.array([o[1] for o in out])}
            A, B = frame([i for i, _ in ps]), frame([j for _, j in ps])
            if est in ('loop', 'fft'):
                return real(signalproc.compute_delays, A, B, est, sc['scaling'], what=f'compute_delays({est})')
            if form in ('1xN', 'series') or est == 'field':
                A = A.iloc[:, :1]
            elif form == 'Nx1':
                B = B.iloc[:, :1]
            if est == 'field':
                df = B.copy()
                refname = 'reference'
                df.insert(0, refname, A.iloc[:, 0].to_numpy())
                d, coh = real(field.compute_delays, df, refname, sc['navgs'], sc['coh'], fl, 'multi', what='field.compute_delays')
                check(len(d) == len(ps) + 1, 'batch-shape', f'{len(d)} delays for {len(ps) + 1} columns')
                check(abs(d[0]) < 1e-6 * dt or ps[0][0] in bad, 'self-delay', f'delay of the reference against itself is {d[0]}')
                return d[1:], {'mean_coh': coh[1:]}
            if form == 'series':
                A = A.iloc[:, 0]
            return real(signalproc.compute_delays_tf, A, B, navgs=sc['navgs'], coh_limit=sc['coh'], freq_limit=fl, method=est,
                        compute_xcorr=sc['xc'], what=f'compute_delays_tf({est})')

        if sc['est'] == 'field':
            pairs = [(pairs[0][0], j) for _, j in pairs]
        got, extra = call(pairs)
        got = np.asarray(got, float)
        check(got.shape == (len(pairs),), 'batch-shape', f'{len(pairs)} pairs, delays of shape {got.shape}')
        run.steps += 1
        run.log(sc['est'], ' '.join(f'{x:.7g}' for x in got))
        for key in ('peak_corr', 'mean_corr', 'zero_corr', 'mean_coh'):
            if key in extra:
                check(np.shape(extra[key]) == (len(pairs),), 'batch-shape',
                      f'{key} has shape {np.shape(extra[key])} for {len(pairs)} pairs')
        for p, (i, j) in enumerate(pairs):
            healthy = i not in bad and j not in bad
            what = f'pair {i}-{j} at {p} of {len(pairs)} ({sc["est"]}, {sc["scaling"]}, {form})'
            if healthy:
                self._truth(sc, what, recs[i], recs[j], (lag[j] - lag[i]) * dt, got[p], {k: v[p] for k, v in extra.items() if np.ndim(v) == 1},
                            fl, seg, run)
            if len(pairs) > 1 or form != 'NxN':
                lone, lx = call([(i, j)], form='NxN')
                run.steps += 1
                self._same(sc, what, got[p], float(lone[0]), {k: v[p] for k, v in extra.items() if np.ndim(v) == 1},
                           {k: v[0] for k, v in lx.items() if np.ndim(v) == 1}, healthy, recs[i], recs[j], seg * dt)
                run.probe('lone_compared')
        if sc['est'] in ('loop', 'fft'):
            other = 'fft' if sc['est'] == 'loop' else 'loop'
            g2, x2 = call(pairs, est=other)
            run.steps += 1
            for p, (i, j) in enumerate(pairs):
                if {bad.get(i), bad.get(j)} <= {None, 'noise'}:
                    for key in ('peak_corr', 'mean_corr', 'zero_corr'):
                        a = extra[key][p]
                        check(np.shape(x2[key]) == (len(pairs),), 'modes-differ',
                              f'{key} has shape {np.shape(x2[key])} in mode {other} for {len(pairs)} pairs')
                        b = x2[key][p]
                        # the mean of a mean-free correlation is rounding around zero
                        tol = 1e-9 * max(1.0, np.nanmax(np.abs(extra['peak_corr'])))
                        check(abs(a - b) <= tol, 'modes-differ', f'{key} of pair {i}-{j}: {a!r} ({sc["est"]}), {b!r} ({other})')
                    if not self._tie(sc, recs[i], recs[j]):
                        check(abs(got[p] - g2[p]) < 1e-9 * dt * n, 'modes-differ', f'delay of pair {i}-{j}: {got[p]!r} ({sc["est"]}), {g2[p]!r} ({other})')
            run.probe('modes_compared')

    def _curve(self, sc, a, b):
        s = sc['scaling'] if not self.tf else 'coeff'
        lags, c = own_corr(a, b, centre='coeff' in s, norm='coeff' in s)
        if 'energy' in s:
            c = c / own_corr(a, a, False, False)[1].max()
        if s.startswith('unbiased'):
            c = c / ((len(a) - np.abs(lags)) / len(a))
        return lags, c

    def _tie(self, sc, a, b):
        lags, c = self._curve(sc, a, b)
        srt = np.sort(c)
        return srt[-1] - srt[-2] < 1e-9 * max(1, abs(srt[-1])) or srt[-1] < 1e-9

    def _truth(self, sc, what, a, b, true, got, extra, fl, seg, run):
        dt = sc['dt']
        if not self.tf:
            lags, c = self._curve(sc, a, b)
            k = int(np.argmax(c))
            if lags[k] * dt != true or self._tie(sc, a, b):
                if abs(lags[k] * dt - true) > 1e-9 * dt * len(a) or self._tie(sc, a, b):
                    run.probe('truth_unsuited')
                    return
            check(abs(got - true) <= 1e-9 * dt * len(a), 'wrong-delay', f'{what}: delay {got!r} s, second records {true} s later')
            if 'coeff' in sc['scaling']:
                check(abs(extra['peak_corr'] - c[k]) < 1e-8, 'wrong-correlation', f'{what}: peak {extra["peak_corr"]!r}, is {c[k]!r}')
                if 'zero_corr' in extra:
                    check(abs(extra['zero_corr'] - c[lags == 0][0]) < 1e-8, 'wrong-correlation',
                          f'{what}: zero-lag value {extra["zero_corr"]!r}, is {c[lags == 0][0]!r}')
                    check(abs(extra['mean_corr'] - c.mean()) < 1e-8, 'wrong-correlation', f'{what}: mean {extra["mean_corr"]!r}, is {c.mean()!r}')
            run.probe('truth_exact')
            return
        if 'peak_corr' in extra:
            lags, c = self._curve(sc, a, b)
            for key, want in (('peak_corr', np.interp(got, lags * dt, c, left=np.nan, right=np.nan)), ('mean_corr', c.mean()),
                              ('zero_corr', c[lags == 0][0])):
                check(_eq(extra[key], want, 1e-6), 'wrong-correlation', f'{what}: {key} {extra[key]!r} with a delay of {got!r} s, is {want!r}')
            run.probe('correlation_at_delay')
        segs = seg * dt
        # beyond the band of the pattern the spectra hold only leakage, whose phase says nothing
        if fl * segs < 8 or abs(true) > 0.06 * segs or fl * dt * sc['size'] / 2 ** (sc['octaves'] - 1) > 0.5:
            run.probe('truth_unsuited')
            return
        tol = abs(true) * 1.3 / (fl * segs) + 0.03 * dt
        check(abs(got - true) <= tol, 'wrong-delay', f'{what}: delay {got:.5f} s, second records {true:.5f} s later, resolution {tol:.5f} s')
        run.probe('truth_tf')

    def _same(self, sc, what, a, b, xa, xb, healthy, ra, rb, segs):
        if not self.tf:
            if healthy and self._tie(sc, ra, rb):
                return
            check(_eq(a, b, 1e-9 * sc['dt'] * sc['N']), 'batch-changes-pair', f'{what}: delay {a!r} in the batch, {b!r} alone')
        else:
            check(_eq(a, b, 1e-4 * abs(b) + 1e-6 * sc['dt']), 'batch-changes-pair', f'{what}: delay {a!r} in the batch, {b!r} alone')
        for k in ('peak_corr', 'mean_corr', 'zero_corr', 'mean_coh'):
            if k in xa and k in xb:
                tol = 1e-7 * max(1.0, abs(xb[k]) if np.isfinite(xb[k]) else 1.0)
                if self.tf and k == 'peak_corr':
                    tol = 1e-3
                check(_eq(xa[k], xb[k], tol) or not healthy and not (np.isfinite(xa[k]) and np.isfinite(xb[k])), 'batch-changes-pair',
                      f'{what}: {k} {xa[k]!r} in the batch, {xb[k]!r} alone')


def _eq(a, b, tol):
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= tol
