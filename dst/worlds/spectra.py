"""C23: recorders hear one source through paths with known responses; some are broken,
some pick up interference. Averaged spectra, transfer functions, coherence and the
delays read from their phase are judged against the paths and a plain-numpy estimate."""
import random
import warnings

import numpy as np
import pandas as pd

from dst.core import World, check, real
from dst.worlds.sky import table
from solarspatialtools import signalproc

warnings.simplefilter('ignore')
TWO_PI = 2 * np.pi


def segments(x, nper, nover, detrend, w):
    step = nper - nover
    out = []
    for s in range(0, len(x) - nper + 1, step):
        y = x[s:s + nper]
        if detrend == 'constant':
            y = y - y.mean()
        elif detrend == 'linear':
            t = np.arange(nper) - (nper - 1) / 2
            y = y - y.mean() - t * (t @ y) / (t @ t)
        out.append(np.fft.rfft(y * w))
    return np.array(out)


def window(name, n):
    t = TWO_PI * np.arange(n) / n
    return {'hamming': 0.54 - 0.46 * np.cos(t), 'hann': 0.5 - 0.5 * np.cos(t), 'boxcar': np.ones(n)}[name]


class Spectra(World):
    prop = 'C23'
    batch = 16
    runs = {'quick': 3000, 'thorough': 150000}
    wall = {'quick': 60, 'thorough': 2400}
    timeout = 120
    rule = ('one run = one source, recorders behind paths of known gain, delay, sign and smoothing, some broken or disturbed, whose spectra, '
            'transfer functions, coherences and phase delays are judged; non-trivial when a recorder was broken or disturbed')
    measure = 'distinct (source, form of the batch, window, detrending, kinds of disturbance, pulses per segment)'
    real_parts = ['signalproc.averaged_psd', 'signalproc.averaged_tf', 'signalproc.tf_delay', 'scipy.signal', 'numpy/pandas']
    stub_parts = ['source, paths, recorders']
    assumptions = ['the response is judged exactly for a source that repeats with every segment (boxcar window), statistically never']
    FAULTS = ['nan', 'nan_one', 'inf', 'const', 'zero', 'noise', 'late', 'clip', 'drift', 'hum']

    def generate(self, rng, tier):
        n = rng.randint(2, 6)
        per = rng.choice([32, 48, 60, 64, 101, 128, 200])
        navgs = rng.choice([1, 2, 3, 5, 8, 10])
        return {'seed': rng.randrange(1 << 30), 'source': rng.choice(['repeat', 'repeat', 'noise']), 'per': per, 'navgs': navgs,
                'extra': rng.choice([0, 0, 1, navgs - 1]), 'dt': rng.choice([0.001, 0.02, 0.5, 1.0, 1.0, 3.0, 10.0, 60.0, 3600.0]),
                'overlap': rng.choice([0, 0.5, 0.5, 0.25, 0.75, 0.9, 0.33]), 'window': rng.choice(['hamming', 'hamming', 'boxcar', 'hann']),
                'detrend': rng.choice(['linear', 'constant', None, False]),
                'paths': [[round(rng.uniform(0.2, 3) * rng.choice([1, 1, -1]), 4), rng.choice([0.0, rng.randint(-3, 3), round(rng.uniform(-2, 2), 3)]),
                           rng.choice([0, 0, 1.0, 3.0])] for _ in range(n)],
                'form': rng.choice(['NxN', 'NxN', '1xN', 'Nx1', 'series', 'sxs', 'frame1']), 'mean': rng.choice([0.0, 0.7, 500.0]),
                'faults': [[rng.choice(self.FAULTS), rng.randrange(n)] for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                'labels': rng.choice(['str', 'int', 'same']), 'scaling': rng.choice(['density', 'spectrum']),
                'clock': rng.choice(['datetime', 'timedelta'])}

    def shrink(self, sc):
        F = sc['faults']
        for i in range(len(F)):
            yield dict(sc, faults=F[:i] + F[i + 1:])
        if len(sc['paths']) > 1:
            yield dict(sc, paths=sc['paths'][:-1])
        for k, v in (('navgs', 2), ('extra', 0), ('dt', 1.0), ('overlap', 0), ('window', 'boxcar'), ('detrend', 'constant'), ('mean', 0.0),
                     ('labels', 'str'), ('clock', 'datetime'), ('form', 'NxN')):
            if sc[k] != v:
                yield dict(sc, **{k: v})

    def execute(self, sc, run):
        rng = random.Random(f'spec{sc["seed"]}')
        rs = np.random.RandomState(sc['seed'])
        per, dt, n = sc['per'], sc['dt'], len(sc['paths'])
        N = per * sc['navgs'] + sc['extra']
        if N // sc['navgs'] != per:
            N = per * sc['navgs']
        t = np.arange(N)
        fr = np.fft.rfftfreq(per, 1.0)                       # cycles per sample
        H = [g * np.exp(-2j * np.pi * fr * d) / (1 + 2j * np.pi * fr * s) for g, d, s in sc['paths']]
        k = np.arange(1, (per - 1) // 2 + 1)
        if sc['source'] == 'repeat':
            amp, ph = rs.uniform(0.5, 1.5, len(k)) / (1 + 4 * k / len(k)), rs.uniform(0, TWO_PI, len(k))

            def heard(h):
                x = np.zeros(N)
                for a, p, kk in zip(amp, ph, k):
                    x += np.real(a * h[kk] * np.exp(1j * (TWO_PI * kk * t / per + p)))
                return x
        else:
            x0 = rs.standard_normal(N + 200)
            x0 = x0[100:-100] + 0.5 * x0[99:-101]
            F = np.fft.rfft(x0)
            ff = np.fft.rfftfreq(N)

            def heard(h):
                i = next(j for j in range(n) if H[j] is h)
                g, d, s = sc['paths'][i]
                return np.fft.irfft(F * g * np.exp(-2j * np.pi * ff * d) / (1 + 2j * np.pi * ff * s), N)
        recs = [heard(h) + sc['mean'] * h[0].real for h in H]
        bad = {}
        for kind, i in sc['faults']:
            i %= n
            x = recs[i].copy()
            run.fault('recorder_' + kind)
            bad.setdefault(i, set()).add(kind)
            if kind == 'nan':
                x[:] = np.nan
            elif kind == 'nan_one':
                x[rng.randrange(N)] = np.nan
            elif kind == 'inf':
                x[rng.randrange(N)] = np.inf
            elif kind == 'const':
                x[:] = 0.4
            elif kind == 'zero':
                x[:] = 0.0
            elif kind == 'noise':
                x = rs.standard_normal(N)
            elif kind == 'late':
                x[:rng.randrange(1, N)] = sc['mean']
            elif kind == 'clip':
                x = np.clip(x, np.nanmean(x) - 0.5, np.nanmean(x) + 0.5)
            elif kind == 'drift':
                x = x + np.linspace(0, 3, N)
            else:
                x = x + 2 * np.cos(TWO_PI * rng.uniform(0.05, 0.45) * t + 1)
            recs[i] = x
        form = sc['form']
        order = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3, n, 7]))]
        if form in ('NxN', 'frame1', 'sxs'):
            A, B = order, [rng.randrange(n) for _ in order]
            if form != 'NxN':
                A, B = A[:1], B[:1]
        elif form == 'Nx1':
            A, B = order, [rng.randrange(n)]
        else:
            A, B = [rng.randrange(n)], order
        pairs = list(zip(A * (len(B) if len(A) == 1 else 1), B * (len(A) if len(B) == 1 else 1)))
        names = {'str': [f'r{i}' for i in range(9)], 'int': list(range(10, 19)), 'same': ['r'] * 9}[sc['labels']]
        run.sim += N * dt
        run.state(sc['source'], form, sc['window'], str(sc['detrend']), tuple(sorted(set(f[0] for f in sc['faults']))), sc['navgs'])

        def frame(cols):
            return table(np.array([recs[i] for i in cols]).T, [names[i] for i in cols], dt, kind=sc['clock'])
        nover = int(per * sc['overlap'])
        w = window(sc['window'], per)
        kw = dict(navgs=sc['navgs'], overlap=sc['overlap'], window=sc['window'], detrend=sc['detrend'])
        seg = {}
        with np.errstate(all='ignore'):
            for i in set(A + B):
                seg[i] = segments(recs[i], per, nover, sc['detrend'], w)
        one = np.full(len(fr), 2.0)
        one[0] = 1
        if per % 2 == 0:
            one[-1] = 1
        sick = {i for i in seg if not np.isfinite(recs[i]).all()}
        still = {i for i in seg if bad.get(i, set()) & {'const', 'zero'} or i not in sick and np.ptp(recs[i]) == 0}

        top = {i: (recs[i][np.isfinite(recs[i])] ** 2).max(initial=0) for i in seg}

        # power spectra
        cols = sorted(set(A + B))
        P = frame(cols)
        fs = 1 / dt
        keep = P.copy()
        if sc['detrend'] == 'linear' and sick & set(cols):
            cols = [i for i in cols if i not in sick]
            run.probe('refused_with_linear')
            P = frame(cols) if cols else None
        if cols:
            psd = real(signalproc.averaged_psd, P, scaling=sc['scaling'], what='averaged_psd', **kw)
            run.steps += 1
            check(isinstance(psd, pd.DataFrame) and list(psd.columns) == [names[i] for i in cols] and np.allclose(psd.index, fr * fs, rtol=1e-9),
                  'wrong-spectrum', 'labels or frequencies of the spectra')
            for c, i in enumerate(cols):
                den = fs * (w ** 2).sum() if sc['scaling'] == 'density' else w.sum() ** 2
                want = one * (np.abs(seg[i]) ** 2).mean(0) / den
                got = psd.iloc[:, c].to_numpy()
                if not np.isfinite(seg[i]).all():
                    check(not np.isfinite(got).all(), 'wrong-spectrum', f'recorder {i} with missing values has a complete spectrum')
                    continue
                tol = 1e-8 * (want.max() + top[i] * 1e-6 * per / fs)
                check((np.abs(got - want) <= tol).all(), 'wrong-spectrum', lambda: f'recorder {i}: power {got[np.argmax(np.abs(got - want))]!r} '
                      f'where the average of {len(seg[i])} segments is {want[np.argmax(np.abs(got - want))]!r} ({kw}, {sc["scaling"]})')
                s = real(signalproc.averaged_psd, P.iloc[:, c], scaling=sc['scaling'], what='averaged_psd(series)', **kw)
                check(s.shape == (len(fr), 1) and np.allclose(np.asarray(s)[:, 0], got, rtol=1e-9, atol=tol), 'form-matters',
                      lambda: f'recorder {i}: spectrum as a series {np.asarray(s)[:3, 0]}, in the table {got[:3]} ({sc["scaling"]})')
                run.steps += 1
            run.log('psd', f'{np.nansum(psd.to_numpy()):.8g}')

        # transfer functions
        use = set(A + B)
        if sc['detrend'] == 'linear' and sick & use:
            pairs_ok = False
            try:
                signalproc.averaged_tf(frame(A), frame(B), **kw)
                pairs_ok = True
            except ValueError:
                run.probe('refused_with_linear')
            if not pairs_ok:
                return
        a, b = frame(A), frame(B)
        if form in ('series', 'sxs'):
            a = a.iloc[:, 0]
        if form == 'sxs':
            b = b.iloc[:, 0]
        ka, kb = a.copy(), b.copy()
        tf, coh = real(signalproc.averaged_tf, a, b, what=f'averaged_tf({form})', **kw)
        run.steps += 1
        check(a.equals(ka) and b.equals(kb) and (P is None or P.equals(keep) or sick), 'argument-changed', 'the records were changed')
        check(tf.shape == coh.shape == (len(fr), len(pairs)) and np.allclose(tf.index, fr * fs, rtol=1e-9) and np.allclose(coh.index, fr * fs, rtol=1e-9),
              'wrong-shape', f'{len(pairs)} pairs and {len(fr)} frequencies, results of shape {tf.shape} and {coh.shape}')
        check(list(tf.columns) == list(coh.columns) == [f'{names[i]}_{names[j]}' for i, j in pairs], 'wrong-labels', f'pairs are labelled {list(tf.columns)}')
        for c, (i, j) in enumerate(pairs):
            h, q = tf.iloc[:, c].to_numpy(), coh.iloc[:, c].to_numpy()
            what = f'recorders {i} to {j} at {c} of {len(pairs)} ({form}, {kw})'
            if not (np.isfinite(seg[i]).all() and np.isfinite(seg[j]).all()):
                check(not np.isfinite(h).all() and not np.isfinite(q).all(), 'wrong-response', f'{what}: missing values, but a complete response')
                continue
            if i in still or j in still:
                run.probe('still')
                continue
            X, Y = seg[i], seg[j]
            xx, yy, xy = (np.abs(X) ** 2).mean(0), (np.abs(Y) ** 2).mean(0), (np.conj(X) * Y).mean(0)
            floor = 1e-18 * per ** 2 * top[i], 1e-18 * per ** 2 * top[j]
            ok = (xx > 1e-9 * xx.max()) & (yy > 1e-9 * yy.max()) & (xx > floor[0] * 1e6) & (yy > floor[1] * 1e6)
            wh, wq = xy / xx, np.abs(xy) ** 2 / xx / yy
            check((np.abs(h - wh)[ok] <= 1e-6 * np.abs(wh[ok]) + 1e-6 * np.sqrt(yy / xx)[ok]).all(), 'wrong-response',
                  lambda: f'{what}: response differs from cross spectrum over input spectrum, at most by {np.abs(h - wh)[ok].max():.3g}')
            check((np.abs(q - wq)[ok] < 1e-6).all() and (q[ok] <= 1 + 1e-9).all() and (q[ok] >= 0).all(), 'wrong-coherence',
                  lambda: f'{what}: coherence differs from its definition by {np.abs(q - wq)[ok].max():.3g}')
            if sc['source'] == 'repeat' and sc['window'] == 'boxcar' and sc['detrend'] != 'linear' and not (bad.get(i) or bad.get(j)):
                true = H[j] / H[i]
                m = np.zeros(len(fr), bool)
                m[k] = True
                m &= ok
                check((np.abs(h - true)[m] <= 1e-6 * np.abs(true[m])).all(), 'not-the-path', lambda: f'{what}: response {h[m][:3]}, path {true[m][:3]}')
                check((np.abs(q - 1)[m] < 1e-6).all(), 'not-the-path', f'{what}: coherence of an undisturbed path below 1')
                run.probe('path_exact')
                self.delay(sc, run, rng, what, true, fr, m, dt)
            run.log(c, f'{np.nansum(np.abs(h)[ok]):.7g}', f'{np.nansum(q[ok]):.7g}')
        if form == 'NxN' and len(pairs) == 3:
            for x, y in ((frame(A), frame([B[0], B[1]])), (frame(A[:2]), frame(B))):
                try:
                    signalproc.averaged_tf(x, y, **kw)
                except ValueError:
                    continue
                check(False, 'not-refused', 'two and three records were paired')

    def delay(self, sc, run, rng, what, true, fr, m, dt):
        """The delay read from the phase of a pure delay, with disturbed frequencies left out by their coherence."""
        d = rng.uniform(-0.4, 0.4)                                   # in samples, within half a turn at every frequency
        f = fr / dt
        n = rng.choice([1, 1, 3])
        ds = np.array([d] + [rng.uniform(-0.4, 0.4) for _ in range(n - 1)]) * dt
        tf = np.abs(true)[:, None] * np.exp(-2j * np.pi * f[:, None] * ds)
        coh = np.full(tf.shape, 0.95)
        lim = rng.choice([None, f[len(f) // 2], f[-1] * 2])
        cl = rng.choice([0.6, 0.9, 0.3])
        for c in range(n):
            for _ in range(rng.choice([0, 1, 3])):
                b = rng.randrange(1, len(f))
                tf[b, c] *= 3 * np.exp(1j * rng.uniform(-1.2, 1.2))
                coh[b, c] = rng.choice([cl - 0.01, cl - 0.2, np.nan])
                run.fault('disturbed_frequency')
        T, C = pd.DataFrame(tf, index=f), pd.DataFrame(coh, index=f)
        mask = np.ones(tf.shape, bool) & (coh > cl) & ((f < lim)[:, None] if lim is not None else True)
        if (mask[1:].sum(0) == 0).any():
            return
        got, ix = real(signalproc.tf_delay, T, C, cl, lim, 'multi', what='tf_delay(multi)') if lim is not None or True else None
        run.steps += 1
        check(np.shape(ix) == mask.shape and (ix == mask).all(), 'wrong-mask', 'the frequencies used are not those within the limits')
        check(np.shape(got) == (n,) and (np.abs(np.asarray(got) - ds) < 1e-6 * dt).all(), 'wrong-delay', lambda: f'phases of delays {ds} s read as {got}')
        for c in range(n):
            g, ix = real(signalproc.tf_delay, T.iloc[:, c], C.iloc[:, c], cl, lim, 'fit', what='tf_delay(fit)')
            check((np.asarray(ix)[:, 0] == mask[:, c]).all(), 'wrong-mask', 'the frequencies used are not those within the limits')
            check(abs(g - ds[c]) < 1e-6 * dt, 'wrong-delay', lambda: f'phase of a delay of {ds[c]} s read as {g} (fit)')
        if (coh[:, 0] == 0.95).all():
            g, _ = real(signalproc.tf_delay, T.iloc[:, :1], C.iloc[:, :1], cl, lim, 'diff', what='tf_delay(diff)')
            check(abs(g - ds[0]) < 1e-6 * dt, 'wrong-delay', lambda: f'phase of a delay of {ds[0]} s read as {g} (diff)')
        # a longer delay, whose phase turns several times; disturbed frequencies may have any phase
        D = rng.uniform(-3, 3) * dt
        h, q = np.exp(-2j * np.pi * f * D) * np.abs(true), np.full(len(f), cl + 0.05)
        for _ in range(rng.choice([1, 2, 3])):
            b = rng.randrange(1, len(f))
            h[b] *= np.exp(1j * rng.uniform(-3.1, 3.1))
            q[b] = rng.choice([cl - 0.01, 0.0, np.nan])
        use = (q > cl) & ((f < lim) if lim is not None else True)
        if use[1:].any():
            g, ix = real(signalproc.tf_delay, pd.DataFrame(h, index=f), pd.DataFrame(q, index=f), cl, lim, 'fit', what='tf_delay(fit)')
            check((np.asarray(ix)[:, 0] == use).all(), 'wrong-mask', 'the frequencies used are not those within the limits')
            check(abs(g - D) < 1e-6 * dt, 'wrong-delay', lambda: f'phase of a delay of {D} s, disturbed at {(~use).sum()} frequencies left out, read as {g} (fit)')
        none, ix = real(signalproc.tf_delay, T.iloc[:, 0], C.iloc[:, 0] * 0, cl, lim, 'fit', what='tf_delay(fit)')
        check(np.isnan(none) and not np.any(ix), 'wrong-delay', f'a delay of {none} without a coherent frequency')
        run.probe('phase_delay')
