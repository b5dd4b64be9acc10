"""C18: fronts pass over a plant; the record of one reference sensor, filtered
with the cloud advection filter, has to give what the whole plant sees."""
import random
import warnings

import numpy as np
import pandas as pd
from pyproj import Proj

from dst.core import Violation, World, check, real
from solarspatialtools import signalproc

warnings.simplefilter('ignore')


class Passage:
    """A periodic train of fronts: s(t), and the plant's mean of delayed copies of it."""

    def __init__(self, sc):
        rng = random.Random(f'fronts{sc["seed"]}')
        self.T = sc['N'] * sc['dt']
        self.m = np.array(sorted(rng.sample(range(1, sc['top'] + 1), min(sc['waves'], sc['top']))))
        self.a = np.array([rng.uniform(0.3, 1.0) / (1 + i) ** 0.3 for i in range(len(self.m))]) * 0.2
        self.ph = np.array([rng.uniform(0, 2 * np.pi) for _ in self.m])
        self.f = self.m / self.T
        self.base = 0.7

    def at(self, t, H=None):
        """Sum of the waves at times t, each multiplied with a complex response."""
        H = np.ones(len(self.f)) if H is None else H
        z = (self.a * H * np.exp(1j * self.ph))[None, :] * np.exp(2j * np.pi * self.f[None, :] * np.asarray(t)[:, None])
        return z.real.sum(1)


class Filters(World):
    prop = 'C18'
    batch = 12
    runs = {'quick': 2500, 'thorough': 100000}
    wall = {'quick': 60, 'thorough': 2400}
    rule = ('one run = one plant crossed by one train of fronts, recorded by a reference sensor with its own clock and gain; the '
            'record is filtered and compared with what the plant sees; non-trivial when the reference was off, the motion reversed, '
            'the spatial step too coarse, or columns were filtered together')
    measure = 'distinct (site shape, coordinates, axis, reversed, reference inside or outside, clock offset, coincident sites)'
    real_parts = ['signalproc.get_camfilter', 'signalproc.get_1d_plant', 'signalproc.plant1d_to_camfilter', 'signalproc.interp_tf',
                  'signalproc.apply_filter', 'signalproc.apply_delay', 'signalproc.get_marcosfilter', 'spatial', 'numpy/scipy/pandas']
    stub_parts = ['clouds', 'sensors and their clocks']
    assumptions = ['the record repeats exactly (a train of fronts with the period of the record), so that filtering in the frequency '
                   'domain is exact up to the spatial step and the frequency resolution of the filter',
                   'square and gaussian sites']

    def generate(self, rng, tier):
        v = round(rng.uniform(4, 25), 3)
        dt = rng.choice([0.5, 1.0, 1.0, 2.0, 5.0])
        slow = rng.random() < 0.08      # hardly any wind
        if slow:
            v = round(rng.uniform(0.2, 1.5), 3)
            dt = rng.choice([2.0, 5.0, 10.0])
        N = rng.choice([600, 601, 720, 1000, 1801, 3600]) // (2 if dt > 2 else 1)
        R = rng.choice([30, 100, 250, 600])
        dx = rng.choice([1, 1, 1, 2, 0.5, 3])
        coarse = rng.random() < 0.08
        while dx >= 0.95 * v * dt:
            dx /= 2
        if coarse:
            dx = int(v * dt * rng.uniform(1.1, 3)) + 1
        # highest wave: the spatial step stays a small part of its length
        top = max(2, min(int(0.45 * N), int(0.03 * v / dx * N * dt)))
        shape = rng.choice(['square', 'square', 'gaussian', None])
        return {'seed': rng.randrange(1 << 30), 'n': rng.choice([1, 2, 3, 7, 16, 40]), 'R': R, 'v': v, 'dt': dt, 'N': N, 'dx': dx,
                'coarse': coarse, 'theta': rng.choice([0.0, np.pi / 2, np.pi, round(rng.uniform(0, 6.2831), 5), round(rng.uniform(0, 6.2831), 5)]),
                'top': top, 'waves': rng.choice([3, 8, 20, 60]), 'shape': shape,
                'w': rng.choice([3, 5, 10, 21, 60, 60, 150]), 'xmax': rng.choice([400, 1000, 1001, 2003]), 'axis': rng.choice(['fixed', 'fixed', 'own']),
                'coords': rng.choice(['utm', 'utm', 'utm', 'latlon', 'latlon_south', 'latlon_edge']), 'grid': rng.random() < 0.25,
                'reverse': rng.random() < 0.4, 'length': rng.choice([1.0, 0.01, 37.5]), 'ref': rng.choice(['in', 'in', 'out', 'free']),
                'offset': rng.choice([0.0, 0.0, dt, round(rng.uniform(-30, 30), 3)]), 'gain': rng.choice([1.0, 1.0, 1000.0, 0.31]),
                'labels': rng.choice(['int', 'str']), 'tz': rng.choice([None, 'UTC', 'Etc/GMT+5']), 'snap': rng.random() < 0.15}

    def directed(self, tier):
        rng = random.Random(18)
        out = []
        for shape in (None, 'square', 'gaussian'):
            for rev in (False, True):
                for axis in ('fixed', 'own'):
                    sc = self.generate(rng, tier)
                    while sc['coarse']:
                        sc = self.generate(rng, tier)
                    sc.update(shape=shape, reverse=rev, axis=axis, n=7, snap=False)
                    out.append(sc)
        return out

    def shrink(self, sc):
        for k, v in (('n', 1), ('n', 3), ('waves', 3), ('shape', None), ('coords', 'utm'), ('grid', False), ('reverse', False),
                     ('length', 1.0), ('ref', 'in'), ('offset', 0.0), ('snap', False), ('gain', 1.0), ('labels', 'int'), ('tz', None), ('theta', 0.0), ('axis', 'fixed')):
            if sc[k] != v and not (k in ('n', 'waves') and sc[k] < v):
                yield dict(sc, **{k: v})

    def execute(self, sc, run):
        rng = random.Random(f'site{sc["seed"]}')
        n, R, v, dx = sc['n'], sc['R'], sc['v'], sc['dx']
        pos = np.array([[rng.uniform(0, R), rng.uniform(0, R)] for _ in range(n + 1)])
        if sc['grid']:          # rows of sites: several of them in line with the clouds
            k = max(1, int(np.sqrt(n)))
            pos = np.array([[R * (i % k) / k + 0.3, R * (i // k) / k + 0.3] for i in range(n + 1)])
        free = np.array([rng.uniform(-R, 2 * R), rng.uniform(-R, 2 * R)])
        if sc['snap']:          # sites exactly on and exactly between the places of the axis
            sc = dict(sc, theta=0.0, coords='utm')
            pos = np.round(pos / dx * 2) * dx / 2
            free = np.round(free / dx) * dx
            run.probe('snapped')
        south = sc['coords'] == 'latlon_south'
        E0 = np.array([500000 + rng.uniform(-60000, 60000), rng.uniform(3.5e6, 9e6) if south else rng.uniform(1e6, 6.5e6)])
        E0 = np.round(E0 / dx) * dx if sc['snap'] else E0
        zone = rng.randrange(1, 61)
        edge = sc['coords'] == 'latlon_edge'
        proj = Proj(proj='utm', zone=zone, ellps='WGS84', south=south)
        if edge:                # the border between two zones runs through the plant
            lat = rng.uniform(-60, 60)
            while abs(lat) < 2:
                lat = rng.uniform(-60, 60)
            south = lat < 0
            proj = Proj(proj='utm', zone=zone, ellps='WGS84', south=south)
            E0 = np.array(proj(zone * 6 - 180, lat)) - R / 2
        u = np.array([np.cos(sc['theta']), np.sin(sc['theta'])])
        names = [f'S{i:02d}' if sc['labels'] == 'str' else i + 11 for i in range(n)]
        P = pos[:n] + E0
        refp = {'in': P[rng.randrange(n)], 'out': pos[n] + E0, 'free': free + E0}[sc['ref']]
        if sc['coords'] == 'utm':
            tab = pd.DataFrame(P, index=names, columns=['E', 'N'])
            reftab = pd.Series(refp, index=['E', 'N'])
        else:
            ll = [proj(e, nn, inverse=True)[::-1] for e, nn in P]
            tab = pd.DataFrame(np.array(ll), index=names, columns=['lat', 'lon'])
            reftab = pd.Series(proj(refp[0], refp[1], inverse=True)[::-1], index=['lat', 'lon'])
            if edge:
                # distances in the zone of the first site, as everything else is converted to it
                z = min(60, int((tab['lon'].iloc[0] + 180) // 6) + 1)
                if z != zone:
                    run.probe('other_zone')
                    proj = Proj(proj='utm', zone=z, ellps='WGS84', south=south)
                    P = np.array([proj(lo, la) for la, lo in tab.to_numpy()])
                    refp = np.array(proj(reftab['lon'], reftab['lat']))
                run.fault('zone_border')
        speed = -v if sc['reverse'] else v
        move = -u if sc['reverse'] else u          # what the clouds really do
        if sc['reverse']:
            run.fault('reversed_motion')
        d = (P - refp) @ move
        D = np.abs(d).max() + 5 * sc['w'] * dx
        far = max(150, min(sc['xmax'], int(150000 * dx / D)))       # reach of the axis in units of the plant
        sky = Passage(sc)
        t = np.arange(sc['N']) * sc['dt']
        c, g = sc['offset'], sc['gain']
        rec = g * (sky.base + sky.at(t - c))
        if c:
            run.fault('clock_offset')
        idx = pd.date_range('2013-07-01 10:00', periods=sc['N'], freq=pd.Timedelta(seconds=sc['dt']), tz=sc['tz'])
        rec = pd.Series(rec, index=idx, name='ref')
        keep = (tab.copy(), reftab.copy(), rec.copy())
        xmax = int(far * max(D, 20) / 2) * 2 + sc['xmax'] % 2
        opts = dict(xmax=xmax)
        w = 0.0
        if sc['shape']:
            w = sc['w'] * dx
            opts.update(width=w, shape=sc['shape'] if sc['seed'] % 2 else sc['shape'].upper())
        dirvec = tuple(u * sc['length'])
        if sc['axis'] == 'fixed':
            filt = real(signalproc.get_camfilter, tab, speed, dirvec, reftab, dx=dx, what='get_camfilter', **opts)
            L = xmax
        else:                    # the user's own axis, which need not be symmetrical
            lo, hi = int(1.0 * far * D), int(far * D * rng.choice([0.6, 1.0, 1.3]))
            x = np.arange(-lo, hi, dx, dtype=float)
            plant = np.zeros(len(x))
            for q in (P - refp) @ u:
                plant[int(round((q - x[0]) / dx))] += 3.0
            w = 0.0
            filt = real(signalproc.plant1d_to_camfilter, plant, x, speed, what='plant1d_to_camfilter')
            L = hi + lo
        run.steps += 1
        run.sim += sky.T
        check(np.isfinite(filt.to_numpy()).all() and abs(filt.loc[0] - 1) < 1e-9, 'mean-gain', lambda: f'gain at zero frequency is {filt.loc[0]}')
        cells = np.round(d / dx)
        run.state(sc['shape'], sc['coords'], sc['axis'], sc['reverse'], sc['ref'], bool(c), len(set(cells)) < n)
        if len(set(cells)) < n:
            run.probe('coincident_sites')
        if sc['coarse']:
            if sc['axis'] == 'fixed' and np.max(filt.index) < np.max(np.fft.fftfreq(sc['N'], sc['dt'])) * 0.999:
                run.fault('too_coarse')
                try:
                    signalproc.apply_filter(rec, filt)
                except ValueError:
                    run.probe('refused')
                    return
                raise Violation('coarse-filter-accepted', f'a spatial step of {dx} m cannot represent records every {sc["dt"]} s '
                                f'at {v} m/s, but the filter was applied')
            run.probe('coarse_not_judged')
            return
        out = real(signalproc.apply_filter, rec, filt, what='apply_filter')
        check(isinstance(out, pd.Series) and out.index.equals(rec.index), 'output-index', 'the filtered series has another index')
        H = np.exp(-2j * np.pi * sky.f[:, None] * d[None, :] / v).mean(1)
        if sc['axis'] == 'fixed' and sc['shape'] == 'square':
            H = H * np.sinc(sky.f * w / v)
        elif sc['axis'] == 'fixed' and sc['shape'] == 'gaussian':
            H = H * np.exp(-2 * (np.pi * sky.f * w / 2.355 / v) ** 2)
        # spatial step, and linear interpolation between the frequencies of the filter
        tol = 2 * np.pi * sky.f * dx * (1.5 if L % 2 or (L / dx) % 1 or sc['axis'] == 'own' else 0.75) / v + 3 * np.pi * D / L + 1e-9
        bound = g * np.sqrt((sky.a ** 2 / 2 * tol ** 2).sum()) + 1e-7
        want = g * (sky.base + sky.at(t - c, H))
        err = np.sqrt(np.mean((out.to_numpy() - want) ** 2))
        rms = g * np.sqrt((sky.a ** 2).sum() / 2)
        run.log('out', f'{err / rms:.6f}', f'{bound / rms:.6f}')
        run.probe('judged')
        if bound < 0.1 * rms:
            run.probe('bound_under_10_percent')
        check(err <= bound, 'not-the-plants-output', lambda: f'filtered reference differs from the plant by {err / rms * 100:.2f} % of the '
              f'variation, {bound / rms * 100:.2f} % allowed ({n} sites, speed {speed}, {sc["coords"]}, {sc["shape"]})')
        check(abs(out.mean() - rec.mean()) < 1e-9 * abs(rec.mean()), 'mean-changed', lambda: f'mean {rec.mean()} became {out.mean()}')
        # an offset clock can be corrected in the filter
        if c:
            fixed = pd.Series(np.asarray(real(signalproc.apply_delay, filt, -c, what='apply_delay')), index=filt.index)
            out2 = real(signalproc.apply_filter, rec, fixed, what='apply_filter')
            want2 = g * (sky.base + sky.at(t, H))
            err2 = np.sqrt(np.mean((out2.to_numpy() - want2) ** 2))
            more = bound + g * np.sqrt((sky.a ** 2).sum() / 2) * 3 * np.pi * abs(c) * v / L
            check(err2 <= more, 'clock-correction', lambda: f'after correcting {c} s the output is {err2 / rms * 100:.2f} % off, {more / rms * 100:.2f} % allowed')
            run.probe('clock_corrected')
        # superposition
        other = pd.Series(np.roll(rec.to_numpy(), 7) * 0.5 + np.linspace(0, 1, len(rec)), index=idx)
        lin = real(signalproc.apply_filter, 2.0 * rec - 3.0 * other, filt, what='apply_filter')
        sep = 2.0 * out - 3.0 * real(signalproc.apply_filter, other, filt, what='apply_filter')
        check(np.abs(lin - sep).max() < 1e-8 * g, 'not-linear', lambda: f'filter of a sum differs from the sum of the filters by {np.abs(lin - sep).max()}')
        # several filters on one axis, interpolated together and alone
        f2 = real(signalproc.apply_delay, filt, 1.7, what='apply_delay')
        both = pd.DataFrame({'a': filt.to_numpy(), 'b': np.asarray(f2)}, index=filt.index)
        # (stay inside the band: the most negative frequency of an odd axis can lie just outside)
        fq = np.sort(np.concatenate([[0.0], rng.choice([1, -1]) * sky.f]))[::-1]
        fq = fq[np.abs(fq) <= filt.index.max()]
        tg = real(signalproc.interp_tf, fq, both, what='interp_tf')
        al = real(signalproc.interp_tf, fq, both['b'], what='interp_tf')
        check(np.abs(tg['b'].to_numpy() - al.to_numpy()).max() < 1e-6 and list(tg.columns) == ['a', 'b'], 'columns-interact',
              'a column interpolated together with another differs from the column alone')
        own = filt.index.to_numpy()[::max(1, len(filt) // 50)]
        at = real(signalproc.interp_tf, own, filt, what='interp_tf')
        check(np.abs(at.to_numpy() - filt.loc[own].to_numpy()).max() < 1e-6, 'own-frequencies', 'interpolation changes the filter at its own frequencies')
        if sc['seed'] % 3 == 0:
            s = 1 + sc['seed'] % 50
            fm = np.sort(np.fft.fftfreq(sc['N'], sc['dt']))
            mf = real(signalproc.get_marcosfilter, s, fm, what='get_marcosfilter')
            if np.max(np.fft.fftfreq(sc['N'], sc['dt'])) <= np.max(fm):
                low = real(signalproc.apply_filter, rec, mf, what='apply_filter')
                Hm = 1 / (1 + 1j * sky.f / (0.02 / np.sqrt(s)))
                wm = g * (sky.base + sky.at(t - c, Hm))
                check(np.abs(low.to_numpy() - wm).max() < 1e-4 * g, 'marcos', lambda: f'plant-size filter off by {np.abs(low.to_numpy() - wm).max() / g}')
                run.probe('marcos')
        for a, b, what in zip((tab, reftab, rec), keep, ('positions', 'reference', 'record')):
            check(a.equals(b), 'argument-changed', f'{what} changed')
