"""C06, C07: a sensor array under moving clouds; the collector receives the
sensors in any order, under any names, and some sensors fail."""
import random
import warnings

import numpy as np
import pandas as pd

from dst.core import Violation, World, check, real
from dst.worlds.sky import Sky, record, table
from solarspatialtools import cmv

warnings.simplefilter('ignore')
GOOD = cmv.Flag.GOOD
TWO_PI = 2 * np.pi
JAM = {'minvelocity': 0, 'maxvelocity': 70, 'var_s_lim': 0.05, 'ktlim': 0.4, 'mincorr': 0.8}


def angdiff(a, b):
    return (a - b + np.pi) % TWO_PI - np.pi


def labels_for(kind, n, rng):
    if kind == 'str':
        out = [f'CMB-{i + 1:03d}-{i % 8}' for i in range(n)]
    elif kind == 'short':
        out = [chr(65 + i) for i in range(n)]
    elif kind == 'nested':          # names that are parts of other names
        out = ['1', '11', '111', 'S1', 'S11', 'S', '1S', 'S1S', '1S1', 'S111', '11S', 'SS'][:n]
    elif kind == 'int0':
        out = list(range(n))
    else:
        out = rng.sample(range(1, 400), n)
    rng.shuffle(out)
    return out


def xcorr(a, b):
    """Own correlation coefficient of a against b delayed: index k is lag k of b."""
    n = len(a)
    a = a - a.mean()
    b = b - b.mean()
    m = 1 << (2 * n).bit_length()
    c = np.fft.irfft(np.conj(np.fft.rfft(a, m)) * np.fft.rfft(b, m), m)
    c = np.r_[c[-(n - 1):], c[:n]] / (n * a.std() * b.std())
    return np.arange(-(n - 1), n), c


class Scene:
    """Array, clouds and records of one scenario."""

    def __init__(self, sc):
        rng = random.Random(f'scene{sc["seed"]}')
        n, dt, v, th = sc['n'], sc['dt'], sc['speed'], sc['theta']
        self.u = np.array([np.cos(th), np.sin(th)])
        self.w = np.array([-np.sin(th), np.cos(th)])
        step = v * dt
        along, across = [], []
        for _ in range(n):
            a = rng.uniform(-sc['reach'], sc['reach']) / 2
            along.append(round(a) * step if sc['lattice'] else a * step)
            b = rng.uniform(-sc['reach'], sc['reach']) / 2 * sc['aspect']
            across.append(round(b) * step if sc['lattice'] == 'grid' else b * step)
        if sc['lattice'] == 'grid':          # round numbers in the site plan
            self.u, self.w = np.round(self.u), np.round(self.w)
        self.pos = np.outer(along, self.u) + np.outer(across, self.w) + np.array(sc['origin'])
        self.t = np.arange(sc['N']) * dt
        size = step * sc['size']
        octaves = sc['octaves']
        if sc['backend'] == 'tf':        # nothing in the pattern is too fast for the sampling
            octaves = max(1, min(octaves, int(np.log2(sc['size'] / 1.5)) + 1))
        sky = Sky(sc['seed'], size=size, octaves=octaves, depth=sc['depth'],
                  fronts=th if sc['pattern'] == 'fronts' else None)
        self.kt = record(sky, self.pos - np.array(sc['origin']), v * self.u, self.t)
        if sc['gains']:
            self.kt = self.kt * np.array([rng.uniform(0.85, 1.1) for _ in range(n)])
        self.labels = labels_for(sc['labels'], n, rng)
        self.arrival = list(range(n))
        rng.shuffle(self.arrival)           # the collector adds columns as they arrive
        self.refs = sc['refs']

    def frames(self, sc, pos=None, names=None, order=None, kt=None, arrival=None):
        names = names or self.labels
        order = order if order is not None else range(len(names))
        pos = self.pos if pos is None else pos
        P = pd.DataFrame(pos[list(order)], index=[names[i] for i in order], columns=sc['xy'])
        arrival = self.arrival if arrival is None else arrival
        df = table((self.kt if kt is None else kt)[:, arrival], [names[i] for i in arrival], sc['dt'], sc['start'], sc['tz'],
                   sc['clock'])
        return df, P

    def reference(self, names=None):
        names = names or self.labels
        if self.refs is None:
            return None
        ids = [names[i % len(names)] for i in self.refs['ids']]
        uniq = list(dict.fromkeys(ids))
        return {'one': lambda x: x[0], 'list': list, 'tuple': tuple, 'array': np.array, 'index': pd.Index, 'set': set}[self.refs['how']](uniq)


def gen_scene(rng, faulty=False):
    backend = rng.choice(['xcorr', 'xcorr', 'tf'])
    dt = rng.choice([1.0, 2.0, 5.0]) if backend == 'tf' else rng.choice([0.1, 0.5, 1.0, 1.0, 2.0, 5.0, 10.0])
    speed = rng.choice([rng.uniform(2, 6), rng.uniform(5, 15), rng.uniform(12, 25)])
    theta = rng.choice([rng.uniform(0, TWO_PI), rng.uniform(0, TWO_PI), rng.randrange(8) * np.pi / 4])
    n = rng.choice([3, 4, 5, 6, 8, 10])
    if backend == 'tf':
        N = int(rng.choice([1800, 3600]) / dt)
        reach = rng.uniform(3, max(4, 24 / dt))
    else:
        N = rng.choice([300, 500, 900])
        reach = rng.uniform(4, N / 12)
    grid = rng.random() < 0.15
    if grid:
        theta, speed = rng.choice([0.0, 0.0, 0.5, 1.0, 1.5]) * np.pi, float(rng.choice([5, 8, 10, 12]))
    refs = None
    if rng.random() < 0.3:
        refs = {'how': rng.choice(['one', 'list', 'tuple', 'array', 'index', 'set']), 'ids': [rng.randrange(n) for _ in range(rng.choice([1, 2, 3]))]}
    return {'seed': rng.randrange(1 << 30), 'n': n, 'dt': dt, 'N': N, 'reach': round(reach, 2), 'speed': round(speed, 3),
            'theta': theta if grid else round(theta, 9) % TWO_PI, 'lattice': 'grid' if grid else rng.random() < 0.5, 'aspect': rng.choice([0.5, 1.0, 2.0]),
            'size': rng.choice([10, 20, 40]) if backend == 'xcorr' else round(rng.uniform(8, 20) / dt, 3), 'octaves': rng.choice([3, 4, 5]), 'depth': rng.choice([0.3, 0.35, 0.2]),
            'pattern': rng.choice(['fronts', 'fronts', 'fronts', 'field']) if not faulty else rng.choice(['fronts', 'field']),
            'gains': rng.random() < 0.3, 'labels': rng.choice(['str', 'short', 'int0', 'ints', 'nested']), 'refs': refs,
            'origin': rng.choice([[0, 0], [round(rng.uniform(-5e3, 5e3), 1), 40.0], [431250.0, 5012345.0]]),
            'method': rng.choice(['jamaly', 'jamaly', 'gagne', 'Jamaly', 'GAGNE'] if not faulty else ['jamaly', 'jamaly', 'gagne']),
            'backend': backend, 'xy': rng.choice([['E', 'N'], ['x', 'y']]), 'start': rng.choice(['2013-09-08 09:15:00', '2015-03-29 00:40:00']),
            'tz': rng.choice([None, 'UTC', 'Europe/Berlin']), 'clock': rng.choice(['datetime', 'datetime', 'timedelta']),
            'alpha': round(rng.uniform(0, TWO_PI), 6), 'opts': rng.choice([None, None, {}, {'ktlim': 0.3}])}


def shrink_scene(sc):
    for k, vals in (('n', (3, 4, 5, 6)), ('refs', (None,)), ('gains', (False,)), ('labels', ('short',)), ('origin', ([0, 0],)),
                    ('clock', ('datetime',)), ('tz', ('UTC',)), ('opts', (None,)), ('octaves', (3,)), ('lattice', (True,)),
                    ('xy', (['E', 'N'],)), ('aspect', (1.0,)), ('start', ('2013-09-08 09:15:00',)), ('alpha', (1.0,))):
        for v in vals:
            if sc[k] != v and not (k == 'lattice' and sc[k] == 'grid') and not (k == 'n' and sc['n'] <= v):
                yield dict(sc, **{k: v})


def true_lags(scene, sc, pairs):
    a = scene.pos @ scene.u / sc['speed']
    return np.array([a[j] - a[i] for i, j in pairs])


def tf_tol(tau, sc, fl=0.02, navgs=5):
    seg = sc['N'] // navgs * sc['dt']
    return np.abs(tau) * 1.3 / (fl * seg) + 0.05 * sc['dt'] + 0.02


class TrueMotion(World):
    prop = 'C06'
    batch = 12
    runs = {'quick': 2600, 'thorough': 120000}
    wall = {'quick': 75, 'thorough': 3000}
    timeout = 120
    rule = ('one run = one cloud pattern, motion and array; the collector assembles the table in arrival order under arbitrary '
            'names; estimated once as recorded, once with the array listed in another order under other names, once with the '
            'array turned; non-trivial when the motion is judged against the truth or an estimate is compared')
    measure = 'distinct (pattern, method, delay estimator, reference choice, number of sensors, ending)'
    real_parts = ['cmv.compute_cmv', 'signalproc.compute_delays', 'signalproc.compute_delays_tf', 'spatial', 'numpy/scipy/pandas']
    stub_parts = ['clouds', 'sensors', 'collector']
    assumptions = ['exact truth is judged on patterns whose passage every sensor sees alike (fronts); on general patterns only '
                   'the invariances are judged, because there the estimators are statistical',
                   'transfer-function delays carry the bias of spectral averaging, bounded by 1.3/(frequency limit * segment length) '
                   'of the delay']

    def generate(self, rng, tier):
        sc = gen_scene(rng)
        sc['perm'] = rng.randrange(1 << 30)
        return sc

    def directed(self, tier):
        rng = random.Random(6)
        out = []
        for theta in (0.0, np.pi / 2, np.pi, 3 * np.pi / 2, 0.3, 2.5, 4.0, 6.1):
            for method in ('jamaly', 'gagne'):
                for backend in ('xcorr', 'tf'):
                    sc = gen_scene(rng)
                    sc.update(size=15 if backend == 'tf' else 20, theta=theta, method=method, backend=backend, dt=1.0, N=1800 if backend == 'tf' else 500, reach=24,
                              lattice=True, pattern='fronts', refs=None, n=8, perm=3, aspect=1.0)
                    out.append(sc)
        return out

    def shrink(self, sc):
        return shrink_scene(sc)

    def execute(self, sc, run):
        scene = Scene(sc)
        n = sc['n']
        if sc['gains']:
            run.fault('soiled_sensors')
        if scene.arrival != sorted(scene.arrival):
            run.fault('arrival_reordered')
        df, P = scene.frames(sc)
        opts = None if sc['opts'] is None else dict(sc['opts'])
        got = real(cmv.compute_cmv, df, P, scene.reference(), sc['method'], opts, sc['backend'], what='compute_cmv')
        run.steps += 1
        run.sim += sc['N'] * sc['dt']
        spd, ang, out = got
        run.log('cmv', f'{spd:.9g} {ang:.9g}', out.flag.name, int(np.sum(out.pair_flag == GOOD)))
        check(np.isfinite(spd) and spd >= 0, 'speed-negative', f'speed {spd}')
        check(0 <= ang < TWO_PI, 'direction-range', f'direction {ang!r} is not in [0, 2*pi)')
        moved = out.wind_speed is not None
        if moved:
            check(out.wind_speed == spd and out.wind_angle == ang, 'detail-differs',
                  f'returned {spd, ang}, detailed output {out.wind_speed, out.wind_angle}')
        else:
            check(spd == 0 and ang == 0 and out.flag == cmv.Flag.ALLBAD, 'detail-differs',
                  f'no motion in the detailed output but {spd, ang} {out.flag} returned')
        where = {lab: i for i, lab in enumerate(scene.labels)}
        pairs = [(where[a.item() if hasattr(a, 'item') else a], where[b.item() if hasattr(b, 'item') else b]) for a, b in out.allpairs]
        if sc['refs']:
            chosen = {i % n for i in sc['refs']['ids'][:1 if sc['refs']['how'] == 'one' else None]}
        else:
            chosen = set(range(n))
        seen = {frozenset(p) for p in pairs if p[0] != p[1]}
        due = {frozenset((i, j)) for i in chosen for j in range(n) if i != j}
        check(seen == due, 'pairs-of-reference', lambda: f'pairs {sorted(map(sorted, seen ^ due))[:4]} (by place) are used without '
              f'a chosen reference or left out; references {sorted(chosen)}')
        ending = 'no-motion'
        if sc['pattern'] == 'fronts':
            ending = self._truth(sc, scene, pairs, got, run)
            run.probe('truth_' + ending)
        run.state(sc['pattern'], sc['method'].lower(), sc['backend'], sc['refs'] and sc['refs']['how'], n, ending)
        run.nontrivial = True
        self._variants(sc, scene, pairs, got, run)

    def _truth(self, sc, scene, pairs, got, run):
        spd, ang, out = got
        v, method = sc['speed'], sc['method'].lower()
        tau = true_lags(scene, sc, pairs)
        d = scene.pos[[j for _, j in pairs]] - scene.pos[[i for i, _ in pairs]]
        dist = np.hypot(*d.T)
        peak, mean, ownlag = np.zeros(len(pairs)), np.zeros(len(pairs)), np.zeros(len(pairs))
        for p, (i, j) in enumerate(pairs):
            lags, c = xcorr(scene.kt[:, i], scene.kt[:, j])
            k = int(np.argmax(c))
            ownlag[p], peak[p], mean[p] = lags[k] * sc['dt'], c[k], c.mean()
        # is the record long and lively enough that its correlation peaks at the travel time?
        slack = 1e-6 if sc['lattice'] else 1.0 * sc['dt']
        if sc['backend'] == 'xcorr':
            if (np.abs(ownlag - tau) > slack).any():
                return 'record-unsuited'
            tol = np.full(len(pairs), slack)
        else:
            tol = tf_tol(tau, sc)
        # pairs that clearly meet the limits of the method
        same = np.array([i == j for i, j in pairs])
        with np.errstate(all='ignore'):
            lagmin, lagmax = np.abs(tau) - tol, np.abs(tau) + tol
            sure = ~same & (lagmin > 1e-9) & (peak > 0.01)
            if sc['backend'] == 'xcorr':
                sure &= np.abs(ownlag) > 0
            ktmax, ktmean = scene.kt.max(0), scene.kt.mean(0)
            if method == 'jamaly':
                sure &= (dist / lagmin < 69) & (1 - mean / peak > 0.81)
                sure &= np.array([min(1 - ktmean[i] / ktmax[i], 1 - ktmean[j] / ktmax[j]) > 0.051 for i, j in pairs])
            need = 0.83 if method == 'jamaly' else 0.905
            sure &= peak > need + (0.08 if sc['backend'] == 'tf' else 0)
            sure &= np.array([min(ktmax[i], ktmax[j]) > 0.41 for i, j in pairs])
        if method == 'gagne':
            # only the most alike pairs count; which ones depends on how many there are
            for lim in (0.99, 0.95):
                if np.sum(sure & (peak >= lim)) >= 12:
                    break
            else:
                lim = 0.9
            sure &= peak > lim + 0.004
        if out.wind_speed is None:
            check(sure.sum() < 2, 'motion-not-reported',
                  f'{int(sure.sum())} pairs of sensors clearly meet all limits but no motion is reported')
            return 'no-motion'
        good = out.pair_flag == GOOD
        lag = np.asarray(out.pair_lag, float)
        off = np.abs(lag - tau)
        if (off[good] > tol[good]).any():
            k = int(np.argmax(np.where(good, off - tol, -np.inf)))
            raise Violation('pair-delay', f'good pair {out.allpairs[k]} has delay {lag[k]:.4f} s, travel time {tau[k]:.4f} s, '
                            f'resolution {tol[k]:.4f} s')
        D, L = d[good], lag[good]
        sv = np.linalg.svd(D, compute_uv=False)
        if len(sv) < 2 or sv[1] < 0.05 * sv[0]:
            return 'array-in-line'
        if method == 'gagne':
            err = np.abs(np.linalg.pinv(D)) @ np.abs(L - tau[good])
            rho = float(np.hypot(*err)) * v + 1e-6
            if rho > 0.35:
                return 'too-coarse'
            dang, dspd = np.arcsin(rho), rho / (1 - rho)
        else:
            r = tau[good] / L
            q = (D @ scene.w) / v / L
            if q.std() < 1e-9:
                return 'array-in-line'
            s = 2 * r.std() / q.std() + 1e-4
            if s > 0.35:
                return 'too-coarse'
            dang = np.arcsin(s)
            dl = np.linspace(-dang, dang, 2001)
            med = np.median(np.cos(dl)[:, None] * r + np.sin(dl)[:, None] * q, axis=1)
            dspd = float(np.max(np.abs(med - 1))) + 0.02 * s + np.abs(q).max() * 2 * dang / 2000 + 1e-4
            if dspd > 0.5:
                return 'too-coarse'
        check(abs(angdiff(ang, sc['theta'])) <= dang, 'wrong-direction',
              lambda: f'direction {ang:.5f}, clouds move towards {sc["theta"]:.5f}, resolution {dang:.5f}')
        check(abs(spd / v - 1) <= dspd, 'wrong-speed', lambda: f'speed {spd:.5f}, clouds move at {v:.5f}, resolution {dspd * 100:.2f} %')
        return 'exact' if dang < 0.01 else 'fine' if dang < 0.1 else 'coarse'

    def _variants(self, sc, scene, pairs, got, run):
        spd, ang, out = got
        rng = random.Random(f'var{sc["perm"]}')
        n = sc['n']
        order = list(range(n))
        rng.shuffle(order)
        arrival = list(range(n))
        rng.shuffle(arrival)
        names = labels_for(rng.choice(['str', 'short', 'int0', 'ints', 'nested']), n, rng)
        if self._near_limit(sc, scene, pairs, out):
            run.probe('near_limit_skipped')
            return
        c, s = np.cos(sc['alpha']), np.sin(sc['alpha'])
        mid = scene.pos.mean(0)
        turned = (scene.pos - mid) @ np.array([[c, s], [-s, c]]) + mid
        for what, frames, ref, turn in (
                ('listed in another order under other names', scene.frames(sc, names=names, order=order, arrival=arrival),
                 scene.reference(names), 0.0),
                ('turned', scene.frames(sc, pos=turned), scene.reference(), sc['alpha'])):
            opts = None if sc['opts'] is None else dict(sc['opts'])
            s2, a2, o2 = real(cmv.compute_cmv, *frames, ref, sc['method'], opts, sc['backend'], what='compute_cmv')
            run.steps += 1
            run.log('variant', f'{s2:.6g} {a2:.6g}')
            check(o2.flag == out.flag or abs(self._err(out)) > 0.399, 'depends-on-listing',
                  f'array {what}: flag {o2.flag}, before {out.flag}')
            if out.wind_speed is None or o2.wind_speed is None:
                check((out.wind_speed is None) == (o2.wind_speed is None), 'depends-on-listing', f'array {what}: motion {s2, a2}, before {spd, ang}')
                continue
            if not self._well_posed(scene, pairs, out, sc):
                run.probe('ill_posed_skipped')
                continue
            tol = 2e-3 if sc['backend'] == 'tf' else 1e-3
            check(abs(angdiff(a2, ang + turn)) < tol and abs(s2 - spd) <= tol * max(spd, 1e-9), 'depends-on-listing',
                  lambda: f'array {what}: speed {s2:.7f} direction {a2:.7f}, before {spd:.7f} and {(ang + turn) % TWO_PI:.7f}')
            run.probe('variant_compared')

    @staticmethod
    def _err(out):
        e = (out.method_data or {}).get('error_index')
        return 0.0 if e is None or not np.isfinite(e) else e

    @staticmethod
    def _near_limit(sc, scene, pairs, out):
        """Is a decision so close that rounding may take it either way?"""
        if out.corr_lag is None:
            return True
        eps = 1e-5
        cl, lag = np.asarray(out.corr_lag, float), np.asarray(out.pair_lag, float)
        d = scene.pos[[j for _, j in pairs]] - scene.pos[[i for i, _ in pairs]]
        off = np.array([i != j for i, j in pairs])
        with np.errstate(all='ignore'):
            vel = np.hypot(*d.T) / np.abs(lag)
        lims = (0.8,) if sc['method'].lower() == 'jamaly' else (0.99, 0.95, 0.9)
        if any((np.abs(cl[off] - m) < eps).any() for m in lims) or (np.abs(vel[off] - 70) < 1e-3).any():
            return True
        if abs(abs(TrueMotion._err(out)) - 0.4) < 1e-3:
            return True
        if sc['backend'] == 'xcorr':
            for i, j in pairs:
                if i != j:
                    _, c = xcorr(scene.kt[:, i], scene.kt[:, j])
                    a = np.sort(c)
                    if a[-1] - a[-2] < 1e-9:
                        return True
        rq = (out.method_data or {}).get('r_qc')
        if rq is not None and len(rq) and (np.abs(np.asarray(rq)[off] - 0.8) < eps).any():
            return True
        vs = (out.method_data or {}).get('var_s')
        if vs is not None and len(vs) and min(np.abs(np.asarray(v) - 0.05).min() for v in vs) < eps:
            return True
        return False

    @staticmethod
    def _well_posed(scene, pairs, out, sc):
        good = out.pair_flag == GOOD
        d = (scene.pos[[j for _, j in pairs]] - scene.pos[[i for i, _ in pairs]])[good]
        L = np.asarray(out.pair_lag, float)[good]
        if sc['method'].lower() == 'gagne':
            sv = np.linalg.svd(d, compute_uv=False)
            g = np.linalg.lstsq(d, L, rcond=None)[0]
            fit = np.hypot(*g) * np.hypot(*d.T).max()
            return len(sv) > 1 and sv[1] > 0.05 * sv[0] and fit > 0.1 * np.abs(L).max()
        q = d / L[:, None]
        ev = np.linalg.eigvalsh(np.cov(q.T, bias=True)) if len(q) > 1 else np.zeros(2)
        if not ev[0] < 0.8 * ev[1]:
            return False
        med = np.median(q @ np.array([np.cos(out.wind_angle), np.sin(out.wind_angle)]))
        return med > 0.05 * np.abs(q).max()


class FaultySensors(World):
    prop = 'C07'
    batch = 12
    runs = {'quick': 2600, 'thorough': 120000}
    wall = {'quick': 75, 'thorough': 3000}
    timeout = 120
    rule = ('one run = one array under moving clouds in which some sensors fail, estimated with the failed sensors in the data and '
            'once more without them; non-trivial when a sensor failed')
    measure = 'distinct (kinds of failure, method, delay estimator, reference choice, healthy sensors, flag)'
    real_parts = TrueMotion.real_parts
    stub_parts = TrueMotion.stub_parts
    assumptions = ['decisions within rounding of a limit are not compared']
    KINDS = ['nan_all', 'nan_burst', 'nan_one', 'nan_late', 'nan_dead', 'stuck', 'stuck0', 'dither', 'shade', 'shade_noise']

    def generate(self, rng, tier):
        sc = gen_scene(rng, faulty=True)
        n = sc['n']
        k = rng.choice([1, 1, 1, 2, 2, 3, n - 1, n])
        sc['faults'] = [{'i': i, 'kind': rng.choice(self.KINDS), 'a': round(rng.random(), 4), 'b': round(rng.random(), 4)}
                        for i in sorted(rng.sample(range(n), min(k, n)))]
        opts = {}
        if rng.random() < 0.5:
            opts['ktlim'] = rng.choice([0.3, 0.4, 0.55, 0.9])
            if sc['method'] == 'jamaly':
                if rng.random() < 0.5:
                    opts['minvelocity'] = rng.choice([0, 1, 5, 12])
                if rng.random() < 0.5:
                    opts['maxvelocity'] = rng.choice([70, 30, 12])
                if rng.random() < 0.5:
                    opts['var_s_lim'] = rng.choice([0.01, 0.1, 0.25, 0.4])
                if rng.random() < 0.5:
                    opts['mincorr'] = rng.choice([0.5, 0.9, 0.97])
        sc['opts'] = opts or None
        # sensors in haze: they see everything, only too weakly for the limit
        sc['hazy'] = [[i, round(rng.random(), 4)] for i in range(n) if rng.random() < 0.3] if rng.random() < 0.35 else []
        return sc

    def directed(self, tier):
        rng = random.Random(7)
        out = []
        for kind in self.KINDS:
            for method in ('jamaly', 'gagne'):
                for backend in ('xcorr', 'tf'):
                    sc = gen_scene(rng, True)
                    n = 6
                    sc.update(size=15, method=method, backend=backend, dt=1.0, N=1800 if backend == 'tf' else 400, reach=24, n=n,
                              pattern='fronts', opts=None, refs=None, hazy=[])
                    for who in ([0], [n - 1], list(range(n - 1)), list(range(n))):
                        out.append(dict(sc, faults=[{'i': i, 'kind': kind, 'a': 0.3, 'b': 0.2} for i in who]))
        return out

    def shrink(self, sc):
        F = sc['faults']
        for k in range(len(F)):
            if len(F) > 1:
                yield dict(sc, faults=F[:k] + F[k + 1:])
        for z in shrink_scene(sc):
            if z['n'] == sc['n'] or all(f['i'] < z['n'] for f in F):
                yield z
        for k in range(len(sc['hazy'])):
            yield dict(sc, hazy=sc['hazy'][:k] + sc['hazy'][k + 1:])
        if sc['opts']:
            for k in sc['opts']:
                yield dict(sc, opts={a: b for a, b in sc['opts'].items() if a != k})

    @staticmethod
    def hurt(x, f, ktlim, rng):
        n = len(x)
        x = x.copy()
        k = f['kind']
        if k == 'nan_all':
            x[:] = np.nan
        elif k == 'nan_one':
            x[int(f['a'] * (n - 1))] = np.nan
        elif k == 'nan_burst':
            s = int(f['a'] * (n - 2))
            x[s:s + 1 + int(f['b'] * n / 2)] = np.nan
        elif k == 'nan_late':
            x[:1 + int(f['a'] * (n - 2))] = np.nan
        elif k == 'nan_dead':
            x[1 + int(f['a'] * (n - 2)):] = np.nan
        elif k == 'stuck':
            x[:] = f['a'] * 1.2
        elif k == 'stuck0':
            x[:] = 0.0
        elif k == 'dither':
            x = f['a'] * 1.1 + 2e-4 * (x - x.mean())
        elif k == 'shade':
            x = x / x.max() * ktlim * (0.2 + 0.75 * f['a'])
        else:
            x = np.array([rng.uniform(0.0, ktlim * 0.98) for _ in range(n)])
        return x

    def execute(self, sc, run):
        scene = Scene(sc)
        n = sc['n']
        method = sc['method']
        rng = random.Random(f'hurt{sc["seed"]}')
        lim = dict(JAM if method == 'jamaly' else {'ktlim': 0.4}, **(sc['opts'] or {}))
        kt = scene.kt.copy()
        sick = {}
        for i, a in sc['hazy']:
            if i < n and method == 'jamaly':
                top = kt[:, i].max()
                have = 1 - kt[:, i].mean() / top
                kt[:, i] = top - (top - kt[:, i]) * min(1.0, lim['var_s_lim'] * (0.2 + a) / have)
                run.fault('sensor_hazy')
        for f in sc['faults']:
            if f['i'] < n:
                kt[:, f['i']] = self.hurt(scene.kt[:, f['i']], f, lim['ktlim'], rng)
                sick[f['i']] = f['kind']
                run.fault('sensor_' + f['kind'])
        run.log(sc['method'], sc['backend'], n, sorted(sick.items()), sc['hazy'])
        df, P = scene.frames(sc, kt=kt)

        def opts():
            return None if sc['opts'] is None else dict(sc['opts'])
        got = real(cmv.compute_cmv, df, P, scene.reference(), method, opts(), sc['backend'], what='compute_cmv')
        run.steps += 1
        run.sim += sc['N'] * sc['dt']
        spd, ang, out = got
        run.log('cmv', f'{spd:.6g} {ang:.6g}', out.flag.name)
        where = {lab: i for i, lab in enumerate(scene.labels)}
        pairs = [(where[a.item() if hasattr(a, 'item') else a], where[b.item() if hasattr(b, 'item') else b]) for a, b in out.allpairs]
        good = np.asarray(out.pair_flag == GOOD)
        run.state(tuple(sorted(set(sick.values()))), method, sc['backend'], sc['refs'] and sc['refs']['how'], n - len(sick), out.flag.name)
        for k, (i, j) in enumerate(pairs):
            check(not (good[k] and (i in sick or j in sick)), 'faulty-pair-good',
                  lambda: f'pair {scene.labels[i], scene.labels[j]} is good, but a sensor of it is {sick.get(i) or sick.get(j)}')
        if good.sum() <= 1:
            check(spd == 0 and ang == 0 and out.flag == cmv.Flag.ALLBAD, 'allbad-result',
                  f'{int(good.sum())} good pairs, result {spd, ang}, flag {out.flag}')
            run.probe('all_bad')
        self._limits(sc, scene, kt, pairs, got, lim)
        ok = [i for i in range(n) if i not in sick]
        ref = scene.reference()
        if ref is not None:
            one = sc['refs']['how'] == 'one'
            ids = [ref] if one else [x for x in scene.labels if x in ref]
            ids = [x for x in ids if where[x] not in sick]
            ref2 = ids if not one else (ids[0] if ids else None)
            if not ids:
                ref2 = 'none-left'
        else:
            ref2 = None
        if not ok or isinstance(ref2, str) and ref2 == 'none-left':
            check(good.sum() == 0 and spd == 0, 'allbad-result', f'no healthy pair, result {spd, ang}')
            run.probe('nothing_healthy')
            return
        P2 = P.loc[[scene.labels[i] for i in ok]]
        df2 = df[[c for c in df.columns if where[c] not in sick]]
        spd2, ang2, out2 = real(cmv.compute_cmv, df2, P2, ref2, method, opts(), sc['backend'], what='compute_cmv')
        run.steps += 1
        flags = {(a, b): f for (a, b), f in zip([tuple(p) for p in out.allpairs], out.pair_flag)}
        tight = sc['backend'] == 'xcorr'
        if self._close_call(sc, scene, kt, pairs, out, lim, sick):
            run.probe('near_limit_skipped')
            return
        for p, f2 in zip(out2.allpairs, out2.pair_flag):
            f1 = flags.get(tuple(p), flags.get(tuple(p)[::-1]))
            check((f1 == GOOD) == (f2 == GOOD), 'faulty-changes-flag', f'pair {tuple(p)} is {f1}, without the faulty sensors {f2}')
        tol = 1e-7 if tight else 1e-4
        check(out.flag == out2.flag or not tight and abs(abs(TrueMotion._err(out)) - 0.4) < 1e-2, 'faulty-changes-flag',
              f'flag {out.flag}, without the faulty sensors {out2.flag}')
        check(abs(spd - spd2) <= tol * max(abs(spd2), 1e-9) and abs(angdiff(ang, ang2)) <= tol, 'faulty-changes-motion',
              lambda: f'motion {spd:.9f}, {ang:.9f}; without the faulty sensors {spd2:.9f}, {ang2:.9f} ({sorted(sick.values())})')
        run.probe('compared')
        if spd2 > 0:
            run.probe('compared_with_motion')

    @staticmethod
    def _limits(sc, scene, kt, pairs, got, lim):
        """No good pair violates a configured limit (small slack for rounding)."""
        out = got[2]
        e = 1e-6
        lag = None if out.pair_lag is None else np.asarray(out.pair_lag, float)
        for k, (i, j) in enumerate(pairs):
            if out.pair_flag[k] != GOOD:
                continue
            name = (scene.labels[i], scene.labels[j])
            check(i != j, 'limit-ignored', f'pair {name} joins a sensor with itself and is good')
            a, b = kt[:, i], kt[:, j]
            check(min(a.max(), b.max()) >= lim['ktlim'] - e, 'limit-ignored', f'pair {name} stays below ktlim and is good')
            if lag is None:
                continue
            check(lag[k] != 0, 'limit-ignored', f'pair {name} has no delay and is good')
            if sc['method'] != 'jamaly':
                continue
            lags, c = xcorr(a, b)
            pk = c.max() if sc['backend'] == 'xcorr' else np.interp(lag[k] / sc['dt'], lags, c)
            check(pk >= lim['mincorr'] - e, 'limit-ignored', f'pair {name} has correlation {pk:.6f} < {lim["mincorr"]} and is good')
            var = min(1 - a.mean() / a.max(), 1 - b.mean() / b.max())
            check(var >= lim['var_s_lim'] - e, 'limit-ignored', f'pair {name} has variation {var:.6f} < {lim["var_s_lim"]} and is good')
            vel = np.hypot(*(scene.pos[j] - scene.pos[i])) / abs(lag[k])
            check(lim['minvelocity'] - e < vel < lim['maxvelocity'] + e, 'limit-ignored',
                  f'pair {name} has velocity {vel:.6f} outside {lim["minvelocity"]}..{lim["maxvelocity"]} and is good')

    @staticmethod
    def _close_call(sc, scene, kt, pairs, out, lim, sick):
        if out.pair_lag is None:
            return sc['backend'] == 'tf' and False
        e = 1e-9 if sc['backend'] == 'xcorr' else 1e-4
        lag, cl = np.asarray(out.pair_lag, float), np.asarray(out.corr_lag, float)
        for k, (i, j) in enumerate(pairs):
            if i == j or i in sick or j in sick:
                continue
            vel = np.hypot(*(scene.pos[j] - scene.pos[i])) / max(abs(lag[k]), 1e-12)
            ms = (0.99, 0.95, 0.9) if sc['method'] == 'gagne' else (lim['mincorr'],)
            if any(abs(cl[k] - m) < e for m in ms):
                return True
            if sc['method'] == 'jamaly':
                rq = np.asarray(out.method_data['r_qc'], float)[k]
                if abs(rq - lim['mincorr']) < e or any(abs(vel - lim[z]) < 1e-2 * (e > 1e-6) + 1e-9 for z in ('minvelocity', 'maxvelocity')):
                    return True
            if sc['backend'] == 'xcorr':
                _, c = xcorr(kt[:, i], kt[:, j])
                a = np.sort(c)
                if a[-1] - a[-2] < 1e-10:
                    return True
        return False
