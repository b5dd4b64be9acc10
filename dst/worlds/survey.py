"""C16: survey crews measure the sites of a plant, each with its own base station and
coordinate frame, with lost fixes and sessions in any order; the office sends every
session through further frames and back and merges them into one plan."""
import random
import warnings

import numpy as np
import pandas as pd

from dst.core import World, check, real
from solarspatialtools import spatial

warnings.simplefilter('ignore')
A_EARTH, F = 6378137.0, 1 / 298.257223563
E2 = F * (2 - F)
N3 = F / (2 - F)
AA = A_EARTH / (1 + N3) * (1 + N3 ** 2 / 4 + N3 ** 4 / 64 + N3 ** 6 / 256)
ALPHA = [sum(c * N3 ** (j + 1 + i) for i, c in enumerate(row)) for j, row in enumerate([
    [1 / 2, -2 / 3, 5 / 16, 41 / 180, -127 / 288, 7891 / 37800],
    [13 / 48, -3 / 5, 557 / 1440, 281 / 630, -1983433 / 1935360],
    [61 / 240, -103 / 140, 15061 / 26880, 167603 / 181440],
    [49561 / 161280, -179 / 168, 6601661 / 7257600],
    [34729 / 80640, -3418889 / 1995840],
    [212378941 / 319334400]])]


def kruger(lat, lon, lon0):
    """Transverse Mercator (scale 1) by Krueger's series to sixth order."""
    phi, lam = np.radians(lat), np.radians((lon - lon0 + 180) % 360 - 180)
    e = np.sqrt(E2)
    tau = np.tan(phi)
    sig = np.sinh(e * np.arctanh(e * tau / np.sqrt(1 + tau ** 2)))
    t = tau * np.sqrt(1 + sig ** 2) - sig * np.sqrt(1 + tau ** 2)
    xi, eta = np.arctan2(t, np.cos(lam)), np.arcsinh(np.sin(lam) / np.sqrt(t ** 2 + np.cos(lam) ** 2))
    x, y = eta, xi
    for j, a in enumerate(ALPHA, 1):
        y = y + a * np.sin(2 * j * xi) * np.cosh(2 * j * eta)
        x = x + a * np.cos(2 * j * xi) * np.sinh(2 * j * eta)
    return AA * x, AA * y


def zone_of(lon):
    return min(int((lon + 180) // 6) + 1, 60)


def utm(lat, lon, zone):
    x, y = kruger(lat, lon, zone * 6 - 183)
    return 500000 + 0.9996 * x, 0.9996 * y + (1e7 if lat < 0 else 0)


class Survey(World):
    prop = 'C16'
    batch = 32
    runs = {'quick': 5000, 'thorough': 250000}
    wall = {'quick': 40, 'thorough': 1800}
    rule = ('one run = a plant surveyed by crews with own bases, frames and lost fixes, whose sessions pass through further frames and are '
            'merged into one plan; non-trivial when a fix was lost, a session came twice or several crews met')
    measure = 'distinct (chain of frames, form of data, place, kinds of fault)'
    real_parts = ['spatial', 'pyproj']
    stub_parts = ['crews, receivers and office']
    assumptions = ['sites of one plant lie on one side of the equator; frames are used within two zones of their centre']
    FRAMES = ['utm', 'utm', 'utm_zone', 'lcs', 'lcs', 'lcs_zone', 'flat', 'tmerc']

    def generate(self, rng, tier):
        n = rng.randint(1, 7)
        place = rng.choice(['any', 'any', 'border', 'border', 'date', 'equator'])
        lat = rng.uniform(-70, 70) if place != 'equator' else rng.choice([-1, 1]) * rng.uniform(0.02, 0.5)
        lon = {'any': rng.uniform(-179, 179), 'equator': rng.uniform(-179, 179), 'border': rng.randint(-29, 29) * 6 + rng.uniform(-0.02, 0.02),
               'date': rng.choice([-179.99, 179.99])}[place]
        size = rng.choice([0.0003, 0.003, 0.01])
        return {'seed': rng.randrange(1 << 30), 'lat': round(lat, 7), 'lon': round(lon, 7), 'size': size, 'place': place,
                'sites': [[round(rng.uniform(-1, 1), 6), round(rng.uniform(-1, 1), 6)] for _ in range(n)],
                'crews': [{'who': [rng.randrange(n) for _ in range(rng.randint(1, n + 1))], 'base': [round(rng.uniform(-2, 2), 5), round(rng.uniform(-2, 2), 5)],
                           'chain': [rng.choice(self.FRAMES) for _ in range(rng.randint(1, 4))], 'form': rng.choice(['scalar', 'array', 'list', 'series', 'series', 'dup']),
                           'lost': [rng.randrange(n + 1) for _ in range(rng.choice([0, 0, 0, 1]))], 'shift': rng.choice([-1, 0, 0, 1])}
                          for _ in range(rng.randint(1, 4))],
                'turn': round(rng.uniform(-7, 7), 5), 'dirs': [round(rng.uniform(0, 6.283), 5), round(rng.uniform(0, 6.283), 5)], 'length': rng.choice([1, 0.01, 7.5]),
                'cs': round(rng.choice([0, rng.uniform(-20, 20)]), 3), 'nt': rng.randint(1, 5), 'dt': rng.choice([0.25, 1, 60])}

    def shrink(self, sc):
        C = sc['crews']
        for i in range(len(C)):
            if len(C) > 1:
                yield dict(sc, crews=C[:i] + C[i + 1:])
        for i, c in enumerate(C):
            for d in ([dict(c, lost=[])] if c['lost'] else []) + ([dict(c, chain=c['chain'][:-1]), dict(c, chain=c['chain'][1:])] if len(c['chain']) > 1 else []) \
                    + ([dict(c, who=c['who'][:1])] if len(c['who']) > 1 else []) + ([dict(c, form='scalar')] if c['form'] != 'scalar' else []):
                yield dict(sc, crews=C[:i] + [d] + C[i + 1:])

    # ------------------------------------------------------------------
    def execute(self, sc, run):
        rng = random.Random(f'survey{sc["seed"]}')
        wide = sc['size'] / max(0.2, np.cos(np.radians(sc['lat'])))
        truth = [(sc['lat'] + a * sc['size'], max(-179.9999, min(179.9999, sc['lon'] + b * wide))) for a, b in sc['sites']]
        plan = {}
        for c in sc['crews']:
            base = (sc['lat'] + c['base'][0] * sc['size'], max(-179.9999, min(179.9999, sc['lon'] + c['base'][1] * wide)))
            if base[0] * sc['lat'] <= 0:
                base = (sc['lat'], base[1])
            ids = [i % len(truth) for i in c['who']]
            lat, lon = [truth[i][0] for i in ids], [truth[i][1] for i in ids]
            if min(lat) * max(lat) <= 0:
                return
            lost = sorted({i % len(ids) for i in c['lost']})
            if c['form'] == 'scalar' or len(lost) == len(ids):
                lost = []
            for i in lost:
                lat[i] = lon[i] = np.nan
                run.fault('fix_lost')
            run.state(tuple(c['chain'])[:2], c['form'], sc['place'], bool(lost))
            for frame in c['chain']:
                lat, lon, lost, ids = self.through(sc, run, c, frame, base, lat, lon, lost, ids)
                run.steps += 1
                for k, i in enumerate(ids):
                    if k in lost:
                        continue
                    d = max(abs(lat[k] - truth[i][0]), abs(lon[k] - truth[i][1]))
                    check(d < 1e-8, 'moved', lambda: f'site at {truth[i]} came back from frame {frame} of the base at {base} as {(lat[k], lon[k])} ({c["form"]})')
            for k, i in enumerate(ids):
                if k not in lost:
                    if i in plan:
                        run.fault('surveyed_twice')
                    plan[i] = lat[k], lon[k]
        if len(sc['crews']) > 1:
            run.nontrivial = True
        run.log('plan', sorted((i, f'{a:.8f}', f'{b:.8f}') for i, (a, b) in plan.items()))
        if plan:
            self.geometry(sc, run, rng, plan, truth)

    def form(self, c, xs):
        if c['form'] == 'array':
            return np.array(xs, float)
        if c['form'] == 'series':
            return pd.Series(np.array(xs, float), index=[f's{k}' for k in range(len(xs))][::-1])
        if c['form'] == 'dup':
            return pd.Series(np.array(xs, float), index=[k // 2 for k in range(len(xs))])
        return list(xs)

    def rows(self, c, got, n, cols, what):
        """Columns of a result in any of its documented forms."""
        if c['form'] in ('series', 'dup'):
            if isinstance(got, pd.DataFrame):
                check(list(got.columns) == cols and list(got.index) == list(self.form(c, [0] * n).index), 'wrong-labels',
                      f'{what}: columns {list(got.columns)}, rows {list(got.index)}')
                return [got[k].to_numpy(float) for k in cols]
            for g in got:
                check(isinstance(g, pd.Series) and list(g.index) == list(self.form(c, [0] * n).index), 'wrong-labels', f'{what}: {type(g).__name__} returned for a series')
            return [g.to_numpy(float) for g in got]
        if isinstance(got, tuple):
            return [np.asarray(g, float) for g in got]
        g = np.asarray(got, float)
        check(g.shape == (n, len(cols)), 'wrong-shape', f'{what}: shape {g.shape} for {n} sites')
        return list(g.T)

    def through(self, sc, run, c, frame, base, lat, lon, lost, ids):
        """Into a frame (judged against the projection) and back."""
        zone = None
        if frame.endswith('_zone'):
            zone = min(60, max(1, zone_of(base[1]) + c['shift']))
        n = len(lat)
        ok = [k for k in range(n) if k not in lost]
        if lost and frame == 'utm' or lost and frame in ('lcs', 'lcs_zone') or lost and frame == 'utm_zone' and False:
            try:
                self.into(sc, run, c, frame, base, zone, lat, lon, ok)
            except ValueError:
                run.probe('lost_fix_refused')
            lat, lon, ids = [lat[k] for k in ok], [lon[k] for k in ok], [ids[k] for k in ok]
            lost, n, ok = [], len(ok), list(range(len(ok)))
        e, nn, zs = self.into(sc, run, c, frame, base, zone, lat, lon, ok)
        if frame in ('flat', 'tmerc'):
            return lat, lon, lost, ids                         # one-way frames
        la, lo = [np.nan] * n, [np.nan] * n
        south = sc['lat'] < 0
        if frame.startswith('utm'):
            for z in sorted(set(zs[k] for k in ok)):
                part = [k for k in ok if zs[k] == z]
                if c['form'] == 'scalar':
                    back = [real(spatial.utm2latlon, float(e[k]), float(nn[k]), int(z), south, what='utm2latlon') for k in part]
                    a, b = [x[0] for x in back], [x[1] for x in back]
                else:
                    a, b = self.rows(c, real(spatial.utm2latlon, self.form(c, e[part]), self.form(c, nn[part]), int(z), south, what='utm2latlon'),
                                     len(part), ['lat', 'lon'], 'utm2latlon')
                for k, x, y in zip(part, a, b):
                    la[k], lo[k] = float(x), float(y)
        else:
            if c['form'] == 'scalar':
                back = [real(spatial.lcs2latlon, float(x), float(y), base[0], base[1], zone, what='lcs2latlon') for x, y in zip(e, nn)]
                la, lo = [x[0] for x in back], [x[1] for x in back]
            else:
                form = dict(c, form='array') if c['form'] == 'list' else c
                got = real(spatial.lcs2latlon, self.form(form, e), self.form(form, nn), base[0], base[1], zone, what='lcs2latlon')
                check(isinstance(got, tuple) and len(got) == 2 and np.shape(got[0]) == (n,), 'wrong-shape',
                      lambda: f'lcs2latlon of {n} sites as {c["form"]} returned {got!r:.100}')
                a, b = self.rows(form, got, n, ['lat', 'lon'], 'lcs2latlon')
                la, lo = [float(x) for x in a], [float(x) for x in b]
        return la, lo, lost, ids

    def into(self, sc, run, c, frame, base, zone, lat, lon, ok):
        n = len(lat)
        form = c['form'] if frame not in ('flat', 'tmerc') or c['form'] != 'list' else 'array'
        cc = dict(c, form=form)
        if frame in ('flat', 'tmerc'):
            fn, args = spatial.lla2flat, (base[0], base[1], 'matlab' if frame == 'flat' else 'tmerc')
        elif frame.startswith('utm'):
            fn, args = spatial.latlon2utm, (zone,)
        else:
            fn, args = spatial.latlon2lcs, (base[0], base[1], zone)
        what = f'{fn.__name__} ({frame}, zone {zone}, {form})'
        if form == 'scalar':
            got = [fn(lat[k], lon[k], *args) for k in range(n)]
            cols = [np.array([float(g[j]) for g in got]) for j in range(len(got[0]))]
        else:
            a, b = self.form(cc, lat), self.form(cc, lon)
            ka, kb = np.array(a, float), np.array(b, float)
            got = fn(a, b, *args)
            check(np.array_equal(ka, np.array(a, float), equal_nan=True) and np.array_equal(kb, np.array(b, float), equal_nan=True), 'argument-changed',
                  f'{what} changed the coordinates')
            if frame == 'tmerc' and form in ('series', 'dup'):
                got = tuple(np.asarray(g) for g in got)
                cc = dict(c, form='array')
            cols = self.rows(cc, got, n, ['E', 'N', 'zone'] if frame.startswith('utm') else ['E', 'N'], what)
        e, nn = cols[0], cols[1]
        zs = cols[2] if frame.startswith('utm') else None
        for k in ok:
            if frame.startswith('utm'):
                z = zone or zone_of(lon[k])
                check(zs[k] == z, 'wrong-zone', f'{what}: zone {zs[k]} for longitude {lon[k]}')
                want = utm(lat[k], lon[k], z)
                tol = 1e-4
            elif frame.startswith('lcs'):
                z = zone or zone_of(base[1])
                t, o = utm(lat[k], lon[k], z), utm(base[0], base[1], z)
                want, tol = (t[0] - o[0], t[1] - o[1]), 1e-4
            else:
                t, o = kruger(lat[k], lon[k], base[1]), kruger(base[0], base[1], base[1])
                want, tol = (t[0] - o[0], t[1] - o[1]), 1e-4
                if frame == 'flat':
                    d = np.hypot(*want)
                    tol = 1e-4 + d * d / A_EARTH * 1.2 * (0.1 + abs(np.tan(np.radians(base[0])))) * 1.3
            err = max(abs(e[k] - want[0]), abs(nn[k] - want[1]))
            check(err < tol, 'wrong-place', lambda: f'{what}: ({lat[k]}, {lon[k]}) seen from {base} is at ({e[k]:.4f}, {nn[k]:.4f}), not ({want[0]:.4f}, {want[1]:.4f})')
        return e, nn, zs

    def geometry(self, sc, run, rng, plan, truth):
        ids = sorted(plan)
        z = zone_of(sc['lon'])
        xy = np.array([utm(*truth[i], z) for i in ids])
        ref = xy[0] + [rng.uniform(-300, 300), rng.uniform(-300, 300)]
        P = pd.DataFrame(xy, columns=['E', 'N'], index=[f'c{i}' for i in ids])
        V = real(spatial.compute_vectors, P['E'], P['N'], ref, what='compute_vectors')
        check(isinstance(V, pd.DataFrame) and list(V.index) == list(P.index) and list(V.columns) == ['dx', 'dy'] and np.allclose(V, xy - ref, atol=1e-6),
              'wrong-vector', 'vectors from the reference to the sites')
        check(np.allclose(real(spatial.compute_vectors, xy[:, 0], xy[:, 1], tuple(ref), what='compute_vectors'), xy - ref, atol=1e-6), 'wrong-vector', 'vectors of arrays')
        v = xy - ref
        u = [np.array([np.cos(a), np.sin(a)]) for a in sc['dirs']]
        proj = []
        for w in u:
            p = real(spatial.project_vectors, V, w * sc['length'], what='project_vectors')
            check(list(p.index) == list(P.index) and list(p.columns) == ['dist'], 'wrong-labels', 'labels of the distances')
            q = np.asarray(real(spatial.project_vectors, v, tuple(w * sc['length']), what='project_vectors'))
            check(np.allclose(p['dist'], v @ w, atol=1e-6) and np.allclose(q, v @ w, atol=1e-6), 'wrong-distance', 'distances along a direction')
            proj.append(q)
        s = abs(np.sin(sc['dirs'][0] - sc['dirs'][1]))
        far = (np.abs(proj[0]) > 1e-3) & (np.abs(proj[1]) > 1e-3)
        if s > 0.05 and far.any():
            C = real(spatial.compute_intersection, (proj[0][:, None] * u[0])[far], (proj[1][:, None] * u[1])[far], what='compute_intersection')
            check(np.allclose(C, v[far], atol=1e-3 / s), 'wrong-intersection', lambda: f'sites at {v[far][:2]} found from their distances along two directions at {C[:2]}')
        t = sc['turn']
        R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        for form in (v.T, [list(v[:, 0]), list(v[:, 1])], tuple(v[0])):
            r = real(spatial.rotate_vector, form, t, what='rotate_vector')
            check((type(r) is tuple) == (type(form) in (tuple, list)) and np.allclose(r, R @ np.array(form), atol=1e-6), 'wrong-rotation', f'turned by {t}')
            check(np.allclose(spatial.rotate_vector(r, -t), np.array(form), atol=1e-6), 'wrong-rotation', 'turned there and back')
        r, th = real(spatial.rect2pol, v[:, 0], v[:, 1], what='rect2pol')
        x, y = real(spatial.pol2rect, r, th, what='pol2rect')
        check(np.allclose(r, np.hypot(*v.T)) and (np.abs(th) <= np.pi + 1e-12).all() and np.allclose(np.c_[x, y], v, atol=1e-6), 'wrong-polar', 'polar form and back')
        row = V.iloc[0]
        check(abs(real(spatial.magnitude, row, what='magnitude') - np.hypot(*v[0])) < 1e-6 and np.allclose(real(spatial.unit, v[0], what='unit'), v[0] / np.hypot(*v[0]))
              and abs(spatial.dot(v[0], u[0]) - v[0] @ u[0]) < 1e-6, 'wrong-vector', 'magnitude, unit or dot product')
        times = pd.date_range('2013-05-01 12:00:07', periods=sc['nt'], freq=pd.Timedelta(milliseconds=int(sc['dt'] * 1000)))
        order = list(range(sc['nt']))
        if rng.random() < 0.5:
            rng.shuffle(order)
            run.fault('times_out_of_order')
        times = times[order]
        D = real(spatial.spacetime_distances, v[:, 0], v[:, 1], times, sc['cs'], sc['dirs'][0], what='spacetime_distances')
        pts = np.array([p - sc['cs'] * k * sc['dt'] * u[0] for p in v for k in order])
        want = np.hypot(*(pts[:, None] - pts[None]).transpose(2, 0, 1))
        check(np.shape(D) == want.shape and np.allclose(D, want, atol=1e-6), 'wrong-distance', 'distances of drifting sites and times')
        run.steps += 8
        run.log('geo', f'{r.sum():.5f}', f'{D.sum():.5f}')
