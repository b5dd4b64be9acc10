"""C05: a day of per-sensor files turned into one table, with crashes, disk
errors, unreadable sources and shuffled listings on the way."""
import os
import random
import shutil

import numpy as np
import pandas as pd
import tables  # noqa: F401  (loaded before the lifetimes fork)

from dst.core import Violation, World, check
from dst.sim import lifetime
from dst.worlds.campaign import gen_disk, harmless, note, sha, swallowed
from solarspatialtools.dataio import nrcan_data

DATES = ['2014-07-17', '2015-03-08', '2015-11-01', '2015-10-08', '2016-02-29', '2014-12-31']
STARTS = ['00:00:00', '01:59:59.2', '02:30:00', '09:00:00', '12:34:56.789', '23:59:58.7', '18:59:59.5']
TICK = 10_000            # microseconds
UTC5 = 5 * 3600 * 10 ** 6


def clock(x, digits):
    s = f'{x:%H:%M:%S.%f}'
    return s[:9 + digits].rstrip('.') if digits <= 6 else s + '0' * (digits - 6)


def cell(v):
    return '' if v != v else f'{v:.2f}'


class Sensor:
    """Readings of one sensor: times in microseconds of UTC-5 local time."""

    def __init__(self, rng, start, dur, kind, blanks=0):
        first = start
        if kind != 'regular':
            first += rng.choice([0, 0, TICK * rng.randrange(20), rng.randrange(200_000), -rng.randrange(150_000)])
        t, out = first, []
        end = start + dur + (rng.randrange(-150_000, 150_000) if kind != 'regular' else 0)
        while t <= end or len(out) < 2:
            out.append(t)
            if kind == 'regular':
                t += TICK
            elif kind == 'grid':
                t += TICK * rng.choice([1, 1, 1, 2, 5, 30])
            elif kind == 'burst':
                t += rng.choice([700, 1500, 3000, 9999, 10_001, 20_000, 60_000])
            elif kind == 'silent':       # long pauses without a reading
                t += rng.choice([10_000, 20_000, 1_000_000, 5_000_000, 5_010_000, 6_100_000, 61_000_000, 301_000_000]) if rng.random() < 0.15 else 10_000
            elif kind == 'sparse':
                t += rng.randrange(100_000, 900_000)
            else:
                t += rng.choice([10_000, 10_000, rng.randrange(1, 40_000), 500_000])
        self.t = np.array(out, dtype=np.int64)
        self.g = [np.round([rng.uniform(0, 1200) for _ in out], 2) for _ in (1, 2)]
        if blanks:                       # cells left empty in the file
            r = random.Random(f'{blanks}:{len(out)}:{out[0]}')
            for g in self.g:
                for _ in range(r.choice([0, 1, 3, len(out) // 4])):
                    g[r.choice([0, len(out) - 1, r.randrange(len(out)), r.randrange(len(out))])] = np.nan

    def write(self, path, extra=False, digits=6):
        ts = pd.to_datetime(self.t, unit='us')
        while digits < 6 and (self.t % 10 ** (6 - digits)).any():
            digits += 1
        with open(path, 'w') as f:
            f.write('Date,Time,G1 (W/m2),G2 (W/m2)' + (',T (C)' if extra else '') + '\n')
            for k, x in enumerate(ts):
                f.write(f'{x:%Y-%m-%d},{clock(x, digits)},{cell(self.g[0][k])},{cell(self.g[1][k])}' + (',20.0' if extra else '') + '\n')

    def at(self, grid, plane):
        """Most recent reading at or before each instant inside the record, else nan."""
        i = np.searchsorted(self.t, grid, side='right') - 1
        out = np.full(len(grid), np.nan)
        ok = (i >= 0) & (grid <= self.t[-1])
        out[ok] = self.g[plane][i[ok]]
        return out

    def filled(self, grid, plane):
        """The same, an empty cell not counting as a reading."""
        has = ~np.isnan(self.g[plane])
        out = np.full(len(grid), np.nan)
        if has.any():
            t, v = self.t[has], self.g[plane][has]
            i = np.searchsorted(t, grid, side='right') - 1
            ok = (i >= 0) & (grid <= self.t[-1])
            out[ok] = v[i[ok]]
        return out


class DayFiles:
    def __init__(self, seed, no, dur, names, kinds, blanks=0):
        rng = random.Random(f'{seed}:{no}')
        date = DATES[(rng.randrange(len(DATES)) + no) % len(DATES)]
        if no:
            date = str((pd.Timestamp(date) + pd.Timedelta(days=400 * no)).date())
        self.tag = date.replace('-', '')
        start = int((pd.Timestamp(date) + pd.Timedelta(rng.choice(STARTS))).value // 1000)
        self.sensors = {nm: Sensor(rng, start, dur, kinds[k % len(kinds)], blanks) for k, nm in enumerate(names)}
        self.extra = rng.random() < 0.3
        self.suffix = rng.choice(['', '', '', '_raw', '_v2_b'])
        self.digits = {nm: rng.choice([2, 3, 6, 6, 7, 9]) for nm in names} if rng.random() < 0.4 else \
            dict.fromkeys(names, rng.choice([0, 2, 2, 3, 6, 9]))

    def write(self, d):
        for nm, s in self.sensors.items():
            s.write(os.path.join(d, f'{self.tag}_{nm}{self.suffix}.csv'), self.extra, self.digits[nm])

    def table(self, plane):
        first = self.sensors[sorted(self.sensors)[0]]
        grid = np.arange(first.t[0] // TICK * TICK, first.t[-1] + 1, TICK)
        return grid, {nm: (s.at(grid, plane), s.filled(grid, plane)) for nm, s in self.sensors.items()}


def expected(days):
    out = []
    for plane in (0, 1):
        parts = [d.table(plane) for d in days]
        grid = np.concatenate([p[0] for p in parts])
        cols = {nm: [np.concatenate([p[1][nm][k] for p in parts]) for k in (0, 1)] for nm in parts[0][1]}
        out.append((grid, cols))
    return out


def compare(path, days, latlon, what):
    try:
        got = {k: pd.read_hdf(path, key=k, mode='r') for k in ('data', 'data_tilt', 'latlon')}
    except Exception as e:
        return f'{what}: the target cannot be read: {type(e).__name__} {str(e)[:120]}'
    finally:
        tables.file._open_files.close_all()
    want = expected(days)
    for plane, key in enumerate(('data', 'data_tilt')):
        d = got[key]
        grid, cols = want[plane]
        if list(d.columns) != sorted(cols):
            return f'{what}: {key} has columns {list(d.columns)}'
        if d.index.tz is None or d.index[0].utcoffset() != pd.Timedelta(hours=-5):
            return f'{what}: {key} is not on a UTC-5 time base'
        t = d.index.tz_convert('UTC').asi8 // {'ns': 1000, 'us': 1}.get(getattr(d.index, 'unit', 'ns'), 1000) - UTC5
        if len(t) != len(grid):
            return f'{what}: {key} has {len(t)} rows, {len(grid)} wanted ({len(t) - len(set(t.tolist()))} repeated)'
        if not (t == grid).all():
            k = int(np.argmax(t != grid))
            return f'{what}: {key} row {k} is at {d.index[k]}, wanted {pd.Timestamp(int(grid[k]) * 1000)}'
        for nm, (v, w) in cols.items():
            g = d[nm].to_numpy(float)
            bad = ~((g == v) | (np.isnan(g) & np.isnan(v)) | (np.isnan(v) & (g == w)))
            if bad.any():
                k = int(np.argmax(bad))
                return (f'{what}: {key} {nm} at {pd.Timestamp(int(grid[k]) * 1000)} is {g[k]}, last reading is {v[k]}'
                        f' ({int(bad.sum())} differ)')
    ll = got['latlon']
    if sorted(ll.index) != sorted(latlon) or not {'lat', 'lon'} <= set(ll.columns) or len(ll) != len(latlon):
        return f'{what}: station table differs: {ll.index.tolist()} {list(ll.columns)}'
    for nm, (la, lo) in latlon.items():
        if not np.array_equal(ll.loc[nm, ['lat', 'lon']].to_numpy(float), [la, lo], equal_nan=True):
            return f'{what}: station {nm} at {ll.loc[nm].tolist()}, recorded at {la, lo}'
    return None


class _Stop(Exception):
    pass


class Convert(World):
    prop = 'C05'
    batch = 2
    runs = {'quick': 700, 'thorough': 30000}
    wall = {'quick': 75, 'thorough': 3000}
    rule = ('one run = one to three days of irregular sensor records converted into one target through attempts disturbed by '
            'crashes, disk errors, interrupts, unreadable sources and shuffled listings, each day retried until it is in; '
            'non-trivial when a fault fired')
    measure = 'distinct (target before, after, ending, kind of disk operation hit, days in the target) per attempt'
    real_parts = ['nrcan_data.process_files', 'iotools.getfiles', 'pandas CSV reader and HDF writer', 'PyTables', 'HDF5',
                  'file system through the disk shim']
    stub_parts = ['order of directory listings']
    assumptions = ['process death loses only what was not yet handed to the kernel (no power loss)',
                   'readings have decimal points and strictly increasing times; all days have the same sensors']

    def generate(self, rng, tier):
        ndays = rng.choice([1, 1, 1, 2, 2, 3])
        days = []
        for d in range(ndays):
            lives = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                life = {'listing': rng.randrange(1 << 20)}
                r = rng.random()
                if r < 0.8:
                    life['disk'] = gen_disk(rng, 60)
                elif r < 0.95:
                    life['corrupt'] = [rng.randrange(8), rng.choice(['empty', 'nocol', 'binary', 'latlon', 'gone'])]
                lives.append(life)
            days.append({'lives': lives, 'listing': rng.randrange(1 << 20)})
        return {'seed': rng.randrange(1 << 30), 'dur': rng.choice([50_000, 300_000, 1_000_000, 3_000_000]),
                'sensors': rng.randint(1, 5),
                'kinds': [rng.choice(['regular', 'grid', 'burst', 'sparse', 'mixed', 'silent']) for _ in range(rng.randint(1, 5))],
                'blanks': rng.choice([0, 0, 0, 1]), 'prefix': rng.choice(['VAR', 'AFN', 'S', 'Afn', 'vx-']), 'latlon_in': rng.choice(['out', 'out', 'in', 'infirst']), 'days': days}

    def directed(self, tier):
        base = {'seed': 5, 'dur': 300_000, 'sensors': 2, 'kinds': ['mixed', 'grid'], 'prefix': 'VAR', 'latlon_in': 'out'}
        ok = {'lives': [], 'listing': 3}
        out = []
        for at in (-1, -2, -4, -8, -12):
            one = {'lives': [{'listing': 1, 'disk': {'kind': 'enospc', 'at': at, 'len': 10 ** 6}}], 'listing': 2}
            out.append(dict(base, days=[one]))
            out.append(dict(base, days=[ok, one]))
        for at in (0, 5, 15, 30, 45, -6, -3, -2, -1):
            one = {'lives': [{'listing': 1, 'disk': {'kind': 'crash', 'at': at, 'len': 1}}], 'listing': 2}
            out.append(dict(base, days=[one]))
            out.append(dict(base, days=[ok, one]))
        for how in ('empty', 'nocol', 'binary', 'latlon', 'gone'):
            out.append(dict(base, days=[ok, {'lives': [{'listing': 1, 'corrupt': [1, how]}], 'listing': 2}]))
        out.append(dict(base, dur=700_000_000, sensors=2, kinds=['regular', 'grid'], days=[{'lives': [], 'listing': 5}]))
        for kinds in (['regular'], ['burst'], ['sparse', 'grid'], ['mixed', 'sparse', 'burst'], ['silent'], ['silent', 'regular', 'mixed']):
            out.append(dict(base, sensors=4, dur=2_000_000, kinds=kinds, latlon_in='in', days=[ok, ok]))
        return out

    def shrink(self, sc):
        D = sc['days']
        for i in range(len(D)):
            if len(D) > 1:
                yield dict(sc, days=D[:i] + D[i + 1:])
        for i, d in enumerate(D):
            def rep(L):
                return dict(sc, days=D[:i] + [dict(d, lives=L)] + D[i + 1:])
            L = d['lives']
            for j, x in enumerate(L):
                yield rep(L[:j] + L[j + 1:])
                k = x.get('disk')
                if k:
                    if k['len'] > 1:
                        yield rep(L[:j] + [dict(x, disk=dict(k, len=1))] + L[j + 1:])
                    if k['at'] > 0:
                        yield rep(L[:j] + [dict(x, disk=dict(k, at=k['at'] // 2))] + L[j + 1:])
                        yield rep(L[:j] + [dict(x, disk=dict(k, at=k['at'] - 1))] + L[j + 1:])
        for k, z in (('sensors', 1), ('sensors', 2), ('dur', 50_000), ('dur', 300_000), ('latlon_in', 'out'), ('prefix', 'S'), ('blanks', 0)):
            if sc.get(k, z) != z and not (k in ('sensors', 'dur') and sc[k] < z):
                yield dict(sc, **{k: z})
        if sc['kinds'] != ['regular']:
            yield dict(sc, kinds=['regular'])
            if len(sc['kinds']) > 1:
                for i in range(len(sc['kinds'])):
                    yield dict(sc, kinds=sc['kinds'][:i] + sc['kinds'][i + 1:])

    def execute(self, sc, run):
        names = [f'{sc["prefix"]}{k + 1:02d}' for k in range(sc['sensors'])]
        rng = random.Random(f'll{sc["seed"]}')
        latlon = {nm: (round(rng.uniform(44, 46), 6), round(rng.uniform(-78, -73), 6)) for nm in names}
        if sc['seed'] % 3 == 0:           # stations without a sensor file, one not surveyed yet
            latlon['X98'] = (45.5, -73.25)
            latlon['A99'] = (np.nan, np.nan)
        out = os.path.join(run.scratch, 'out')
        os.mkdir(out)
        target = os.path.join(out, 'nrcan.h5')
        done = []
        for no, dd in enumerate(sc['days']):
            day = DayFiles(sc['seed'], no, sc['dur'], names, sc['kinds'], sc.get('blanks', 0))
            src = os.path.join(run.scratch, f'src{no}')
            os.mkdir(src)
            day.write(src)
            with open(os.path.join(src, 'notes.txt'), 'w') as f:
                f.write('not data')
            llfile = {'out': os.path.join(run.scratch, 'site_latlon.csv'), 'in': os.path.join(src, 'zz_latlon.csv'),
                      'infirst': os.path.join(src, '0_latlon.csv')}[sc['latlon_in']]
            with open(llfile, 'w') as f:
                f.write('Site,Latitude,Longitude\n' + ''.join(f'{k},{a:.6f},{b:.6f}\n'.replace('nan', '') for k, (a, b) in latlon.items()))
            keep = {p: sha(p) for p in [os.path.join(src, x) for x in sorted(os.listdir(src))] + [llfile]}
            finished = False
            for life in dd['lives'] + [{'listing': dd['listing'], 'final': True}]:
                try:
                    finished = self._attempt(life, no, src, llfile, target, day, done, latlon, keep, run)
                except _Stop:
                    return
                if finished:
                    break
            check(finished, 'retry-not-done', f'day {no} is not in the target after an undisturbed attempt')
            done.append(day)

    def _attempt(self, life, no, src, llfile, target, day, done, latlon, keep, run):
        out = os.path.dirname(target)
        before = sha(target) if os.path.exists(target) else None
        disk = life.get('disk')
        if disk and disk['at'] < 0:
            tmp = os.path.join(run.scratch, 'dry')
            os.mkdir(tmp)
            if before:
                shutil.copy(target, os.path.join(tmp, 'nrcan.h5'))
            dry = lifetime(lambda: nrcan_data.process_files(src, llfile, os.path.join(tmp, 'nrcan.h5')), tmp)
            shutil.rmtree(tmp)
            disk = dict(disk, at=max(0, dry['disk']['ops'] + disk['at']))
        hurt = None
        if life.get('corrupt'):
            idx, how = life['corrupt']
            csv = sorted(p for p in keep if p.endswith('.csv') and p != llfile)
            hurt = llfile if how == 'latlon' else csv[idx % len(csv)]
            os.rename(hurt, hurt + '~')
            if how == 'empty':
                open(hurt, 'wb').close()
            elif how == 'nocol':
                with open(hurt, 'w') as f:
                    f.write('Date,Time,G1 (W/m2)\n2014-07-17,09:00:00.00,1.00\n2014-07-17,09:00:00.01,1.00\n')
            elif how == 'binary':
                with open(hurt, 'wb') as f:
                    f.write(b'\x00\xff<html>error</html>')
            elif how == 'gone':
                if len(csv) > 1:             # a file that is listed but cannot be opened
                    os.symlink(hurt + '-nowhere', hurt)
                else:
                    open(hurt, 'wb').close()
        life = dict(life, disk=disk)
        res = lifetime(lambda: nrcan_data.process_files(src, llfile, target), out, disk=disk, listing_seed=life['listing'])
        note(run, life, res)
        if hurt:
            run.fault('source_' + life['corrupt'][1])
            if os.path.lexists(hurt):
                os.unlink(hurt)
            os.rename(hurt + '~', hurt)
        for p, h in keep.items():
            check(os.path.isfile(p) and sha(p) == h, 'source-changed', lambda: f'{os.path.basename(p)} changed')
        after = sha(target) if os.path.exists(target) else None
        what = f'day {no}'
        hit = res['disk']['hit'] if res['disk'] else 'dead'
        run.state(bool(before), bool(after), before == after, res['end'], res.get('exc', ''), hit, len(done))
        if hit and hit != 'dead':
            run.probe('fault_hit_' + hit)
        if res['end'] == 'ok':
            key = swallowed(life, res)
            check(not hurt, 'unreadable-source-accepted', f'{what}: reported success with an unreadable source')
            check(after is not None, 'success-without-target', f'{what}: reported success, no target', key)
            bad = compare(target, done + [day], latlon, what)
            check(bad is None, 'conversion-wrong', bad, key)
            run.probe('success')
            if key:       # what is on disk may be damaged in places a reader does not visit: known finding, judge no further
                run.probe('stopped_after_swallowed_error')
                raise _Stop
            return True
        if after == before:
            if harmless(life, res) and not hurt:
                raise Violation('failure-without-fault', f'{what} failed with {res.get("exc")}: {res.get("msg")}')
            return False
        complete = not hurt and after is not None and compare(target, done + [day], latlon, '') is None
        check(complete, 'target-not-as-before',
              lambda: f'{what}: attempt ended {res["end"]} {res.get("exc", "")}; the target was {"there" if before else "absent"} '
              f'and is {"there" if after else "absent"}{", changed" if before and after else ""}')
        run.probe('interrupted_after_completion')
        return True
