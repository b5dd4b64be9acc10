"""C01, C02, C04: building a campaign data set through process lifetimes that
networks, disks, operators and crashes cut short."""
import hashlib
import os
import random
import runpy
import shutil
import sys
import warnings

import netCDF4
import numpy as np
import pandas as pd
import tables

from dst.core import Run, Violation, World, check, h64
from dst.sim import lifetime
from dst.worlds import qcmodel
from solarspatialtools.dataio import hope_campaign, iotools

BENIGN_DISK = {'short', 'eintr'}
HOST = 'https://data.example.org'


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for fn in sorted(files):
            p = os.path.join(root, fn)
            out[os.path.relpath(p, d)] = sha(p)
    return out


def gen_net(rng, nreq, rate):
    plan = {}
    for i in range(nreq):
        if rng.random() < rate:
            k = rng.choice(['dns', 'refuse', 'conn_timeout', 'sigint_connect', 'http', 'reset', 'reset', 'eof', 'eof',
                            'eof', 'stall', 'sigint', 'kill', 'kill'])
            f = {'kind': k}
            if k == 'http':
                f['code'] = rng.choice([403, 404, 429, 500, 503])
            if k in ('reset', 'eof', 'stall', 'sigint', 'kill'):
                f['frac'] = rng.choice([0.0, rng.random(), rng.random(), rng.random(), 1.0])
                f['part'] = 'head' if rng.random() < 0.1 else 'body'
            plan[str(i)] = f
    return plan


def gen_disk(rng, est, kinds=None):
    kind = rng.choice(kinds or ['crash', 'crash', 'torn', 'torn', 'enospc', 'eio', 'eacces', 'short', 'eintr', 'sigint'])
    at = rng.choice([rng.randrange(max(1, est)), rng.randrange(max(1, est)), rng.randrange(6), -1 - rng.randrange(10)])
    return {'kind': kind, 'at': at, 'len': rng.choice([1, 1, 3, 10 ** 6]) if kind in ('enospc', 'eio', 'eacces') else 1}


def harmless(life, res):
    """Did nothing happen in this lifetime that could excuse a failure?"""
    if any('fault' in e for e in res['events']):
        return False
    if res['disk'] is None:
        return False
    return res['disk']['fired'] == 0 or (life.get('disk') or {}).get('kind') in BENIGN_DISK


def note(run, life, res):
    for e in res['events']:
        if 'fault' in e:
            run.fault(e['fault'])
        if 'escape' in e:
            raise RuntimeError('simulated process reached the real network')
    disk = life.get('disk')
    if disk and (res['end'] == 'dead' and not any(e.get('fault') == 'net_kill' for e in res['events'])
                 or res['disk'] and res['disk']['fired']):
        run.fault('disk_' + disk['kind'])
        if disk.get('len', 1) > 1:
            run.fault('disk_persistent')
    run.sim += res['sim']
    run.steps += 1
    d = res['disk']
    run.log('life', res['end'], res.get('exc', ''), d and (d['ops'], d['fired'], d['hit'], d['trace']),
            [tuple(sorted(e.items())) for e in res['events']])


def clean_world_file(path):
    if os.path.exists(path):
        os.unlink(path)


class Download(World):
    prop = 'C01'
    batch = 6
    runs = {'quick': 2400, 'thorough': 80000}
    wall = {'quick': 60, 'thorough': 2400}
    rule = ('one run = one published file set and a history of download lifetimes, each cut at a chosen byte of a chosen '
            'response or at a chosen disk operation, then one undisturbed lifetime; non-trivial when a fault fired')
    measure = 'distinct (set of complete files, kind of ending, faults fired) after a lifetime'
    real_parts = ['iotools.wget_fromurl', 'iotools.download', 'urllib', 'http.client', 'file system through the disk shim']
    stub_parts = ['TCP and TLS sockets', 'HTTP server', 'name resolution', 'clock (sleep)']
    assumptions = ['the server states the length of a response or uses chunked coding',
                   'process death loses only what was not yet handed to the kernel']

    def generate(self, rng, tier):
        n = rng.randint(1, 6)
        sizes = [rng.choice([0, 1, rng.randrange(2, 300), rng.randrange(300, 9000), rng.randrange(8000, 40000), 8192])
                 for _ in range(n)]
        lives = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            life = {'net': {}, 'api': 'wget'}
            if rng.random() < 0.75:
                life['net'] = gen_net(rng, n + 1, rng.choice([0.15, 0.3]))
            if not life['net'] or rng.random() < 0.25:
                life['disk'] = gen_disk(rng, 5 * n)
            if rng.random() < 0.15:
                life['api'] = rng.randrange(n)
            if rng.random() < 0.08:
                life.update(net={}, disk=None)
            lives.append(life)
        return {'seed': rng.randrange(1 << 30), 'sizes': sizes, 'ext': rng.choice(['.nc', '.nc', '.NC', '.dat', '']), 'forms': rng.choice([1, 6, 6]),
                'style': {'coding': rng.choice(['length', 'length', 'chunked']), 'segment': rng.choice([0, 0, 1000, 137]),
                          'range': rng.random() < 0.7},
                'newline': rng.random() < 0.8, 'line': rng.choice(['wget {}', 'wget -nc {}', '{}', 'curl -O  {} ', 'wget --user=J\u00fclich {}']),
                'present': [i for i in range(n) if rng.random() < 0.2], 'strangers': rng.randint(0, 3), 'lives': lives}

    def directed(self, tier):
        base = {'seed': 5, 'sizes': [20000, 9000, 500], 'ext': '.nc', 'forms': 1, 'newline': True, 'line': 'wget {}',
                'style': {'coding': 'length', 'segment': 0, 'range': True}, 'present': [1], 'strangers': 1}
        out = []
        for req in range(3):
            for kind in ('eof', 'reset', 'kill', 'sigint', 'stall'):
                out.append(dict(base, lives=[{'net': {str(req): {'kind': kind, 'frac': 0.5, 'part': 'body'}}, 'api': 'wget'}]))
        for frac in (0.25, 0.34, 0.67, 0.9, 1.0):
            out.append(dict(base, lives=[{'net': {'0': {'kind': 'eof', 'frac': frac, 'part': 'body'}}, 'api': 'wget'}]))
        return out

    def shrink(self, sc):
        L = sc['lives']
        for i in range(len(L)):
            if len(L) > 1:
                yield dict(sc, lives=L[:i] + L[i + 1:])
        n = len(sc['sizes'])
        if n > 1:
            yield dict(sc, sizes=sc['sizes'][:-1], present=[p for p in sc['present'] if p < n - 1],
                       lives=[dict(x, api='wget') if x['api'] == n - 1 else x for x in L])
        for k, z in (('present', []), ('strangers', 0), ('newline', True), ('line', 'wget {}'), ('ext', '.nc'), ('forms', 1)):
            if sc[k] != z:
                yield dict(sc, **{k: z})
        if sc['style'] != {'coding': 'length', 'segment': 0, 'range': True}:
            yield dict(sc, style={'coding': 'length', 'segment': 0, 'range': True})
        for i, x in enumerate(L):
            for k in x['net']:
                yield dict(sc, lives=L[:i] + [dict(x, net={a: b for a, b in x['net'].items() if a != k})] + L[i + 1:])
            if x.get('disk'):
                yield dict(sc, lives=L[:i] + [dict(x, disk=None)] + L[i + 1:])
        for i, s in enumerate(sc['sizes']):
            for t in (100, 2000, s // 2):
                if t < s:
                    yield dict(sc, sizes=sc['sizes'][:i] + [t] + sc['sizes'][i + 1:])

    def execute(self, sc, run):
        rng = random.Random(sc['seed'])
        forms = ['file_{n:03d}_{i}{e}', 'File_{n:03d}{e}_{i}', 'FILE{i}-{n:03d}{e}', 'f{i}', 'f{i}.part{e}', '{n:03d}{i}.tar{e}'][:sc['forms']]
        names = [rng.choice(forms).format(n=rng.randrange(1000), i=i, e=sc['ext']) for i in range(len(sc['sizes']))]
        blobs = [rng.randbytes(s) for s in sc['sizes']]
        files = {f'/pub/a/{nm}': b for nm, b in zip(names, blobs)}
        listing = '\n'.join(sc['line'].format(f'{HOST}/pub/a/{nm}') for nm in names) + ('\n' if sc['newline'] else '')
        files['/pub/wget.sh'] = listing.encode()
        tgt = os.path.join(run.scratch, 'data')
        os.mkdir(tgt)
        for i in sc['present']:
            with open(os.path.join(tgt, names[i]), 'wb') as f:
                f.write(blobs[i])
        strangers = {}
        for i in range(sc['strangers']):
            nm = ['notes.txt', 'old.nc', names[0] + '.bak'][i % 3]
            with open(os.path.join(tgt, nm), 'wb') as f:
                f.write(b'keep me %d' % i)
            strangers[nm] = sha(os.path.join(tgt, nm))
        probe_ops = None
        lives = sc['lives'] + [{'net': {}, 'api': 'wget', 'final': True}]
        for no, life in enumerate(lives):
            before = {nm: self._stat(os.path.join(tgt, nm)) for nm in names}
            complete = {nm for nm, b in zip(names, blobs) if before[nm] and before[nm][0] == hashlib.sha256(b).hexdigest()}
            disk = life.get('disk')
            if disk and disk['at'] < 0:
                if probe_ops is None:
                    dup = os.path.join(run.scratch, 'dry')
                    shutil.copytree(tgt, dup)
                    r = lifetime(lambda: iotools.wget_fromurl(HOST + '/pub/wget.sh', dup, False), dup,
                                 net=(files, {}, sc['style']))
                    probe_ops = r['disk']['ops'] if r['disk'] else 0
                    shutil.rmtree(dup)
                disk = dict(disk, at=max(0, probe_ops + disk['at']))
            if life['api'] == 'wget':
                fn = lambda: iotools.wget_fromurl(HOST + '/pub/wget.sh', tgt, no % 2 == 0)
                wanted = names
            else:
                j = life['api']
                fn = lambda: iotools.download(f'{HOST}/pub/a/{names[j]}', os.path.join(tgt, names[j]))
                wanted = [names[j]]
            res = lifetime(fn, tgt, disk=disk, net=(files, life['net'], sc['style']))
            note(run, life, res)
            for nm, blob in zip(names, blobs):
                p = os.path.join(tgt, nm)
                if os.path.lexists(p):
                    with open(p, 'rb') as f:
                        got = f.read()
                    check(got == blob, 'incomplete-file-under-listed-name',
                          lambda: f'{nm} holds {len(got)} of {len(blob)} bytes after lifetime {no} ({res["end"]} {res.get("exc", "")})')
                elif nm in complete:
                    raise Violation('complete-file-lost', f'{nm} was complete and is gone after lifetime {no}')
                if nm in complete and life['api'] == 'wget':
                    check(self._stat(p) == before[nm], 'complete-file-touched', lambda: f'{nm} was rewritten in lifetime {no}')
            for nm, h in strangers.items():
                p = os.path.join(tgt, nm)
                check(os.path.isfile(p) and sha(p) == h, 'other-file-touched', lambda: f'{nm} changed in lifetime {no}')
            asked = [e['req'].rsplit('/', 1)[-1] for e in res['events'] if 'req' in e]
            if life['api'] == 'wget':
                again = [nm for nm in asked if nm in complete]
                check(not again, 'complete-file-fetched-again', lambda: f'{again} requested in lifetime {no}')
            have = {nm for nm in names if os.path.isfile(os.path.join(tgt, nm))}
            if res['end'] == 'ok':
                run.probe('success')
                check(set(wanted) <= have, 'success-without-all-files',
                      lambda: f'lifetime {no} reported success, missing {sorted(set(wanted) - have)}')
            elif harmless(life, res):
                raise Violation('failure-without-fault', f'lifetime {no} failed with {res.get("exc")}: {res.get("msg")} though nothing went wrong')
            else:
                run.probe('failed_lifetime')
            if len(have) not in (0, len(names)):
                run.probe('partial_set_left')
            if complete and life['api'] == 'wget':
                run.probe('resumed_with_complete_files')
            run.state(len(names), len(have), res['end'], res.get('exc', ''), tuple(sorted(str(e.get('fault')) for e in res['events'] if 'fault' in e)))
            run.log('have', sorted(have))

    @staticmethod
    def _stat(p):
        if not os.path.isfile(p):
            return None
        st = os.stat(p)
        return (sha(p), st.st_mtime_ns, st.st_ino)


# --------------------------------------------------------------------------
# days of a campaign

class Day:
    """One daily file: what the instruments recorded, and how it was written."""

    def __init__(self, seed, start, n, ids, gaps=False, how=()):
        rng = np.random.default_rng(seed)
        self.how = how
        self.ids = np.array(ids, dtype='i4')
        self.time = start + np.arange(n, dtype='f8')
        self.rsds = (rng.random((n, len(ids))) * 900).astype('f8' if 'wide' in how else 'f4')
        self.flag = rng.choice([1, 1, 1, 2, 3, 4], size=(n, len(ids))).astype('i2' if 'wide' in how else 'i1')
        self.lat = (50.9 + rng.random(len(ids)) / 10).astype('f4')
        self.lon = (6.4 + rng.random(len(ids)) / 10).astype('f4')
        if 'wide' in how:
            self.flag[rng.random(self.flag.shape) < 0.05] = 300
        if 'frac' in how:
            self.time = start + rng.choice([0.25, 0.5, 1.0, 0.0078125]) * np.arange(n) + rng.choice([0.0, 0.5])
        if 'whole' in how:
            self.time = self.time.astype('i4')
        if 'jumps' in how and n > 2:      # a clock that was set back, and a reading logged twice
            a = rng.integers(1, n)
            self.time[a:] -= rng.integers(1, 4)
        if gaps and n:
            for j in range(len(ids)):
                for _ in range(rng.integers(0, 4)):
                    a = rng.integers(0, n)
                    self.rsds[a:a + rng.choice([1, 2, 3, 5, 6, 7, 9, 10, 11, 15]), j] = -999.0
        if 'nan' in how and n:
            self.rsds[rng.integers(0, n)] = np.nan
            self.rsds[rng.integers(0, n), rng.integers(0, len(ids))] = np.nan
        if 'fill' in how and n:
            self.rsds[rng.integers(0, n)] = -999.0

    def write(self, path):
        d = netCDF4.Dataset(path, 'w')
        d.createDimension('time', None if 'unlimited' in self.how else len(self.time))
        d.createDimension('station', len(self.ids))
        fill = {'rsds': -999.0, 'rsds_flag': 4} if 'fill' in self.how else {}
        for name, dims, val in (('time', ('time',), self.time), ('station_id', ('station',), self.ids),
                                ('lat', ('station',), self.lat), ('lon', ('station',), self.lon),
                                ('rsds', ('time', 'station'), self.rsds),
                                ('rsds_flag', ('time', 'station'), self.flag)):
            v = d.createVariable(name, val.dtype.str[1:], dims, fill_value=fill.get(name))
            if 'fill' in self.how and name == 'rsds':
                v.valid_range = np.array([-20.0, 700.0], dtype=val.dtype)
            v[:] = val
        d.close()


HOWS = ('wide', 'frac', 'whole', 'jumps', 'nan', 'fill', 'unlimited')


def gen_how(rng):
    how = [h for h in HOWS if rng.random() < 0.25]
    if 'frac' in how and 'whole' in how:
        how.remove('whole')
    return how


def make_days(seed, lengths, nstat, gaps=False, names='plain', contiguous=False, how=()):
    rng = random.Random(seed)
    ids = sorted(rng.sample(range(1, 99), nstat))
    if rng.random() < 0.3:
        rng.shuffle(ids)
    t0 = 1364774400 + 86400 * rng.randrange(100)
    days, t = {}, t0
    for i, n in enumerate(lengths):
        nm = {'plain': f'rsds_2013{4 + i // 28:02d}{1 + i % 28:02d}.nc', 'numbered': f'day_{(i * 7) % 11 + 5}.nc',
              'case': ('B{}.nc', 'a{}.nc', 'C_{}.nc', 'b.{}.nc')[i % 4].format(i),
              'odd': ('é{}.nc', 'x y{}.nc', 'a.nc{}.nc', '-h{}.nc')[i % 4].format(i)}[names]
        days[nm] = Day(seed * 100 + i, t, n, ids, gaps, how)
        t += n + rng.choice([0, 0, -min(n, 5), 30]) if contiguous else 86400
    return days


def expected_merge(days):
    """Reference merge: (times, data rows, flag rows, ids, first file's station table)."""
    names = sorted(days)
    first = days[names[0]]
    return (np.concatenate([days[n].time for n in names]), np.concatenate([days[n].rsds for n in names]),
            np.concatenate([days[n].flag for n in names]), list(first.ids), first.lat, first.lon)


def read_product(path, keys=('data', 'flag', 'latlon')):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with pd.HDFStore(path, mode='r') as st:
            extra = sorted(set(k.strip('/') for k in st.keys()) - set(keys))
            return {k: st[k] for k in keys}, extra


def compare_merge(path, days, what):
    try:
        prod, extra = read_product(path)
    except Exception as e:
        return f'{what}: {os.path.basename(path)} is not a readable product: {type(e).__name__}: {str(e)[:150]}'
    t, rs, fl, ids, lat, lon = expected_merge(days)
    if extra:
        return f'{what}: unexpected tables {extra}'
    want = pd.to_datetime(t, unit='s').tz_localize('UTC')
    for key, val in (('data', rs), ('flag', fl)):
        df = prod[key]
        if list(df.columns) != ids:
            return f'{what}: columns of {key} are {list(df.columns)}, expected {ids}'
        if len(df) != len(want) or not (df.index == want).all():
            return f'{what}: {key} has {len(df)} rows, {len(want)} expected, or other times'
        if str(df.index.tz) != 'UTC':
            return f'{what}: time zone {df.index.tz}'
        if not np.array_equal(df.to_numpy(), val, equal_nan=key == 'data'):
            return f'{what}: values of {key} differ'
    ll = prod['latlon']
    if list(ll.index) != ids or list(ll.columns) != ['lat', 'lon'] or \
            not np.array_equal(ll.to_numpy(), np.array([lat, lon]).T):
        return f'{what}: station table differs'
    return None


CLOSE_KEY = 'h5close-full-disk'


def swallowed(life, res, ends=('ok',)):
    """A disk error whose first effect fell inside a PyTables flush or close,
    or an interrupt that fell into the implicit close Python runs on its own."""
    d, disk = res['disk'], life.get('disk') or {}
    if res['end'] in ends and d and d['fired']:
        spans = list(res.get('del', []))
        if disk.get('kind') in ('enospc', 'eio', 'eacces'):
            spans += res.get('close', [])
        elif disk.get('kind') != 'sigint':
            spans = []
        if any(a <= d['first'] < b for a, b in spans):
            return CLOSE_KEY
    return ''


class Merge(World):
    prop = 'C02'
    batch = 2
    runs = {'quick': 800, 'thorough': 30000}
    wall = {'quick': 75, 'thorough': 3000}
    rule = ('one run = one set of daily files and a history of merge attempts disturbed by crashes, disk errors, interrupts, '
            'unreadable sources and shuffled listings, then an undisturbed retry; non-trivial when a fault fired')
    measure = 'distinct (state of target before, after, ending, kind of disk operation hit) per attempt'
    real_parts = ['hope_campaign.dataset_to_h5', 'hope_campaign.parse_file', 'iotools.getfiles', 'pandas HDF writer',
                  'PyTables', 'HDF5', 'netCDF4', 'file system through the disk shim']
    stub_parts = ['order of directory listings']
    assumptions = ['process death loses only what was not yet handed to the kernel (no power loss)',
                   'all days of a campaign have the same stations in the same order']

    def generate(self, rng, tier):
        n = rng.randint(1, 4)
        lives = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            life = {'overwrite': rng.random() < 0.6, 'listing': rng.randrange(1 << 20)}
            r = rng.random()
            if r < 0.78:
                life['disk'] = gen_disk(rng, 20 + 25 * n)
            elif r < 0.9:
                life['corrupt'] = [rng.randrange(n), rng.choice(['cut', 'cut', 'novar', 'noperm', 'empty'])]
            lives.append(life)
        return {'seed': rng.randrange(1 << 30), 'lengths': [rng.choice([1, 2, 7, 30, 60]) for _ in range(n)],
                'stations': rng.randint(1, 6), 'names': rng.choice(['plain', 'plain', 'numbered', 'case', 'odd']), 'how': gen_how(rng),
                'contiguous': rng.random() < 0.4, 'same_dir': rng.random() < 0.6,
                'pre': rng.choice(['none', 'none', 'none', 'none', 'old', 'old', 'foreign', 'empty']), 'verbose': rng.random() < 0.3, 'lives': lives}

    def directed(self, tier):
        base = {'seed': 11, 'lengths': [20, 30], 'stations': 2, 'names': 'plain', 'how': [], 'contiguous': False, 'same_dir': True, 'verbose': False}
        out = [dict(base, pre='none', lives=[{'overwrite': False, 'listing': 1, 'disk': {'kind': 'enospc', 'at': -k, 'len': 10 ** 6}}])
               for k in (1, 2, 4, 8, 12)]
        out.append(dict(base, lengths=[86400, 30000], contiguous=True, pre='none', lives=[]))
        for pre in ('none', 'old'):
            for at in (0, 10, 30, 50, -3, -2, -1):
                out.append(dict(base, pre=pre, lives=[{'overwrite': True, 'listing': 2, 'disk': {'kind': 'crash', 'at': at, 'len': 1}}]))
            out.append(dict(base, pre=pre, lives=[{'overwrite': True, 'listing': 2, 'corrupt': [1, 'cut']}]))
        return out

    def shrink(self, sc):
        L = sc['lives']
        for i in range(len(L)):
            if len(L) > 1:
                yield dict(sc, lives=L[:i] + L[i + 1:])
        n = len(sc['lengths'])
        if n > 1:
            yield dict(sc, lengths=sc['lengths'][:-1],
                       lives=[dict(x, corrupt=[min(x['corrupt'][0], n - 2), x['corrupt'][1]]) if x.get('corrupt') else x for x in L])
        if any(k > 2 for k in sc['lengths']):
            yield dict(sc, lengths=[min(k, 2) for k in sc['lengths']])
        for k, z in (('stations', 1), ('names', 'plain'), ('contiguous', False), ('how', []), ('same_dir', True), ('pre', 'none'), ('pre', 'old'), ('pre', 'foreign'), ('verbose', False)):
            if sc[k] != z:
                yield dict(sc, **{k: z})
        for i, x in enumerate(L):
            d = x.get('disk')
            if d:
                yield dict(sc, lives=L[:i] + [dict(x, disk=None)] + L[i + 1:])
                if d['len'] > 1:
                    yield dict(sc, lives=L[:i] + [dict(x, disk=dict(d, len=1))] + L[i + 1:])
                if d['at'] > 0:
                    yield dict(sc, lives=L[:i] + [dict(x, disk=dict(d, at=d['at'] // 2))] + L[i + 1:])
                    yield dict(sc, lives=L[:i] + [dict(x, disk=dict(d, at=d['at'] - 1))] + L[i + 1:])

    def execute(self, sc, run):
        days = make_days(sc['seed'], sc['lengths'], sc['stations'], names=sc['names'], contiguous=sc['contiguous'], how=sc['how'])
        src = os.path.join(run.scratch, 'src')
        os.mkdir(src)
        out = src if sc['same_dir'] else os.path.join(run.scratch, 'out')
        os.makedirs(out, exist_ok=True)
        for nm, d in days.items():
            d.write(os.path.join(src, nm))
        others = ['readme.txt', 'old.nc.bak', 'plot.ncx', 'x.NC', 'nc', 'wget.sh'][:1 + sc['seed'] % 6]
        for nm in others:
            with open(os.path.join(src, nm), 'w') as f:
                f.write('not data')
        target = os.path.join(out, 'hope.h5')
        keep = {nm: sha(os.path.join(src, nm)) for nm in list(days) + others}
        state = 'absent'
        if sc['pre'] == 'old':       # a complete product of an earlier, smaller campaign
            old = {nm: d for nm, d in list(days.items())[:1]}
            od = os.path.join(run.scratch, 'olddir')
            os.mkdir(od)
            for nm in old:
                shutil.copy(os.path.join(src, nm), os.path.join(od, nm))
            hope_campaign.dataset_to_h5(od, target, verbose=False)
            shutil.rmtree(od)
            state = 'complete'
        elif sc['pre'] in ('foreign', 'empty'):
            with open(target, 'wb') as f:
                f.write(b'something the user keeps here' if sc['pre'] == 'foreign' else b'')
            state = 'complete'
        dry = None
        lives = sc['lives'] + [{'overwrite': True, 'listing': 7, 'final': True}]
        for no, life in enumerate(lives):
            before = sha(target) if os.path.exists(target) else None
            disk = life.get('disk')
            if disk and disk['at'] < 0:
                if dry is None:
                    tmp = os.path.join(run.scratch, 'dry')
                    os.mkdir(tmp)
                    if before:
                        shutil.copy(target, os.path.join(tmp, 'hope.h5'))
                    dry = lifetime(lambda: hope_campaign.dataset_to_h5(src, os.path.join(tmp, 'hope.h5'), True, False), tmp)
                    shutil.rmtree(tmp)
                disk = dict(disk, at=max(0, (dry['disk'] or {'ops': 0})['ops'] + disk['at']))
            hurt = None
            if life.get('corrupt'):
                idx, how = life['corrupt']
                hurt = os.path.join(src, sorted(days)[idx % len(days)])
                self._hurt(hurt, how, run)
            res = lifetime(lambda: hope_campaign.dataset_to_h5(src, target, life['overwrite'], sc['verbose']), out,
                           disk=disk, net=None, listing_seed=life['listing'])
            note(run, dict(life, disk=disk), res)
            if hurt:
                run.fault('source_' + life['corrupt'][1])
                shutil.move(hurt + '~', hurt)
            after = sha(target) if os.path.exists(target) else None
            for nm, h in keep.items():
                p = os.path.join(src, nm)
                check(os.path.isfile(p) and sha(p) == h, 'source-changed', lambda: f'{nm} changed in attempt {no}')
            key = swallowed(dict(life, disk=disk), res)
            if res['end'] == 'ok':
                check(not (before and not life['overwrite']), 'existing-target-not-refused',
                      f'attempt {no} ran over an existing target without being asked to overwrite')
                check(not hurt, 'unreadable-source-accepted', f'attempt {no} reported success with an unreadable source')
                check(after is not None, 'success-without-target', f'attempt {no} reported success, no target', key)
                bad = compare_merge(target, days, f'attempt {no}')
                check(bad is None, 'merge-incomplete', bad, key)
                state = 'complete'
                run.probe('success')
            else:
                # an interrupt that arrives after the last step may leave the finished product
                done = after != before and (life['overwrite'] or not before) and not hurt and \
                    after is not None and compare_merge(target, days, '') is None
                if done:
                    run.probe('interrupted_after_completion')
                check(after == before or done, 'target-not-as-before',
                      lambda: f'attempt {no} ended {res["end"]} {res.get("exc", "")}; the target was '
                      f'{"there" if before else "absent"} and is {"there" if after else "absent"}'
                      f'{", changed" if before and after else ""}')
                if before and not life["overwrite"] and res["end"] == "exc" and harmless(dict(life, disk=disk), res) and not hurt:
                    check('ValueError' in res.get('isa', []), 'refusal-type',
                          f'existing target refused with {res["exc"]}: {res["msg"]}')
                    run.probe('refused')
                elif harmless(dict(life, disk=disk), res) and not hurt:
                    raise Violation('failure-without-fault', f'attempt {no} failed with {res.get("exc")}: {res.get("msg")}')
            hit = res['disk']['hit'] if res['disk'] else 'dead'
            run.state(bool(before), bool(after), before == after, res['end'], res.get('exc', ''), hit, len(days))
            if hit and hit != 'dead':
                run.probe('fault_hit_' + hit)

    @staticmethod
    def _hurt(path, how, run):
        shutil.copy(path, path + '~')
        size = os.path.getsize(path)
        if how == 'cut':
            with open(path, 'r+b') as f:
                f.truncate(size // 2)
        elif how == 'empty':
            open(path, 'wb').close()
        elif how == 'novar':
            clean_world_file(path)
            d = netCDF4.Dataset(path, 'w')
            d.createDimension('time', 1)
            d.close()
        else:
            with open(path, 'wb') as f:
                f.write(b'<html>error</html>')


MARK = b'kept by the operator'


class CommandLine(World):
    prop = 'C04'
    batch = 2
    runs = {'quick': 800, 'thorough': 30000}
    wall = {'quick': 75, 'thorough': 3000}
    rule = ('one run = one published campaign and a history of command-line lifetimes with chosen options and operator '
            'answers, disturbed at chosen network and disk operations, then an undisturbed one; non-trivial when a fault fired')
    measure = 'distinct (products present before and after, options, ending, kind of operation hit) per lifetime'
    real_parts = ['hope_campaign run as __main__', 'iotools', 'urllib', 'http.client', 'pandas HDF writer and reader',
                  'PyTables', 'HDF5', 'netCDF4', 'file system through the disk shim']
    stub_parts = ['TCP and TLS sockets', 'HTTP server', 'operator answers', 'order of directory listings', 'clock (sleep)']
    assumptions = ['the server states the length of a response or uses chunked coding',
                   'process death loses only what was not yet handed to the kernel (no power loss)']

    def generate(self, rng, tier):
        n = rng.randint(1, 3)
        lives = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            life = {'meta': rng.random() < 0.5, 'h5': rng.random() < 0.8, 'silent': rng.random() < 0.5,
                    'qc': rng.choice([None, 'interp', 'interp', 'null', 'flag', 'flag', 'bogus']),
                    'answers': rng.choice([['y', 'y'], ['n', 'n'], ['Y'], ['y', 'n'], ['n', 'y'], [], ['', 'x'], ['N', 'N'], ['', ''], ['no', 'no'],
                                           ['y', ''], ['', 'y'], ['nay', 'not by any means'], ['q', 'stop'], ['Y', 'no'], ['y', 'Y']]),
                    'net': gen_net(rng, n + 2, rng.choice([0.1, 0.25])) if rng.random() < 0.4 else {},
                    'listing': rng.randrange(1 << 20)}
            if rng.random() < (0.3 if life['net'] else 0.75):
                life['disk'] = gen_disk(rng, 45 + 30 * n)
            lives.append(life)
        return {'seed': rng.randrange(1 << 30), 'lengths': [rng.choice([3, 20, 40]) for _ in range(n)],
                'stations': rng.randint(1, 4), 'dataset': rng.choice(['HOPE', 'hope', 'HOPE-MELPITZ', 'Lindenberg']),
                'style': {'coding': rng.choice(['length', 'chunked']), 'segment': 0, 'range': True},
                'how': [h for h in gen_how(rng) if h != 'nan'], 'mkdir': rng.random() < 0.5, 'downloaded': rng.random() < 0.5, 'contiguous': rng.random() < 0.5,
                'final': {'meta': rng.random() < 0.6, 'qc': rng.choice(['interp', 'null', 'flag', None])}, 'lives': lives}

    def directed(self, tier):
        base = {'seed': 3, 'lengths': [20, 20], 'stations': 2, 'how': [], 'dataset': 'HOPE', 'mkdir': True, 'downloaded': True,
                'style': {'coding': 'length', 'segment': 0, 'range': True}, 'contiguous': True,
                'final': {'meta': True, 'qc': 'flag'}}
        run1 = {'meta': True, 'h5': True, 'silent': True, 'qc': 'flag', 'answers': ['y', 'y'], 'net': {}, 'listing': 4}
        out = []
        for at in (20, 50, 68, 75, 85, 95, -12, -8, -4, -2, -1):
            out.append(dict(base, lives=[dict(run1, disk={'kind': 'crash', 'at': at, 'len': 1})]))
            out.append(dict(base, lives=[run1, dict(run1, disk={'kind': 'torn', 'at': at, 'len': 1})]))
        for k in (4, 10, 14):
            out.append(dict(base, lives=[dict(run1, disk={'kind': 'enospc', 'at': -k, 'len': 10 ** 6})]))
        for said in (['n', 'n'], ['', ''], ['no', 'N'], ['y', 'no'], ['n', 'y'], ['x', ''], ['nay', 'not any']):
            out.append(dict(base, lives=[run1, dict(run1, answers=said)]))
        return out

    def shrink(self, sc):
        L = sc['lives']
        for i in range(len(L)):
            if len(L) > 1:
                yield dict(sc, lives=L[:i] + L[i + 1:])
        if len(sc['lengths']) > 1:
            yield dict(sc, lengths=sc['lengths'][:-1])
        if any(k > 3 for k in sc['lengths']):
            yield dict(sc, lengths=[3] * len(sc['lengths']))
        for k, z in (('stations', 1), ('dataset', 'HOPE'), ('how', []), ('mkdir', True), ('downloaded', True), ('contiguous', True)):
            if sc[k] != z:
                yield dict(sc, **{k: z})
        if sc['final'] != {'meta': False, 'qc': None}:
            yield dict(sc, final={'meta': False, 'qc': None})
        for i, x in enumerate(L):
            def rep(**k):
                return dict(sc, lives=L[:i] + [dict(x, **k)] + L[i + 1:])
            for k in x['net']:
                yield rep(net={a: b for a, b in x['net'].items() if a != k})
            if x['meta']:
                yield rep(meta=False)
            if x['qc']:
                yield rep(qc=None)
            d = x.get('disk')
            if d:
                yield rep(disk=None)
                if d['len'] > 1:
                    yield rep(disk=dict(d, len=1))
                if d['at'] > 0:
                    yield rep(disk=dict(d, at=d['at'] // 2))
                    yield rep(disk=dict(d, at=d['at'] - 1))

    def execute(self, sc, run):
        ds = sc['dataset']
        urls = hope_campaign.URLS[ds.upper()]
        days = make_days(sc['seed'], sc['lengths'], sc['stations'], gaps=True, contiguous=sc['contiguous'], how=sc['how'])
        pub = os.path.join(run.scratch, 'pub')
        os.mkdir(pub)
        files, listing = {}, []
        for nm, d in days.items():
            d.write(os.path.join(pub, nm))
            with open(os.path.join(pub, nm), 'rb') as f:
                files['/thredds/x/' + nm] = f.read()
            listing.append(f'wget {HOST}/thredds/x/{nm}')
        path = lambda u: '/' + u.split('://', 1)[1].split('/', 1)[1]
        files[path(urls['wget'])] = ('\n'.join(listing) + '\n').encode()
        files[path(urls['meta'])] = b'<xml>' + bytes(range(32, 127)) * 20 + b'</xml>'
        tgt = os.path.join(run.scratch, 'data', 'campaign')
        if not sc['mkdir'] or sc['downloaded']:
            os.makedirs(tgt)
        if sc['downloaded']:
            for nm in list(days)[:-1] if sc['seed'] % 2 else days:
                shutil.copy(os.path.join(pub, nm), tgt)
        low = ds.lower()
        dry = None
        lives = sc['lives'] + [dict(sc['final'], h5=True, silent=True, answers=['y', 'y', 'y'], net={}, listing=5, final=True)]
        for no, life in enumerate(lives):
            products = [low + '.h5'] + [f'{low}-qc{q}.h5' for q in ('interp', 'null', 'flag')]
            marked = [nm for nm in products if os.path.isfile(os.path.join(tgt, nm))]
            for nm in marked:        # so that writing the same product again shows
                with open(os.path.join(tgt, nm), 'ab') as f:
                    f.write(MARK)
            before = snapshot(tgt) if os.path.isdir(tgt) else {}
            argv = ['hope_campaign.py', ds, tgt] + ['-m'] * life['meta'] + ['-h5'] * life['h5'] + \
                   ['-s'] * life['silent'] + (['-q', life['qc']] if life['qc'] else [])
            disk = life.get('disk')
            if disk and disk['at'] < 0:
                tmp = os.path.join(run.scratch, 'dry')
                if os.path.isdir(tgt):
                    shutil.copytree(tgt, tmp)
                dry = lifetime(lambda: self._program(argv[:2] + [tmp] + argv[3:]), tmp, net=(files, {}, sc['style']),
                               answers=life['answers'])
                shutil.rmtree(tmp, ignore_errors=True)
                disk = dict(disk, at=max(0, (dry['disk'] or {'ops': 0})['ops'] + disk['at']))
            life = dict(life, disk=disk)
            res = lifetime(lambda: self._program(argv), tgt, disk=disk, net=(files, life['net'], sc['style']),
                           listing_seed=life['listing'], answers=life['answers'])
            note(run, life, res)
            after = snapshot(tgt) if os.path.isdir(tgt) else {}
            for nm in marked:
                p = os.path.join(tgt, nm)
                if after.get(nm) == before[nm]:
                    os.truncate(p, os.path.getsize(p) - len(MARK))
            key = swallowed(life, res, ('ok', 'exc'))      # a later step may have failed loudly
            for nm in days:
                p = os.path.join(tgt, nm)
                if nm in after:
                    check(open(p, 'rb').read() == files['/thredds/x/' + nm], 'incomplete-download', f'{nm} after lifetime {no}')
            meta = ds + '_metadata.xml'
            if meta in after:
                check(open(os.path.join(tgt, meta), 'rb').read() == files[path(urls['meta'])], 'incomplete-metadata',
                      f'metadata after lifetime {no}')
            if low + '.h5' in after:
                bad = compare_merge(os.path.join(tgt, low + '.h5'), days, f'lifetime {no}')
                check(bad is None, 'merged-product-wrong', bad, key)
            for q in ('interp', 'null', 'flag'):
                if f'{low}-qc{q}.h5' in after:
                    bad = self._compare_qc(os.path.join(tgt, f'{low}-qc{q}.h5'), q, days, f'lifetime {no}')
                    check(bad is None, 'qc-product-wrong', bad, key)
            check(low + '-qcbogus.h5' not in after, 'bogus-product', 'a product of an unknown quality control appeared')
            for nm in list(days) + [meta] + products:
                check(nm in after or nm not in before, 'product-lost', lambda: f'{nm} disappeared in lifetime {no}')
            asked = sum('prompt' in e for e in res['events'])
            said = life['answers'][:asked]
            agreed = [a.lower() == 'y' for a in said]
            # an existing merged file is asked about first, then an existing quality-controlled file
            first = life['h5'] and low + '.h5' in before
            for k, nm in enumerate(products):
                ok = any(agreed) if asked > 2 else any(agreed[:1] if k == 0 and first else [] if k == 0 else agreed[first:])
                check(ok or nm not in before or nm not in after or before[nm] == after[nm], 'overwritten-without-consent',
                      lambda: f'{nm} changed in lifetime {no} though the operator said {said}')
            if asked:
                run.probe('agreed' if any(agreed) else 'declined')
            if res['end'] == 'ok':
                run.probe('success')
                want = set(days) | ({meta} if life['meta'] else set()) | ({low + '.h5'} if life['h5'] else set())
                if life['qc']:
                    want.add(f'{low}-qc{life["qc"]}.h5')
                check(want <= set(after), 'success-without-product', lambda: f'lifetime {no} misses {sorted(want - set(after))}', key)
                check(life['qc'] != 'bogus', 'bogus-accepted', 'an unknown quality control was accepted')
            elif life.get('final'):
                raise Violation('recovery-failed', f'the undisturbed run failed: {res.get("exc")}: {res.get("msg")} in {res.get("where")}')
            elif harmless(life, res) and life['qc'] != 'bogus' and res['exc'] != 'EOFError' and \
                    (life['h5'] or not life['qc'] or low + '.h5' in before):
                raise Violation('failure-without-fault', f'lifetime {no} failed: {res.get("exc")}: {res.get("msg")}')
            run.state(sorted(before), sorted(after), tuple(argv[3:]), res['end'], res.get('exc', ''),
                      res['disk']['hit'] if res['disk'] else 'dead')

    @staticmethod
    def _program(argv):
        sys.argv = argv
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module('solarspatialtools.dataio.hope_campaign', run_name='__main__')

    @staticmethod
    def _compare_qc(path, q, days, what):
        try:
            prod, extra = read_product(path)
        except Exception as e:
            return f'{what}: {os.path.basename(path)} is not a readable product: {type(e).__name__}: {str(e)[:150]}'
        t, rs, fl, ids, lat, lon = expected_merge(days)
        cols = [[float(v) for v in rs[:, j]] for j in range(len(ids))]
        cols = [[None if v != v else v for v in c] for c in cols]
        if q == 'flag':
            cols = [[None if fl[i, j] >= 2 else v for i, v in enumerate(c)] for j, c in enumerate(cols)]
        else:
            cols = qcmodel.null_model(cols)
        if q == 'interp':
            cols = [qcmodel.fill_gaps(c, 5) for c in cols]
        want = np.array([[np.nan if v is None else v for v in c] for c in cols]).T
        df = prod['data']
        times = pd.to_datetime(t, unit='s').tz_localize('UTC')
        if extra or list(df.columns) != ids or len(df) != len(times) or not (df.index == times).all():
            return f'{what}: shape of {os.path.basename(path)}'
        got = df.to_numpy(dtype=float)
        if not np.array_equal(np.isnan(got), np.isnan(want)) or not np.allclose(got, want, rtol=1e-5, atol=0.01, equal_nan=True):
            k = np.argwhere(~((np.isnan(got) & np.isnan(want)) | np.isclose(got, want, rtol=1e-5, atol=0.01)))
            return f'{what}: {os.path.basename(path)} differs at {k[:5].tolist()} ({len(k)} values)'
        if not np.array_equal(prod['flag'].to_numpy(), fl) or list(prod['latlon'].index) != ids:
            return f'{what}: flags or station table of {os.path.basename(path)}'
        return None
