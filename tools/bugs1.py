import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from mkbug import make

SERVER = r'''
import http.server, threading, os, sys
FAIL = set()
class H(http.server.BaseHTTPRequestHandler):
    files = {}
    def do_GET(self):
        name = self.path.lstrip('/')
        if name in FAIL or name not in self.files:
            self.send_error(503); return
        b = self.files[name]
        self.send_response(200); self.send_header('Content-Length', str(len(b))); self.end_headers(); self.wfile.write(b)
    def log_message(self, *a): pass
srv = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
base = f'http://127.0.0.1:{srv.server_port}/'
for k in list(os.environ):
    if k.lower().endswith('_proxy'): del os.environ[k]
work = os.environ['WORK']
from solarspatialtools.dataio import iotools
names = ['a.nc', 'b.nc', 'c.nc']
for n in names: H.files[n] = n.encode() * 1000
H.files['wget.sh'] = ''.join(f'wget {base}{n}\n' for n in names).encode()
'''

make('c01-listed-file-skipped', 'C01',
     [['dataio/iotools.py', "        if not os.path.isfile(os.path.join(targetdir, fn)):\n",
       "        if not any(f.startswith(fn) for f in os.listdir(targetdir)):\n"]],
     'a process death in the middle of one file, then a second run', 'the left-over .part file makes a later run skip the file and report success',
     SERVER + r'''
open(os.path.join(work, 'b.nc.part'), 'wb').write(b'half')      # what a killed run leaves behind
iotools.wget_fromurl(base + 'wget.sh', work, False)
bad = [n for n in names if not os.path.isfile(os.path.join(work, n)) or open(os.path.join(work, n), 'rb').read() != H.files[n]]
print('missing or wrong:', bad)
sys.exit(bool(bad))
''')

make('c01-error-tolerated', 'C01',
     [['dataio/iotools.py', "            download(u, os.path.join(targetdir, fn))\n",
       "            try:\n                download(u, os.path.join(targetdir, fn))\n            except urllib.error.URLError:\n"
       "                print(fn + \" could not be retrieved\")\n"]],
     'an error response or refused connection for one file of the list', 'a run that reports success has not fetched every file',
     SERVER + r'''
FAIL.add('b.nc')
try:
    iotools.wget_fromurl(base + 'wget.sh', work, False)
    ok = False
except Exception as e:
    ok = True
print('an unreachable file', 'is reported' if ok else 'goes unnoticed')
sys.exit(not ok)
''')

NC = r'''
import os, sys, numpy as np, pandas as pd, netCDF4
from solarspatialtools.dataio import hope_campaign as hc
work = os.environ['WORK']
def write(name, t0, n, ids=(1, 2), lat=(50.0, 51.0), step=1, base=0.0):
    with netCDF4.Dataset(os.path.join(work, name), 'w') as d:
        d.createDimension('time', n); d.createDimension('nstations', len(ids))
        v = d.createVariable('time', 'f8', ('time',)); v[:] = t0 + step * np.arange(n)
        v = d.createVariable('station_id', 'i4', ('nstations',)); v[:] = ids
        v = d.createVariable('lat', 'f8', ('nstations',)); v[:] = lat
        v = d.createVariable('lon', 'f8', ('nstations',)); v[:] = lat
        v = d.createVariable('rsds', 'f8', ('time', 'nstations')); v[:] = base + np.arange(n * len(ids)).reshape(n, -1)
        v = d.createVariable('rsds_flag', 'i4', ('time', 'nstations')); v[:] = 1 + (np.arange(n * len(ids)).reshape(n, -1) % 3)
'''

make('c02-overlap-dropped', 'C02',
     [['dataio/hope_campaign.py', "            data, flag, latlon = parse_file(os.path.join(directory, fn))\n",
       "            data, flag, latlon = parse_file(os.path.join(directory, fn))\n"
       "            # never store the same instant of neighbouring files twice\n"
       "            if i > 0:\n                data, flag = data[data.index > last], flag[flag.index > last]\n"
       "            last = data.index.max() if len(data) else last\n"]],
     'a directory whose file-name order is not the order of time, or files that overlap', 'samples of a file are missing from the merged file',
     NC + r'''
write('a.nc', 2000000, 20, base=5)
write('b.nc', 1000000, 20)
out = os.path.join(work, 'x.h5')
hc.dataset_to_h5(work, out, verbose=False)
d = pd.read_hdf(out, 'data')
print(len(d), 'rows of 40')
sys.exit(len(d) != 40)
''')

make('c02-last-station-table', 'C02',
     [['dataio/hope_campaign.py', "            if i == 0:\n", "            if len(latlon) >= stations:\n"],
      ['dataio/hope_campaign.py', "    files = getfiles(directory, ext=\".nc\", sort=True)\n", "    files = getfiles(directory, ext=\".nc\", sort=True)\n    stations = 1  # keep the fullest table\n"]],
     'a later file whose station table differs from the first one', 'the merged file holds the station table of the last file instead of the first',
     NC + r'''
write('a.nc', 1000000, 5, lat=(50.0, 51.0))
write('b.nc', 2000000, 5, lat=(10.0, 11.0))
out = os.path.join(work, 'x.h5')
hc.dataset_to_h5(work, out, verbose=False)
d = pd.read_hdf(out, 'latlon')
print(d)
sys.exit(bool(d['lat'].iloc[0] != 50.0))
''')

make('c03-flags-by-place', 'C03',
     [['dataio/hope_campaign.py', "    datanew[flag >= level] = np.nan\n", "    datanew[flag.to_numpy() >= level] = np.nan\n"]],
     'a flag table whose sensors are listed in another order than the data', 'samples of the wrong sensor are made missing',
     r'''
import sys, numpy as np, pandas as pd
from solarspatialtools.dataio import hope_campaign as hc
t = pd.date_range('2013-06-01', periods=4, freq='1s', tz='UTC')
d = pd.DataFrame({1: [1.0, 2, 3, 4], 2: [5.0, 6, 7, 8]}, index=t)
f = pd.DataFrame({2: [1, 3, 1, 1], 1: [1, 1, 1, 1]}, index=t)
x = hc.flag_qc(d, f, 2)
print(x)
sys.exit(not (x[1].notna().all() and x[2].isna().tolist() == [False, True, False, False]))
''')


make('c04-any-answer-overwrites', 'C04',
     [['dataio/hope_campaign.py', "            if userinput.lower() == \"y\":\n", "            if userinput.lower() != \"n\":\n"]],
     'a re-run in which the operator just presses return or types "no" at the first question', 'the merged file is replaced although the operator did not agree',
     NC + r'''
import builtins
from unittest import mock
write('a.nc', 1000000, 20)
out = os.path.join(work, 'hope.h5')
hc.dataset_to_h5(work, out, verbose=False)
tgt = out
open(tgt, 'wb').write(b'precious')
hc.wget_fromurl = lambda *a: None
argv = ['x', 'hope', work, '-s', '-h5']
for answer in ('', 'no'):
    with mock.patch.object(sys, 'argv', argv), mock.patch.object(builtins, 'input', lambda *a: answer):
        hc._main()
    if open(tgt, 'rb').read() != b'precious':
        print('answer', repr(answer), 'replaced the file'); sys.exit(1)
''')


NR = r'''
import os, sys, numpy as np, pandas as pd
from solarspatialtools.dataio import nrcan_data as nr
work = os.environ['WORK']
src = os.path.join(work, 'src'); os.mkdir(src)
open(os.path.join(work, 'latlon.csv'), 'w').write('Site,Latitude,Longitude\nA,45.0,-73.0\nB,45.1,-73.1\n')
def sensor(name, times, vals):
    with open(os.path.join(src, f'20140717_{name}.csv'), 'w') as f:
        f.write('Date,Time,G1 (W/m2),G2 (W/m2)\n')
        for t, v in zip(times, vals):
            f.write(f'2014-07-17,{t},{v},{v + 1}\n')
out = os.path.join(work, 'out.h5')
def run():
    nr.process_files(src, os.path.join(work, 'latlon.csv'), out)
    return pd.read_hdf(out, 'data'), pd.read_hdf(out, 'data_tilt')
'''

make('c05-long-gap-open', 'C05',
     [['dataio/nrcan_data.py', '            gti = gti.resample("10ms").ffill()\n', '            gti = gti.resample("10ms").ffill(limit=500)\n']],
     'a sensor that does not record for more than five seconds', 'instants later in a long gap have no value on the tilted plane',
     NR + r'''
sensor('A', ['12:00:00.000', '12:00:10.000'], [5, 6])
d, t = run()
print(t['A'].isna().sum(), 'instants without value')
sys.exit(bool(t['A'].isna().any() or d['A'].isna().any()))
''')

make('c05-base-widened', 'C05',
     [['dataio/nrcan_data.py', "                data_ghi = data_ghi.assign(tmp=ghi).rename(columns=\n                                                           {'tmp': col})\n",
       "                data_ghi = data_ghi.join(ghi, how='outer')\n"]],
     'a sensor whose record reaches beyond that of the first sensor', 'the horizontal plane gets instants outside the common time base, unlike the tilted one',
     NR + r'''
sensor('A', ['12:00:00.000', '12:00:01.000'], [5, 6])
sensor('B', ['11:59:59.500', '12:00:02.000'], [7, 8])
d, t = run()
print(len(d), len(t))
sys.exit(not (len(d) == len(t) == 101))
''')

make('c05-listing-order', 'C05',
     [['dataio/nrcan_data.py', '    files = iotools.getfiles(source_dir, ".csv")\n', '    files = iotools.getfiles(source_dir, ".csv", sort=False)\n']],
     'a directory listed in another order than by name, and records of different extent', 'the common time base is that of whichever sensor is listed first',
     NR + r'''
sensor('A', ['12:00:00.000', '12:00:01.000'], [5, 6])
sensor('B', ['12:00:00.000', '12:00:03.000'], [7, 8])
real = os.listdir
os.listdir = lambda p='.': sorted(real(p), reverse=True)
d, t = run()
print(len(d), list(d.columns))
sys.exit(not (len(d) == 101 and list(d.columns) == ['A', 'B']))
''')

CM = r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import cmv, field, signalproc, spatial
def pattern(x):
    rng = np.random.RandomState(3)
    out = np.zeros_like(x, dtype=float)
    for _ in range(40):
        f = rng.uniform(0.0005, 0.004); out += np.sin(2 * np.pi * f * x + rng.uniform(0, 7))
    return 0.7 + 0.25 * np.tanh(out / 3)
def array(pos, v, th, n=3600, seed=0):
    t = pd.date_range('2020-06-01 12:00', periods=n, freq='1s')
    s = np.arange(n)
    u = (np.cos(th), np.sin(th))
    return pd.DataFrame({k: pattern(v * s - (p[0] * u[0] + p[1] * u[1])) for k, p in pos.items()}, index=t)
pos = {k: p for k, p in zip('ABCDEF', [(0, 0), (120, 10), (40, 130), (150, 160), (-90, 70), (60, -110)])}
P = pd.DataFrame(pos, index=['E', 'N']).T.astype(float)
'''

make('c06-order-of-columns', 'C06',
     [['cmv.py', "    vectors_cart = (positions.loc[pairs[:, 1]].values\n                    - positions.loc[pairs[:, 0]].values)\n",
       "    ids = ts.columns.get_indexer(pairs.ravel()).reshape(pairs.shape)\n    vectors_cart = (positions.values[ids[:, 1]]\n                    - positions.values[ids[:, 0]])\n"]],
     'time series listed in another order than the positions', 'sensors are given each other\'s positions and the motion is wrong',
     CM + r'''
d = array(pos, 10.0, 1.0)
a = cmv.compute_cmv(d, P)[:2]
b = cmv.compute_cmv(d[list('FEDCBA')], P)[:2]
print(a, b)
sys.exit(not np.allclose(a, b))
''')

make('c06-reference-first-only', 'C06',
     [['cmv.py', "            if pair[0] in must_contain or pair[1] in must_contain:\n", "            if pair[0] in must_contain:\n"]],
     'a reference sensor that is not the first in the list of positions', 'only sensors listed after the reference are paired with it: few or no pairs are left',
     CM + r'''
d = array(pos, 10.0, 1.0)
v, a, _ = cmv.compute_cmv(d, P, reference_id='F')
print(v, a)
sys.exit(not (abs(v - 10) < 0.5 and abs(a - 1) < 0.05))
''')

make('c07-both-dim', 'C07',
     [['cmv.py', "    ktinds = np.bitwise_or(np.nanmax(A, axis=0) < ktlim,\n", "    ktinds = np.bitwise_and(np.nanmax(A, axis=0) < ktlim,\n"]],
     'one sensor far below the minimum clear-sky index that otherwise sees the same clouds', 'pairs with that sensor count as good and enter the result',
     CM + r'''
d = array(pos, 10.0, 1.0)
d['C'] = d['C'] * 0.25
_, _, w = cmv.compute_cmv(d, P)
good = [tuple(p) for p, f in zip(w.allpairs, w.pair_flag) if f == cmv.Flag.GOOD and 'C' in p]
print(good)
sys.exit(bool(good))
''')

make('c07-nan-skipped', 'C07',
     [['cmv.py', "        cmv_vel = np.nanmedian(velocity)\n", "        cmv_vel = np.median(np.nan_to_num(velocity))\n"],
      ['cmv.py', "    pair_flags[np.isnan(peak_corr)] = Flag.LOWCORR\n    pair_flags[np.isnan(mean_corr)] = Flag.LOWCORR\n", "    pair_flags[np.isnan(peak_corr) & np.isnan(delay)] = Flag.LOWCORR\n    pair_flags[np.isnan(mean_corr) & np.isnan(delay)] = Flag.LOWCORR\n"]],
     'a sensor with missing samples', 'pairs of the sensor with missing samples count as good',
     CM + r'''
d = array(pos, 10.0, 1.0)
d.iloc[100:105, 2] = np.nan
bad = []
for m in ('jamaly', 'gagne'):
    _, _, w = cmv.compute_cmv(d, P, method=m)
    bad += [tuple(p) for p, f in zip(w.allpairs, w.pair_flag) if f == cmv.Flag.GOOD and 'C' in p]
print(bad)
sys.exit(bool(bad))
''')

make('c08-dead-sensor-ranks-top', 'C08',
     [['signalproc.py', "    mean_coh = (np.nansum(tfcoh.values[freq_ix, :], axis=0)\n                / np.nansum(freq_ix))\n", "    mean_coh = np.mean(tfcoh.values[freq_ix, :], axis=0)\n"]],
     'a sensor with a dead signal, comparison by coherence over both motions', 'the coherence of the dead sensor is undefined and sorted above all others, so that the sensor under test is averaged into its own prediction',
     CM + r'''
pos = {f'S{i}{j}': (60.0 * i, 60.0 * j) for i in range(4) for j in range(4)}
P = pd.DataFrame(pos, index=['E', 'N']).T.astype(float)
a, b = array(pos, 8.0, 0.3), array(pos, 8.0, 1.9)
a['S33'] = b['S33'] = np.nan
vec = [spatial.pol2rect(8.0, 0.3), spatial.pol2rect(8.0, 1.9)]
out = []
for shift in (0.0, 300.0):
    Q = P.copy(); Q.loc['S11', 'E'] += shift
    p, _ = field.compute_predicted_position([a, b], Q, 'S11', vec, mode='global_coherence')
    out.append(p)
print(out)
sys.exit(not np.abs(out[0] - out[1]).max() < 1)
''')

make('c09-squared-distance', 'C09',
     [['field.py', "                C[i, j] = np.sqrt((E_plan[i] - E_delay[j]) ** 2 +\n                                  (N_plan[i] - N_delay[j]) ** 2\n                                  )\n",
       "                C[i, j] = ((E_plan[i] - E_delay[j]) ** 2 +\n                           (N_plan[i] - N_delay[j]) ** 2)\n"]],
     'predictions for which the assignments of least total distance and least total squared distance differ', 'the assignment does not minimise the total distance',
     r'''
import sys, itertools, numpy as np, pandas as pd
from solarspatialtools import field
rng = np.random.RandomState(1)
for k in range(200):
    o = pd.DataFrame(rng.uniform(0, 100, (5, 2)), index=list('ABCDE'), columns=['E', 'N'])
    p = o + rng.normal(0, 40, (5, 2))
    r, out = field.assign_positions(o, p)
    cost = lambda perm: sum(np.hypot(*(o.values[perm[j]] - p.values[j])) for j in range(5))
    got = np.hypot(*(out.values - p.values).T).sum()
    best = min(cost(x) for x in itertools.permutations(range(5)))
    if got > best + 1e-9:
        print('case', k, got, best); sys.exit(1)
''')

make('c09-cascade-order', 'C09',
     [['field.py', "        G[key] = A[B[key]]\n", "        G[key] = A[B[key]] if B[key] != key else B[A[key]]\n"]],
     'a second remapping that leaves a sensor in place while another moves', 'two sensors get the same position',
     r'''
import sys
from solarspatialtools import field
r1 = [('A', 'B'), ('B', 'C'), ('C', 'A')]
r2 = [('A', 'A'), ('B', 'C'), ('C', 'B')]
out = field.cascade_remap(r1, r2)
print(out)
sys.exit(sorted(v for _, v in out) != ['A', 'B', 'C'])
''')

make('c10-stop-at-bad-pair', 'C10',
     [['signalproc.py', "            # xcorr, _ = correlation(ts_inm[i, :], ts_outm[i, :], 'none')\n", "            if np.isnan(xcorr[0]):\n                break  # nothing to find in missing samples\n"]],
     'a batch in which a pair with missing samples comes before good ones', 'pairs listed after the bad pair get zero delay',
     CM + r'''
d = array(pos, 10.0, 1.0, n=300)
a, b = d[['A', 'B']].copy(), d[['C', 'D']].copy()
one, _ = signalproc.compute_delays(a[['B']], b[['D']])
a.iloc[5, 0] = np.nan
both, _ = signalproc.compute_delays(a, b)
print(both, one)
sys.exit(bool(both[1] != one[0]))
''')

make('c11-pairs-shared', 'C11',
     [['cmv.py', "@np.errstate(divide='ignore', invalid='ignore')\ndef compute_cmv",
       "_PAIRS = {}\n\n\ndef _site_pairs(points, refs):\n    key = repr((points, refs))\n"
       "    if key not in _PAIRS:\n        _PAIRS[key] = _get_pairs(points, refs, replacement=True)\n    return _PAIRS[key]\n\n\n"
       "@np.errstate(divide='ignore', invalid='ignore')\ndef compute_cmv"],
      ['cmv.py', "    pairs = _get_pairs(point_ids, ref_ids, replacement=True)\n", "    pairs = _site_pairs(point_ids, ref_ids)\n"]],
     'a caller that changes the pair list of an earlier result', 'a later call for the same sensors works with the changed pairs',
     CM + r'''
d = array(pos, 10.0, 1.0)
v1, a1, w = cmv.compute_cmv(d, P)
w.allpairs[:] = w.allpairs[::-1].copy()
w.allpairs[:, 1] = 'A'
v2, a2, _ = cmv.compute_cmv(d, P)
print(v1, a1, v2, a2)
sys.exit(not (v1 == v2 and a1 == a2))
''')

make('c11-centers-in-place', 'C11',
     [['signalproc.py', "    centers = np.array(centers).flatten()\n", "    centers = np.asarray(centers).reshape(-1)\n"]],
     'centres given as an array together with a reference centre', 'the caller\'s array of centres is shifted',
     r'''
import sys, numpy as np
from solarspatialtools import signalproc
c = np.array([10.0, 20.0, 30.0])
signalproc.get_1d_plant(c, ref_center=20.0, width=5, dx=1, xmax=200)
print(c)
sys.exit(c.tolist() != [10.0, 20.0, 30.0])
''')

make('c11-shared-details', 'C11',
     [['cmv.py', "        method_out = {\n            'pcov': None,  # Covariance matrix from least squares\n        }\n", "        method_out = _GAGNE_OUT\n"],
      ['cmv.py', "def _validate_method_options(method, options):\n", "_GAGNE_OUT = {'pcov': None}  # Covariance matrix from least squares\n\n\ndef _validate_method_options(method, options):\n"]],
     'a second call with method gagne after the first, or at the same time', 'the details of an earlier result become those of the later call',
     CM + r'''
import copy
a = cmv.compute_cmv(array(pos, 10.0, 1.0), P, method='gagne')[2]
keep = copy.deepcopy(a.method_data)
b = cmv.compute_cmv(array(pos, 4.0, 2.0), P, method='gagne')[2]
print(keep, a.method_data)
sys.exit(repr(keep) != repr(a.method_data) or a.method_data is b.method_data)
''')

make('c12-filters-left', 'C12',
     [['field.py', "    combined_data = []\n\n    if cld_vecs is None:\n", "    combined_data = []\n    warnings.simplefilter('ignore', RuntimeWarning)\n\n    if cld_vecs is None:\n"]],
     'any completed call', 'warnings stay switched off for the rest of the program',
     CM + r'''
import warnings
warnings.resetwarnings()
a, b = array(pos, 8.0, 0.3), array(pos, 8.0, 1.9)
before = list(warnings.filters)
field.compute_predicted_position([a, b], P, 'A', [spatial.pol2rect(8.0, 0.3), spatial.pol2rect(8.0, 1.9)], mode='all')
print(len(before), len(warnings.filters))
sys.exit(warnings.filters != before)
''')

make('c12-interrupt-swallowed', 'C12',
     [['cmv.py', "        except ValueError:\n            r_corr = 0\n", "        except BaseException:  # the line fit is only a diagnostic\n            r_corr = 0\n"]],
     'an operator interrupt during the final line fit', 'the interrupt is swallowed and the call runs on',
     CM + r'''
def stop(*a): raise KeyboardInterrupt
cmv.linregress = stop
try:
    cmv.compute_cmv(array(pos, 10.0, 1.0), P)
    print('interrupt was swallowed'); sys.exit(1)
except KeyboardInterrupt:
    sys.exit(0)
''')

make('c13-seed-zero', 'C13',
     [['synthirrad/copula.py', "    rng = np.random.default_rng(random_state)\n", "    rng = np.random.default_rng(random_state or None)\n"]],
     'seed zero', 'a run seeded with zero is not reproducible',
     r'''
import sys, numpy as np, pandas as pd
from solarspatialtools.synthirrad import copula
t = pd.date_range('2020-06-01', periods=5, freq='10s')
f = lambda: copula.downscale(t, np.array([0.0, 50]), np.array([0.0, 0]), 5.0, 0.0, 0.5, copula.DEFAULT_PARAMS, seed=0)
sys.exit(not np.array_equal(f(), f()))
''')

make('c13-hour-seeds', 'C13',
     [['synthirrad/copula.py', "        cm = downscale(time, e_pos, n_pos, cld_s, cld_d, csi, param, seed,\n", "        cm = downscale(time, e_pos, n_pos, cld_s, cld_d, csi, param,\n                       None if seed is None else seed + i * (i > 1),\n"]],
     'a seeded run of three or more hours', 'hours after the second are not the single-hour runs with the same seed',
     r'''
import sys, numpy as np, pandas as pd
from solarspatialtools.synthirrad import copula
t = pd.date_range('2020-06-01', periods=5, freq='10s')
e, n = np.array([0.0, 50]), np.array([0.0, 0])
m = copula.downscale_multihour(t, e, n, 5.0, 0.0, [0.5, 0.6, 0.7, 0.5], copula.DEFAULT_PARAMS, seed=4)
o = copula.downscale(t, e, n, 5.0, 0.0, 0.7, copula.DEFAULT_PARAMS, seed=4)
sys.exit(not np.allclose(m[10:15], o))
''')

make('c14-seconds-only', 'C14',
     [['spatial.py', "    dur = (times-t0).total_seconds().values\n", "    dur = np.asarray((times-t0).seconds, dtype=float)\n"]],
     'a time base finer than a second, or longer than a day', 'clouds stand still within each second',
     r'''
import sys, numpy as np, pandas as pd
from solarspatialtools.synthirrad import copula
t = pd.date_range('2020-06-01', periods=5, freq='500ms')
x = copula.downscale(t, np.array([0.0, 2.5]), np.array([0.0, 0]), 5.0, 0.0, 0.5, copula.DEFAULT_PARAMS, seed=1, scale=False, noneg=False)
d = np.abs(x[1:, 1] - x[:-1, 0]).max()
print(d)
sys.exit(not d < 1e-3)
''')

make('c14-clip-after', 'C14',
     [['synthirrad/copula.py', "    if noneg:\n        cm[cm < 0] = 0\n\n    if scale:\n        cm *= mean_csi / np.mean(cm)\n", "    if scale:\n        cm *= mean_csi / np.mean(cm)\n\n    if noneg:\n        cm[cm < 0] = 0\n"]],
     'a stream in which some samples are negative', 'the mean is not the requested one when clipping is on',
     r'''
import sys, numpy as np, pandas as pd
from solarspatialtools.synthirrad import copula
t = pd.date_range('2020-06-01', periods=50, freq='60s')
worst = 0
for seed in range(60):
    x = copula.downscale(t, np.array([0.0, 900]), np.array([0.0, 0]), 15.0, 0.0, 0.25, copula.DEFAULT_PARAMS, seed=seed)
    worst = max(worst, abs(x.mean() - 0.25))
print(worst)
sys.exit(not worst < 1e-9)
''')

make('c15-edges-counted-twice', 'C15',
     [['synthirrad/cloudfield.py', "                - np.sum(ce[np.bitwise_and(edge_mask > 0, clear_mask==0)]))\n", "                - np.sum(ce[edge_mask > 0]))\n"]],
     'any field with edges reaching into the clear part', 'the mean of the field is not the requested one although it can be reached',
     r'''
import sys, numpy as np
from solarspatialtools.synthirrad import cloudfield
np.random.seed(3)
f = cloudfield.cloudfield_timeseries(np.array([0.5, 0.5]), [3, 5], (200, 100), 0.2, 0.6, 1.2, 0.1, scaling='original')
print(f.mean())
sys.exit(not abs(f.mean() - 0.6) < 1e-6)
''')

