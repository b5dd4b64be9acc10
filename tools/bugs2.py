"""Second set of planted bugs (C03 to C23); see bugs1.py."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from mkbug import make
src = open(os.path.join(os.path.dirname(__file__), 'bugs1.py')).read()
def block(name):
    i = src.index(name + " = r'''")
    return src[i + len(name) + 7:src.index("'''", i + len(name) + 7)]
NC, NR, CM = block('NC'), block('NR'), block('CM')
H, N, S, F, C, ST = 'dataio/hope_campaign.py', 'dataio/nrcan_data.py', 'signalproc.py', 'field.py', 'cmv.py', 'stats.py'
P, K, SP, IR = 'synthirrad/copula.py', 'synthirrad/cloudfield.py', 'spatial.py', 'irradiance.py'

make('c03-flag-fill', 'C03', [[H, "    datanew[flag >= level] = np.nan", "    datanew[flag.ffill() >= level] = np.nan"]],
     'flags that were not delivered for some samples', 'samples without a flag inherit the flag before and are made missing', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools.dataio import hope_campaign as hc
t = pd.date_range('2013-06-01', periods=4, freq='1s', tz='UTC')
x = hc.flag_qc(pd.DataFrame({1: [1.0, 2, 3, 4]}, index=t), pd.DataFrame({1: [1, 3, np.nan, 1]}, index=t), 2)
print(x[1].tolist())
sys.exit(int(bool(not (x[1].isna().tolist() == [False, True, False, False]))))
''')

make('c05-asfreq', 'C05', [[N, '            ghi = ghi.resample("10ms").ffill()\n', '            ghi = ghi.resample("10ms").asfreq().ffill()\n']] ,
     'readings that do not fall on whole hundredths of a second', 'values are lost or older than the latest reading', NR + r'''
sensor('A', ['12:00:00.000', '12:00:00.013', '12:00:00.020', '12:00:00.047', '12:00:00.060'], [1, 2, 3, 4, 5])
d, t = run()
print(d['A'].tolist())
sys.exit(int(bool(d['A'].tolist() != [1, 1, 3, 3, 3, 4, 5])))
''')

make('c07-mean-lim', 'C07', [[C, "        var_s0 = 1 - np.nanmean(A, axis=0) / np.nanmax(A, axis=0)", "        var_s0 = 1 - np.nanmean(A, axis=0) / np.nanmax(A)"]],
     'a hardly varying pair of sensors next to much brighter ones', 'a pair without variation passes the variation limit because of another sensor', CM + r'''
d = array(pos, 10.0, 1.0)
d['A'] = 0.6 + (d['A'] - 0.7) * 0.02
_, _, w = cmv.compute_cmv(d, P, options={'var_s_lim': 0.05})
good = [tuple(p) for p, f in zip(w.allpairs, w.pair_flag) if f == cmv.Flag.GOOD and 'A' in p]
print(good)
sys.exit(int(bool(bool(good))))
''')

make('c08-nearest-left-out', 'C08', [[F, "        ix = separations.sort_values('sep').iloc[:ndownsel, :].index", "        ix = separations.sort_values('sep').iloc[1:ndownsel, :].index"]],
     'comparison by distance, and a combiner whose recorded position is wrong', 'the share of the recorded position in the prediction is lost', CM + r'''
pos = {f'S{i}{j}': (60.0 * i + 7 * j, 60.0 * j - 5 * i) for i in range(4) for j in range(4)}
P = pd.DataFrame(pos, index=['E', 'N']).T.astype(float)
a, b = array(pos, 8.0, 0.3), array(pos, 8.0, 1.9)
vec = [spatial.pol2rect(8.0, 0.3), spatial.pol2rect(8.0, 1.9)]
_, dat = field.compute_predicted_position([a, b], P, 'S11', vec, mode='distance', ndownsel=5)
print(dat[0].index.tolist())
sys.exit(int(bool('S11' not in dat[0].index)))
''')

make('c08-global-one-day', 'C08', [[F, "        truecoh = combined_data[0]['coh'] ** 2 + combined_data[1]['coh'] ** 2", "        truecoh = np.fmax(combined_data[0]['coh'], combined_data[1]['coh'])"]],
     'a combiner that is dead on one of the two days, comparison by coherence over both', 'a combiner without signal on one day is compared with', CM + r'''
pos = {f'S{i}{j}': (60.0 * i + 7 * j, 60.0 * j - 5 * i) for i in range(4) for j in range(4)}
P = pd.DataFrame(pos, index=['E', 'N']).T.astype(float)
a, b = array(pos, 8.0, 0.3), array(pos, 8.0, 1.9)
rng = np.random.RandomState(0)
a['S12'] = a['S11']; b['S12'] = rng.normal(0.5, 0.1, len(b))
vec = [spatial.pol2rect(8.0, 0.3), spatial.pol2rect(8.0, 1.9)]
_, dat = field.compute_predicted_position([a, b], P, 'S11', vec, mode='global_coherence', ndownsel=4)
print(dat[0].index.tolist())
sys.exit(int(bool('S12' in dat[0].index)))
''')

make('c09-only-asked-columns', 'C09', [[F, "        for column in columns:\n            data_fix.loc[item[0], column] = data[column][item[1]]", "        data_fix.loc[item[0]] = data.loc[item[1]]"]],
     'a table with further columns, some of which were not asked for', 'columns that were not asked for are moved as well', r'''
import sys, pandas as pd
from solarspatialtools import field
t = pd.DataFrame({'E': [0.0, 1.0], 'N': [2.0, 3.0], 'serial': [7.0, 8.0]}, index=['A', 'B'])
x = field.remap_positions(t, [('A', 'B'), ('B', 'A')], columns=['E', 'N'])
print(x)
sys.exit(int(bool(x['serial'].tolist() != [7.0, 8.0] or x['E'].tolist() != [1.0, 0.0])))
''')

make('c10-weak-is-none', 'C10', [[S, "    delay[extras['peak_corr'] < 1e-10] = 0", "    delay[extras['peak_corr'] < 1e-3] = 0"]],
     'records of small amplitude and correlation without scaling', 'the delay of small signals is reported as zero', CM + r'''
d = array(pos, 10.0, 1.0, n=300)
d = (d - d.mean()) * 1e-3
a, _ = signalproc.compute_delays(d[['A']], d[['D']], scaling='none')
b, _ = signalproc.compute_delays(d[['A']] * 1e3, d[['D']] * 1e3, scaling='none')
print(a, b)
sys.exit(int(bool(bool(a[0] != b[0]))))
''')

make('c12-filter-once', 'C12', [[F, "        from warnings import warn\n        warn(\"Warning: Some NaN", "        from warnings import warn, simplefilter\n        simplefilter('once')\n        warn(\"Warning: Some NaN"]],
     'an assignment with missing predictions', 'every later warning of the program is shown only once', r'''
import sys, warnings, numpy as np, pandas as pd
from solarspatialtools import field
o = pd.DataFrame({'E': [0.0, 1, 2], 'N': [0.0, 1, 2]}, index=list('ABC'))
p = o.copy(); p.loc['B'] = np.nan
before = list(warnings.filters)
field.assign_positions(o, p)
sys.exit(int(bool(warnings.filters != before)))
''')

make('c14-first-parameters', 'C14', [[P, "        param = params[i] if multi_params_mode else params", "        param = params[0] if multi_params_mode else params"]],
     'parameters given per hour', 'all hours use the parameters of the first', r'''
import sys, copy, numpy as np, pandas as pd
from solarspatialtools.synthirrad import copula
t = pd.date_range('2020-06-01', periods=6, freq='10s')
e, n = np.array([0.0, 300]), np.array([0.0, 100])
q = copy.deepcopy(copula.DEFAULT_PARAMS)
q = {k: (v * 0.5 if isinstance(v, float) else v) for k, v in q.items()}
m = copula.downscale_multihour(t, e, n, 5.0, 0.0, [0.5, 0.5], [copula.DEFAULT_PARAMS, q], seed=4)
o = copula.downscale(t, e, n, 5.0, 0.0, 0.5, q, seed=4)
sys.exit(int(bool(not np.allclose(m[6:], o))))
''')

make('c15-clear-over-edges', 'C15', [[K, "    clouds5[edge_mask > 0] = ce[edge_mask > 0]\n    clouds5[clear_mask > 0] = 1\n", "    clouds5[clear_mask > 0] = 1\n    clouds5[edge_mask > 0] = ce[edge_mask > 0]\n"]],
     'a field whose cloud edges and clear patches touch', 'places that are clear get the brightness of a cloud edge', r'''
import sys, numpy as np
from solarspatialtools.synthirrad import cloudfield as cf
field = np.random.RandomState(0).rand(24, 24)
clear = np.zeros((24, 24)); clear[5:12, 5:12] = 1
edge = np.zeros((24, 24)); edge[9:15, 9:15] = 1
out = cf._scale_field_lave(field, clear, edge, 0.6)
print(out[9:12, 9:12])
sys.exit(int(bool(bool((out[9:12, 9:12] != out[6, 6]).any()))))
''')

make('c16-south-by-degree', 'C16', [[SP, "    south = origin_lat < 0", "    south = round(origin_lat) < 0"]],
     'an origin less than half a degree south of the equator', 'sites come back ten thousand kilometres away', r'''
import sys, numpy as np
from solarspatialtools import spatial
e, n, *_ = np.ravel(spatial.latlon2lcs(-0.31, 10.02, -0.3, 10.0))
la, lo = np.ravel(spatial.lcs2latlon(e, n, -0.3, 10.0))[:2]
print(la, lo)
sys.exit(int(bool(not (abs(la + 0.31) < 1e-6 and abs(lo - 10.02) < 1e-6))))
''')

make('c17-ramps-filled', 'C17', [[ST, "    darr_val = np.abs(series.diff(tau)).sum(axis=0)", "    darr_val = np.abs(series.ffill().diff(tau)).sum(axis=0)"]],
     'a record with missing samples', 'the ramp rate counts ramps across missing samples as if they were recorded', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import stats
t = pd.date_range('2020-06-01', periods=8, freq='1s')
x = pd.Series([1.0, 2, np.nan, np.nan, 9, 8, 7, 7], index=t)
v = float(np.ravel(stats.darr(x, tau=1, moving_avg=False))[0]) if hasattr(stats, 'darr') else 0
print(v)
sys.exit(int(bool(abs(v - 3.0) > 1e-9)))
''')

make('c17-rank-of-all', 'C17', [[ST, "    vs = (x.abs() * (1. - x.abs().rank(pct=True))).max(axis=0)", "    vs = (x.abs() * (1. - x.abs().rank() / len(x))).max(axis=0)"]],
     'a record with missing samples or a lag above one', 'missing differences count as calm: the variability score is too high', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import stats
t = pd.date_range('2020-06-01', periods=50, freq='1s')
x = pd.Series(np.random.RandomState(1).uniform(0, 900, 50), index=t)
y = x.copy(); y.iloc[:10] = np.nan
a = float(np.ravel(stats.variability_score(y, tau=1, moving_avg=False))[0])
b = float(np.ravel(stats.variability_score(x.iloc[10:], tau=1, moving_avg=False))[0])
d = x.iloc[10:].diff().dropna().abs().to_numpy()
r = np.array([(d <= v).mean() for v in d])
print(a, b, (d * (1 - r)).max())
sys.exit(int(bool(abs(a - (d * (1 - r)).max()) > 1e-6 * a)))
''')

make('c18-slow-clouds', 'C18', [[S, "spatialdt = dx / np.abs(cloud_speed)", "spatialdt = dx / max(np.abs(cloud_speed), 1.0)"]],
     'clouds slower than 1 m/s', 'the filter belongs to clouds of 1 m/s', r'''
import sys, numpy as np
from solarspatialtools import signalproc
x = np.arange(-50, 50, 1.0)
f = signalproc.plant1d_to_camfilter((np.abs(x) < 5).astype(float), x, 0.5)
print(f.index.max())
sys.exit(int(bool(abs(f.index.max() - 0.5 * 49 / 100) > 1e-9)))
''')

make('c18-gauss-width', 'C18', [[S, "(w/2.355)**2", "(w/2)**2"]],
     'sites of gaussian shape', 'the sites are wider than asked for', r'''
import sys, numpy as np
from solarspatialtools import signalproc
p, x = signalproc.get_1d_plant([0.0], shape='gaussian', width=40, dx=1, xmax=400)
print(np.interp(20.0, x, p))
sys.exit(int(bool(abs(np.interp(20.0, x, p) - 0.5) > 0.01)))
''')

make('c18-magnitude', 'C18', [[S, "    filtered_sig = np.real(filtered_sig)", "    filtered_sig = np.abs(filtered_sig)"]],
     'a signal that is negative at times, as deviations from a mean are', 'the filtered signal is rectified', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import signalproc
t = pd.date_range('2020-06-01', periods=400, freq='1s')
s = pd.Series(np.sin(np.arange(400) * 2 * np.pi / 50), index=t)
f = pd.Series(np.ones(301, complex), index=np.linspace(-0.6, 0.6, 301))
y = signalproc.apply_filter(s, f)
print(np.abs(y - s).max())
sys.exit(int(bool(bool(np.abs(y - s).max() > 1e-6))))
''')

make('c19-one-way', 'C19', [[C, "        dots = -np.array([np.abs(dot(cmv_vecs.T, ideal_vec))", "        dots = -np.array([dot(cmv_vecs.T, ideal_vec)"]],
     'motions on both sides of the half circle', 'opposite motions count as badly aligned and poorer sets are chosen', r'''
import sys, numpy as np
from solarspatialtools import cmv
worst = 0
for k in range(30):
    rng = np.random.RandomState(k)
    a = rng.uniform(0, 2 * np.pi, 8)
    def quality(ix, n=3):
        best = 0
        import itertools
        for z in np.linspace(0, np.pi / n, 61):
            m = np.abs(np.cos(np.subtract.outer(a[list(ix)], z + np.arange(n) * np.pi / n)))
            best = max(best, max(sum(m[i, p[i]] for i in range(n)) for p in itertools.permutations(range(n))))
        return best / n
    import itertools
    got = quality(cmv.optimum_subset(np.cos(a) * 5, np.sin(a) * 5, n=3))
    best = max(quality(c) for c in itertools.combinations(range(8), 3))
    worst = max(worst, best - got)
print(worst)
sys.exit(int(bool(worst > 0.05)))
''')

make('c20-bridged', 'C20', [[IR, "        return ghi.apply(lambda x:", "        return ghi.interpolate(limit=1).apply(lambda x:"]],
     'a table of sensors with single missing samples', 'indices are invented for samples that were not recorded', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import irradiance
t = pd.date_range('2020-06-01', periods=4, freq='1s')
g = pd.DataFrame({'a': [100.0, np.nan, 300, 400]}, index=t)
x = irradiance.clearsky_index(g, pd.Series(500.0, index=t))
one = irradiance.clearsky_index(g['a'], pd.Series(500.0, index=t))
print(x['a'].tolist(), one.tolist())
sys.exit(int(bool(not np.array_equal(x['a'], one, equal_nan=True))))
''')

make('c21-recent-only', 'C21', [[ST, "        p90 = piv.quantile(quantile, axis=1)", "        p90 = piv.quantile(quantile, axis=1).where(piv.count(axis=1) > 1)"]],
     'a time of day recorded on only one day of the window', 'no value is given there although one was recorded', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import stats
t = pd.date_range('2020-06-01', periods=24 * 5, freq='1h')
x = pd.Series(np.arange(120.0), index=t, name='p')
x[(x.index.hour == 7) & (x.index.day != 2)] = np.nan
y = stats.calc_quantile(x, '3d', 0.9).iloc[:, 0]
v = y['2020-06-04 07:00']
print(v)
sys.exit(int(bool(not v == 31.0)))
''')

make('c21-not-dark', 'C21', [[ST, "        p90 = piv.quantile(quantile, axis=1)", "        p90 = piv.where(piv > 0).quantile(quantile, axis=1)"]],
     'samples that are zero or negative, as at night', 'the quantile ignores them', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import stats
t = pd.date_range('2020-06-01', periods=24 * 6, freq='1h')
x = pd.Series(0.0, index=t, name='p'); x['2020-06-02 07:00'] = 50.0
y = stats.calc_quantile(x, '3d', 0.5).iloc[:, 0]
print(y.dropna().unique())
sys.exit(int(bool(not (y['2020-06-04 07:00'] == 0.0 and y['2020-06-04 03:00'] == 0.0))))
''')

make('c22-sorted-names', 'C22', [[F, "        remap_indices = list(zip(original_pos.index[col_ind],\n                                 original_pos.index[row_ind]))",
      "        names = original_pos.index.sort_values()\n        remap_indices = list(zip(names[col_ind],\n                                 names[row_ind]))"]],
     'a plan that does not list its combiners in order of their names', 'combiners are given each other\'s places', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import field
o = pd.DataFrame({'E': [0.0, 10, 20], 'N': [0.0, 0, 0]}, index=['C', 'A', 'B'])
p = pd.DataFrame({'E': [10.0, 0, 20], 'N': [1.0, 1, 1]}, index=['C', 'A', 'B'])
r, _ = field.assign_positions(o, p)
print(sorted(r))
sys.exit(int(bool(dict(r) != {'C': 'A', 'A': 'C', 'B': 'B'})))
''')

make('c22-plan-corner', 'C22', [[F, "                                            pos_utm.loc[ref][['E', 'N']])", "                                            pos_utm.iloc[0][['E', 'N']])"]],
     'a combiner that is not the first of the plan', 'predictions are shifted by its distance from the first', CM + r'''
a, b = array(pos, 8.0, 0.3), array(pos, 8.0, 1.9)
vec = [spatial.pol2rect(8.0, 0.3), spatial.pol2rect(8.0, 1.9)]
p, _ = field.compute_predicted_position([a, b], P, 'D', vec, ndownsel=5)
print(p, pos['D'])
sys.exit(int(bool(not np.hypot(*(p - np.array(pos['D']))) < 25)))
''')

make('c23-other-detrend', 'C23', [[S, """window=window,
                              nperseg=nperseg, detrend=detrend,
                              noverlap=noverlap)""", """window=window,
                              nperseg=nperseg, detrend='constant',
                              noverlap=noverlap)"""]],
     'a detrending other than the default', 'response and coherence mix differently detrended spectra', r'''
import sys, numpy as np, pandas as pd
from solarspatialtools import signalproc
t = pd.timedelta_range('0s', periods=600, freq='1s')
x = pd.Series(np.random.RandomState(2).normal(size=600).cumsum(), index=t, name='x')
tf, coh = signalproc.averaged_tf(x, x, 5, 0.5, 'hamming', 'linear')
m = np.abs(np.asarray(tf, complex).ravel()[1:] - 1).max()
print(m)
sys.exit(int(bool(bool(m > 1e-6))))
''')

