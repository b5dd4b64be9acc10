"""The analysis calls an application makes, with fresh or shared arguments, and
the means to compare what they return and to fingerprint what they were given."""
import enum
import hashlib
import random

import numpy as np
import pandas as pd

from dst.worlds.sky import Sky, record, table
from solarspatialtools import cmv, field, irradiance, signalproc, spatial, stats
from solarspatialtools.dataio import hope_campaign
from solarspatialtools.synthirrad import cloudfield, copula


LABELS = [['p1', 'p2', 'p3', 'p4', 'p5'], [11, 12, 13, 14, 15], ['b', 'a', 'e', 'c', 'd']]
ROWS, STEP = (240, 200, 301), (1.0, 2.0, 1.0, 0.5)         # records of different length and step


class Inventory(dict):
    """One application's tables, arrays and option dictionaries, made when first asked for."""

    def __init__(self, seed):
        super().__init__()
        self.seed = seed
        pick = random.Random(f'size{seed}')
        self.rows, self.step = pick.choice(ROWS), pick.choice(STEP)

    def __missing__(self, key):
        rng = random.Random(f'inv{self.seed}/{key}')
        r = np.random.RandomState(rng.randrange(1 << 31))
        self[key] = out = MAKE[key](self, rng, r)
        return out

    def prints(self):
        return {k: fingerprint(v) for k, v in self.items()}

    def changed(self, prints):
        """Names of what differs from its fingerprint, with the first difference."""
        odd = [k for k in sorted(prints) if fingerprint(self[k]) != prints[k]]
        if not odd:
            return ''
        fresh = Inventory(self.seed)
        return f'{odd}: {differ(canon(self[odd[0]]), canon(fresh[odd[0]]), 0, odd[0])}'


inventory = Inventory


def _dfs(i, rng, r):
    out = []
    for k in (0, 1):
        sky = Sky(f'{i.seed}/{k}', size=40.0, octaves=2, depth=0.35, nwaves=12)
        out.append(table(record(sky, i['xy'], i['vecs_arr'][k], np.arange(i.rows) * i.step), i['labels'], i.step))
    return out


def _holes(i, rng, r):
    h = i['dfs'][1].copy()
    for j in range(h.shape[1]):
        s = rng.randrange(i.rows - 20)
        h.iloc[s:s + rng.randint(1, 12), j] = np.nan
    return h


def _raw(i, rng, r):
    raw = i['dfs'][0] * 900
    raw.iloc[rng.randrange(i.rows), 1] = -999.0
    return raw


def _pred_nan(i, rng, r):
    p = i['pred'].copy()
    p.iloc[rng.randrange(len(p))] = np.nan
    return p


def _vecs(i, rng, r):
    out = []
    for _ in (0, 1):
        th = rng.uniform(0, 6.28)
        out.append(rng.uniform(4, 9) * np.array([np.cos(th), np.sin(th)]))
    return np.array(out)


def _remap(i, rng, r):
    p = list(i['labels'])
    rng.shuffle(p)
    return sorted(zip(i['labels'], p), key=lambda t: str(t[0]))


def _days(i, rng, r):
    days = pd.date_range('2014-03-01', periods=12 * 24, freq='h')
    return pd.Series(np.abs(r.normal(500, 200, len(days))), index=days, name='ghi')


def _tf(i, rng, r):
    f = np.fft.fftfreq(i.rows, i.step)
    return pd.DataFrame({'tf': np.exp(-2j * np.pi * f * rng.choice([3.0, 1.5])) / (1 + 4 * np.abs(f))}, index=f)


def _params(i, rng, r):
    # the published parameters, or a user's own
    p = {k: (list(v) if isinstance(v, list) else v) for k, v in copula.DEFAULT_PARAMS.items()}
    if rng.random() < 0.5:
        for k, v in p.items():
            if isinstance(v, float):
                p[k] = v * 1.1
    return p


_FPOS = np.linspace(0, 0.5, 41)
MAKE = {
    'labels': lambda i, rng, r: list(rng.choice(LABELS)),
    'xy': lambda i, rng, r: np.array([[rng.uniform(0, 60), rng.uniform(0, 60)] for _ in range(5)]),
    'vecs_arr': _vecs,
    'vecs': lambda i, rng, r: [tuple(float(x) for x in v) for v in i['vecs_arr']],
    'dfs': _dfs,
    'kt': lambda i, rng, r: i['dfs'][0].copy(),
    'holes': _holes,
    'flags': lambda i, rng, r: pd.DataFrame(r.randint(0, 4, (i.rows, 5)), index=i['kt'].index, columns=i['labels']),
    'raw': _raw,
    'pos': lambda i, rng, r: pd.DataFrame(i['xy'] + [4e5, 5e6], index=i['labels'], columns=['E', 'N']),
    'latlon': lambda i, rng, r: pd.DataFrame({'lat': 45 + i['xy'][:, 1] / 1e5, 'lon': 7 + i['xy'][:, 0] / 1e5}, index=i['labels']),
    'pred': lambda i, rng, r: i['pos'] + r.normal(0, 15, (5, 2)),
    'pred_nan': _pred_nan,
    'opts': lambda i, rng, r: {'mincorr': 0.3},
    'opts_full': lambda i, rng, r: {'maxvelocity': 60, 'minvelocity': 0.1, 'var_s_lim': 0.01, 'ktlim': 0.2, 'mincorr': 0.2},
    'opts_gagne': lambda i, rng, r: {},
    'opts_bad': lambda i, rng, r: {'ktlim': 0.3, 'minspeed': 3},
    'refs': lambda i, rng, r: [i['labels'][1], i['labels'][3]],
    'remap': _remap,
    'remap2': _remap,
    'daily': _days,
    'cs': lambda i, rng, r: pd.Series(600 + 200 * np.sin(np.arange(i.rows) / rng.choice([40, 25])), index=i['raw'].index),
    'tf': _tf,
    'tfs': lambda i, rng, r: pd.DataFrame({'x': np.exp(-2j * np.pi * _FPOS * rng.uniform(1, 4)), 'y': np.exp(2j * np.pi * _FPOS * rng.uniform(2, 6))}, index=_FPOS),
    'cohs': lambda i, rng, r: pd.DataFrame({'x': np.linspace(1, 0.2, 41), 'y': np.linspace(0.9, 0.5, 41)}, index=_FPOS),
    'cmvx': lambda i, rng, r: pd.Series(r.normal(0, 5, 14)),
    'cmvy': lambda i, rng, r: pd.Series(r.normal(0, 5, 14)),
    'times': lambda i, rng, r: pd.date_range('2014-03-01 10:00', periods=rng.choice([6, 4]), freq=rng.choice(['10s', '4s']), tz='UTC'),
    'e': lambda i, rng, r: i['xy'][:3, 0].copy(),
    'n': lambda i, rng, r: i['xy'][:3, 1].copy(),
    'params': _params,
    'csi': lambda i, rng, r: rng.choice([[0.4, 0.75], [0.6, 0.5]]),
    'spd': lambda i, rng, r: rng.choice([[5.0, 9.0], [7.5, 3.0]]),
    'dir': lambda i, rng, r: rng.choice([[0.3, 2.0], [-1.2, 4.0]]),
    'field': lambda i, rng, r: r.rand(24, 20) + np.linspace(0, 0.2, 20),
    'mask_src': lambda i, rng, r: r.rand(24, 20),
    'mask': lambda i, rng, r: cloudless(i['mask_src']),
    'edges': lambda i, rng, r: r.rand(24, 20) < 0.2,
    'kts': lambda i, rng, r: pd.Series(np.clip(i['kt'].iloc[:, 0].values + 0.2, 0, 1.4), index=i['kt'].index),
    'vecpairs': lambda i, rng, r: (np.array([[rng.uniform(2, 4), 1.0]]), np.array([[-1.0, rng.uniform(1, 3)]])),
    'freqs': lambda i, rng, r: np.linspace(0.001, 0.5 / i.step * 0.8, rng.choice([30, 44])),
    'freqs_both': lambda i, rng, r: np.fft.fftfreq(rng.choice([60, 81]), 1.0),
    'axis': lambda i, rng, r: np.arange(-200.0, 200.0, rng.choice([1.0, 2.0])),
    'wts': lambda i, rng, r: np.array([0.5, 0.3, 0.2]) if rng.random() < 0.5 else np.array([0.2, 0.2, 0.6]),
    'scales': lambda i, rng, r: [1, 2, 3],
    'centers': lambda i, rng, r: np.array([10.0, -20.0, 35.0]) * rng.choice([1.0, 1.4, -0.7]),
}


def cloudless(x):
    return (x < np.quantile(x, 0.3)).astype(float)


# name -> function(inventory, variant) giving (callable, args, kwargs)
def _define():
    C, S, F = cmv, signalproc, field
    one = {
        'cmv': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), {}),
        'cmv_opts': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(options=i['opts'])),
        'cmv_full': lambda i, v: (C.compute_cmv, (i['kt'], i['pos'], i['labels'][0], 'jamaly', i['opts_full']), {}),
        'cmv_refs': lambda i, v: (C.compute_cmv, (i['dfs'][1], i['pos']), dict(reference_id=i['refs'], options=i['opts'])),
        'cmv_gagne': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(method='gagne', options=i['opts_gagne'])),
        'cmv_tf': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(delay_backend='tf', options=i['opts'])),
        'cmv_holes': lambda i, v: (C.compute_cmv, (i['holes'], i['pos']), dict(options=i['opts_full'])),
        'subset': lambda i, v: (C.optimum_subset, (i['cmvx'], i['cmvy'], 3 + v % 3), {}),
        'delays': lambda i, v: (S.compute_delays, (i['kt'], i['dfs'][1]), dict(mode='loop')),
        'delays_fft': lambda i, v: (S.compute_delays, (i['kt'], i['dfs'][1]), dict(mode='fft', scaling='none')),
        'delays_tf': lambda i, v: (S.compute_delays_tf, (i['kt'].iloc[:, 0], i['kt']), dict(compute_xcorr=v % 2 == 0, freq_limit=0.05 + 0.02 * (v % 3), navgs=4 + v % 3, coh_limit=0.5 + 0.1 * (v % 2))),
        'delays_fit': lambda i, v: (S.compute_delays_tf, (i['kt'], i['dfs'][1]), dict(method='fit', freq_limit=0.05, navgs=4 + v % 3, overlap=[0.5, 0.25][v % 2], window=['hamming', 'hann'][v // 2 % 2])),
        'delays_field': lambda i, v: (F.compute_delays, (i['kt'], i['labels'][2]), dict(freq_limit=0.05 + 0.02 * (v % 3), navgs=4 + v % 2)),
        'tf_delay': lambda i, v: (S.tf_delay, [(i['tfs']['x'], i['cohs']['x']), (i['tfs']['y'], i['cohs']['y']), (i['tfs'], i['cohs'])][v % 3],
                                   dict(method=['fit', 'diff', 'multi'][v % 3], freq_limit=0.1)),
        'tf_delay_raw': lambda i, v: (S.tf_delay, (i['tfs']['x'], i['cohs']['x']), dict(coh_limit=None, method='fit')),
        'xcorr': lambda i, v: (S.xcorr_delay, (i['kt'].iloc[:, v % 3], i['kt'].iloc[:, 3]), {}),
        'correlation': lambda i, v: (S.correlation, (i['kt'].iloc[:, 0].values, i['kt'].iloc[:, 3].values),
                                     dict(scaling=['coeff', 'energy', 'unbiased_coeff', 'none'][v % 4])),
        'psd': lambda i, v: (S.averaged_psd, (i['kt'], 3 + v % 4), dict(overlap=[0.5, 0.3][v % 2])),
        'psd_series': lambda i, v: (S.averaged_psd, (i['kt'].iloc[:, 1], 3 + v % 2), dict(detrend=['constant', 'linear'][v // 2 % 2], window=['hamming', 'hann'][v % 2])),
        'tf': lambda i, v: (S.averaged_tf, (i['kt'].iloc[:, v % 2], i['kt'], 3 + v % 4), dict(overlap=[0.5, 0.25][v // 2 % 2])),
        'interp_tf': lambda i, v: (S.interp_tf, (i['freqs'], i['tf']), {}),
        'interp_tf_series': lambda i, v: (S.interp_tf, (i['freqs'], i['tf']['tf']), {}),
        'apply_delay': lambda i, v: (S.apply_delay, (i['tf'], 2.5 - v), {}),
        'apply_filter': lambda i, v: (S.apply_filter, (i['kt'].iloc[:, 1], i['tf']['tf']), {}),
        'plant1d': lambda i, v: (S.get_1d_plant, (i['centers'],), dict(width=6 + v // 3, shape=['square', 'triangle', 'gaussian'][v % 3], xmax=400 + 50 * (v % 2))),
        'plant1d_off': lambda i, v: (S.get_1d_plant, (i['centers'], 10.0 + v), dict(xmax=400, dx=[1, 2][v % 2])),
        'camfilter': lambda i, v: (S.get_camfilter, (i['pos'], 5.0 + v, (1.0, 0.5 - v / 4), i['pos'].iloc[v % 5]), dict(xmax=600 + 100 * (v % 2), width=5 + v % 3, dx=[1, 2][v // 2 % 2])),
        'camfilter_ll': lambda i, v: (S.get_camfilter, (i['latlon'], -4.0 - v, (1.0, -0.5), i['latlon'].iloc[1 + v % 3]), dict(xmax=600, dx=2)),
        'camfilter_1d': lambda i, v: (S.plant1d_to_camfilter, ((np.abs(i['axis'] - 5 * v) < 20) * 1.0, i['axis'], 4.0 + v), {}),
        'marcos': lambda i, v: (S.get_marcosfilter, (3.0 + v, i['freqs_both']), {}),
        'locate': lambda i, v: (F.compute_predicted_position, (i['dfs'], i['pos'], i['labels'][1], i['vecs']),
                                dict(mode=['coherence', 'global_coherence', 'all'][v % 3], ndownsel=4 + v // 3 % 2, freq_limit=0.05, navgs=4 + v % 2)),
        'locate_arr': lambda i, v: (F.compute_predicted_position, (i['dfs'], i['pos'], i['labels'][0], i['vecs_arr']),
                                    dict(mode=['all', 'distance'][v % 2], freq_limit=0.05, delay_method='fit')),
        'locate_self': lambda i, v: (F.compute_predicted_position, (i['dfs'], i['pos'], i['labels'][1]),
                                     dict(mode='all', freq_limit=0.05)),
        'remap': lambda i, v: (F.remap_positions, (i['pos'], i['remap']), dict(columns=[None, ['E']][v % 2])),
        'cascade': lambda i, v: (F.cascade_remap, (i['remap'], i['remap2']), {}),
        'assign': lambda i, v: (F.assign_positions, (i['pos'], i['pred']), {}),
        'assign_nan': lambda i, v: (F.assign_positions, (i['pos'], i['pred_nan']), {}),
        'stats': lambda i, v: ([stats.rmse, stats.mse, stats.mae, stats.mbe, stats.squared_error, stats.absolute_error,
                                stats.bias_error][v % 7], (i['kt'], i['dfs'][1]), {}),
        'vs': lambda i, v: (stats.variability_score, (i['kt'],), dict(tau=[1, 5][v % 2], pct=v % 3 == 0)),
        'vi': lambda i, v: (stats.variability_index, (i['raw'].iloc[:, 0], i['cs']), dict(moving_avg_tau=[1, 5][v % 2], norm=v % 3 == 0)),
        'darr': lambda i, v: (stats.darr, (i['kt'],), dict(tau=[1, 4][v % 2], pct=v % 3 == 0)),
        'quantile': lambda i, v: (stats.calc_quantile, ([i['daily'], i['daily'].tz_localize('Etc/GMT+5')][v // 3 % 2],), dict(n_days=f'{3 + v % 3}d', quantile=[0.5, 0.9][v % 2])),
        'csi': lambda i, v: (irradiance.clearsky_index, ([i['raw'], i['raw'].iloc[:, 0]][v % 2], i['cs']), {}),
        'utm': lambda i, v: (spatial.latlon2utm, (i['latlon']['lat'] * [1, -1][v % 2], i['latlon']['lon'] + 6 * (v % 3)), dict(zone=[None, 31][v // 6])),
        'latlon': lambda i, v: (spatial.utm2latlon, (i['pos']['E'], i['pos']['N'], 30 + v % 4), dict(south=v % 2 == 1)),
        'lcs': lambda i, v: (spatial.latlon2lcs, (i['latlon']['lat'], i['latlon']['lon'], 45.0, 7.0), {}),
        'lcs_back': lambda i, v: (spatial.lcs2latlon, (120.0, -80.0, 45.0, 7.0), {}),
        'flat': lambda i, v: (spatial.lla2flat, (i['latlon']['lat'].values, i['latlon']['lon'].values, 45.0, 7.0),
                              dict(method=['matlab', 'tmerc'][v % 2])),
        'vectors': lambda i, v: (spatial.compute_vectors, (i['pos']['E'], i['pos']['N'], i['pos'].iloc[0]), {}),
        'project': lambda i, v: (spatial.project_vectors, (i['vecs_arr'], i['vecs'][0]), {}),
        'rotate': lambda i, v: (spatial.rotate_vector, (i['vecpairs'][0][0], 0.7 - v), {}),
        'algebra': lambda i, v: ([spatial.unit, spatial.magnitude][v % 2], (i['vecs'][v // 2 % 2],), {}),
        'dot': lambda i, v: (spatial.dot, (i['vecs'][0], i['vecs'][1]), {}),
        'rect': lambda i, v: (spatial.pol2rect, (i['e'], i['n'] / 10 + v), {}),
        'intersect': lambda i, v: (spatial.compute_intersection, i['vecpairs'], {}),
        'spacetime': lambda i, v: (spatial.spacetime_distances, (i['e'], i['n'], i['times'], 5.0 + v, 0.4 - v), {}),
        'downscale': lambda i, v: (copula.downscale, (i['times'], i['e'], i['n'], 5.0 + v % 3, 0.4 + v % 2, [0.6, 0.45][v // 2 % 2], i['params']),
                                   dict(seed=7 + v, scale=v % 2 == 0)),
        'multihour': lambda i, v: (copula.downscale_multihour, (i['times'], i['e'], i['n'], i['spd'], i['dir'], i['csi'], i['params']),
                                   dict(seed=v)),
        'flag_qc': lambda i, v: (hope_campaign.flag_qc, (i['kt'], i['flags']), dict(level=1 + v % 3)),
        'null_qc': lambda i, v: (hope_campaign.null_qc, (i['raw'],), {}),
        'interp_nan': lambda i, v: (hope_campaign.interp_nan, (i['holes'],), dict(limit=2 + v % 6)),
        'clear_mask': lambda i, v: (cloudfield._calc_clear_mask, (i['mask_src'], [0.25, 0.5, 0.1][v % 3]), {}),
        'edges': lambda i, v: (cloudfield._find_edges, (i['mask'], 2 + v % 3), {}),
        'lave': lambda i, v: (cloudfield._scale_field_lave, (i['field'], i['mask'], i['edges'], 0.7), {}),
        'basic': lambda i, v: (cloudfield._scale_field_basic, (i['field'], i['mask'], i['edges'], 0.7), dict(flipdistr=v % 2 == 0)),
        'kt_stats': lambda i, v: (cloudfield.get_timeseries_stats, (i['kts'],), {}),
        'site_ts': lambda i, v: (cloudfield.get_positional_ts, ((20.0 + v, 30.0), i['field'], 5.0 + v % 2), dict(duration=9 - v % 3)),
        'weights': lambda i, v: (cloudfield._calc_vs_weights, (np.array([1.0, 2.0, 3.0 + v]), 40.0 + v), {}),
        'iv_pol': lambda i, v: (spatial.rect2pol, (i['e'], i['n']), {}),
    }
    bad = {
        'bad_method': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(method='nearest', options=i['opts'])),
        'bad_backend': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(delay_backend='tdr', options=i['opts'])),
        'bad_option': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(options=i['opts_bad'])),
        'bad_option_gagne': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(method='gagne', options=i['opts_bad'])),
        'bad_ids': lambda i, v: (C.compute_cmv, (i['kt'].iloc[:, 1:], i['pos']), dict(options=i['opts'])),
        'bad_ref': lambda i, v: (C.compute_cmv, (i['kt'], i['pos']), dict(reference_id='nowhere', options=i['opts'])),
        'bad_locate': lambda i, v: (F.compute_predicted_position, (i['dfs'], i['pos'], i['labels'][1], i['vecs']), dict(mode='best', freq_limit=0.05)),
        'bad_locate_ref': lambda i, v: (F.compute_predicted_position, (i['dfs'], i['pos'], 'nowhere', i['vecs']), {}),
        'bad_mode': lambda i, v: (S.compute_delays, (i['kt'], i['dfs'][1]), dict(mode='guess')),
        'bad_scaling': lambda i, v: (S.compute_delays, (i['kt'], i['dfs'][1]), dict(mode='fft', scaling='unbiased_coeff')),
        'bad_tf': lambda i, v: (S.averaged_tf, (i['kt'].iloc[:, :2], i['kt'].iloc[:, :3], 4), {}),
        'bad_tf_method': lambda i, v: (S.tf_delay, (i['tfs'], i['cohs']), dict(method='magic')),
        'bad_remap': lambda i, v: (F.remap_positions, (i['pos'], [(i['labels'][0], 'nowhere')]), {}),
        'bad_cascade': lambda i, v: (F.cascade_remap, (i['remap'], i['remap2'][1:]), {}),
        'bad_hours': lambda i, v: (copula.downscale_multihour, (i['times'], i['e'], i['n'], [1.0, 2.0, 3.0], i['dir'], i['csi'], i['params']), dict(seed=1)),
        'bad_params': lambda i, v: (copula.downscale_multihour, (i['times'], i['e'], i['n'], 3.0, 0.1, i['csi'], [i['params']]), dict(seed=1)),
        'bad_filter': lambda i, v: (S.apply_filter, (i['kt'].iloc[:, 1], i['tfs']['x'].iloc[:5]), {}),
        'bad_shape': lambda i, v: (S.get_1d_plant, (i['centers'],), dict(shape='star', xmax=100)),
        'bad_vs': lambda i, v: (cloudfield._calc_vs_weights, (np.array([1.0, 2.0]), -4.0), {}),
        'bad_clear': lambda i, v: (cloudfield._calc_clear_mask, (i['mask_src'], 1.5), {}),
        'bad_flat': lambda i, v: (spatial.lla2flat, (i['e'], i['n'], 45.0, 7.0), dict(method='round')),
        'bad_scale': lambda i, v: (cloudfield.cloudfield_timeseries, (i['wts'], i['scales'], (12, 12), 0.25, 0.6, 1.3, 0.2), dict(scaling='odd')),
        'bad_weights': lambda i, v: (cloudfield.cloudfield_timeseries, (i['wts'][:2], i['scales'], (12, 12), 0.25, 0.6, 1.3, 0.2), {}),
    }
    return one, bad


GOOD, BAD = _define()
EVERY = {**GOOD, **BAD}
DRAWS = {'bad_scale', 'bad_weights'}           # may use the global generator before refusing


def prepare(inv, name, v):
    return EVERY[name](inv, v)


# ---------------------------------------------------------------- comparison
def canon(o, depth=0):
    """What a caller can see of a value, as plain nested data."""
    if depth > 8:
        return ('deep', type(o).__name__)
    if isinstance(o, pd.DataFrame):
        return ('frame', canon(list(o.columns)), canon(o.index), [canon(o.iloc[:, k].values, depth + 1) for k in range(o.shape[1])],
                [str(t) for t in o.dtypes], canon(dict(o.attrs)))
    if isinstance(o, pd.Series):
        return ('series', repr(o.name), canon(o.index), canon(o.values, depth + 1), str(o.dtype))
    if isinstance(o, pd.DatetimeIndex):
        return ('times', str(o.tz), str(o.freq), repr(o.name), o.asi8.copy())
    if isinstance(o, pd.Index):
        v = o.values
        return ('index', repr(o.name), canon(v if v.dtype != object and v.dtype.kind in 'ifcbmM' else list(o), depth + 1))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('objects', o.shape, [canon(x, depth + 1) for x in o.ravel().tolist()])
        if o.dtype.kind in 'mM':
            return ('array', str(o.dtype), o.shape, o.astype('i8'))
        return ('array', o.dtype.kind, o.shape, o.copy())
    if isinstance(o, pd.api.extensions.ExtensionArray):
        return canon(np.asarray(o), depth)
    if isinstance(o, enum.Enum):
        return ('enum', o.name)
    if isinstance(o, (bool, np.bool_)):
        return ('bool', bool(o))
    if isinstance(o, (int, np.integer)):
        return ('int', int(o))
    if isinstance(o, (float, np.floating)):
        return ('array', 'f', (), np.array(float(o)))
    if isinstance(o, (complex, np.complexfloating)):
        return ('array', 'c', (), np.array(complex(o)))
    if o is None or isinstance(o, (str, bytes)):
        return (type(o).__name__, o)
    if isinstance(o, dict):
        return ('dict', [(canon(k, depth + 1), canon(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ('seq', [canon(x, depth + 1) for x in o])
    if hasattr(o, 'to_dict'):
        return ('holder', type(o).__name__, canon(o.to_dict(), depth + 1))
    if isinstance(o, type):
        return ('type', o.__name__)
    if hasattr(o, '__dict__'):
        return ('object', type(o).__name__, canon(dict(vars(o)), depth + 1))
    return ('repr', type(o).__name__)


def differ(a, b, rtol=1e-7, path='result'):
    """'' when two canonical values agree, otherwise where they do not."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} / {b.shape}'
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            fa, fb = np.isfinite(a), np.isfinite(b)
            if (fa != fb).any() or not np.array_equal(a[~fa], b[~fb], equal_nan=True):
                return f'{path}: non-finite values differ'
            if fa.any():
                s = max(np.abs(a[fa]).max(), np.abs(b[fb]).max())
                d = np.abs(a[fa] - b[fb]).max()
                if d > rtol * s:
                    return f'{path}: {a.ravel()[:4]} / {b.ravel()[:4]} (difference {d:.3g} of {s:.3g})'
            return ''
        return '' if np.array_equal(a, b) else f'{path}: {a.ravel()[:6]} / {b.ravel()[:6]}'
    if type(a) is not type(b):
        return f'{path}: {str(a)[:80]} / {str(b)[:80]}'
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} / {len(b)} parts'
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, f'{path}.{k}')
            if d:
                return d
        return ''
    return '' if a == b else f'{path}: {str(a)[:80]} / {str(b)[:80]}'


def _feed(h, o):
    if isinstance(o, np.ndarray):
        h.update(str((o.dtype, o.shape)).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(b'(')
        for x in o:
            _feed(h, x)
        h.update(b')')
    else:
        h.update(repr(o).encode() + b';')


def fingerprint(o):
    h = hashlib.sha256()
    _feed(h, canon(o))
    return h.hexdigest()[:16]


def scribble(o, depth=0):
    """Overwrite every mutable part of a returned value."""
    if depth > 5:
        return
    try:
        if isinstance(o, pd.DataFrame):
            for k in range(o.shape[1]):
                o.isetitem(k, 777.25)
            o.columns = [f'z{k}' for k in range(o.shape[1])]
        elif isinstance(o, pd.Series):
            o.iloc[:] = 777.25
            o.name = 'z'
        elif isinstance(o, np.ndarray):
            if o.dtype == object:
                o[...] = None
            else:
                o[...] = 7
        elif isinstance(o, dict):
            for k in list(o):
                scribble(o[k], depth + 1)
                o[k] = 'overwritten'
        elif isinstance(o, list):
            for x in o:
                scribble(x, depth + 1)
            o.clear()
        elif isinstance(o, tuple):
            for x in o:
                scribble(x, depth + 1)
        elif hasattr(o, 'to_dict') and hasattr(o, '__dict__'):
            scribble(vars(o), depth + 1)
    except (ValueError, TypeError):
        pass
