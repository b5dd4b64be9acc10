"""An unchanging cloud pattern that moves over the ground, and the records that
sensors standing under it make."""
import random

import numpy as np
import pandas as pd


class Sky:
    """kt(x, y) as a squashed sum of random plane waves; exact at every point."""

    def __init__(self, seed, size=800.0, octaves=3, nwaves=24, depth=0.35, mean=0.7, fronts=None):
        rng = random.Random(f'sky{seed}')
        ks, ph, am = [], [], []
        for o in range(octaves):
            L = size / 2 ** o
            for _ in range(nwaves):
                if fronts is None:
                    kx, ky = rng.gauss(0, 1) / L, rng.gauss(0, 1) / L
                else:
                    m = rng.gauss(0, 1) / L
                    kx, ky = m * np.cos(fronts), m * np.sin(fronts)
                ks.append((kx, ky))
                ph.append(rng.uniform(0, 2 * np.pi))
                am.append(0.7 ** o)
        self.k, self.ph, self.am = np.array(ks), np.array(ph), np.array(am)
        self.norm = np.sqrt((self.am ** 2).sum() / 2)
        self.depth, self.mean = depth, mean

    def at(self, x, y):
        out = np.zeros(np.broadcast(x, y).shape)
        for (kx, ky), p, a in zip(self.k, self.ph, self.am):
            out += a * np.cos(kx * x + ky * y + p)
        return self.mean + self.depth * np.tanh(out / self.norm)


def record(sky, pos, v, t):
    """What sensors at pos (n,2) see at times t under clouds moving with v."""
    x = pos[:, 0][None, :] - v[0] * t[:, None]
    y = pos[:, 1][None, :] - v[1] * t[:, None]
    return sky.at(x, y)


def table(values, labels, dt, start='2013-09-08 09:15:00', tz='UTC', kind='datetime'):
    n = len(values)
    if kind == 'datetime':
        idx = pd.date_range(start, periods=n, freq=pd.Timedelta(milliseconds=int(round(dt * 1000))), tz=tz)
    else:
        idx = pd.to_timedelta(np.arange(n) * int(round(dt * 1000)), unit='ms')
    return pd.DataFrame(values, index=idx, columns=labels)
