"""Reference model of the quality control, written from its definition."""
import numpy as np


def null_model(values):
    return [[None if (v is not None and v < -100) else v for v in col] for col in values]


def fill_gaps(x, limit):
    """x: list of float or None (missing). Runs of at most limit missing samples
    between two valid samples become the straight line; nothing else changes."""
    y, i, n = list(x), 0, len(x)
    while i < n:
        if x[i] is not None:
            i += 1
            continue
        j = i
        while j < n and x[j] is None:
            j += 1
        if i > 0 and j < n and j - i <= limit:
            a, b = x[i - 1], x[j]
            for k in range(i, j):
                y[k] = a + (b - a) * (k - i + 1) / (j - i + 1)
        i = j
    return y


def to_lists(df):
    """Columns as lists with None for missing."""
    return [[None if np.isnan(v) else float(v) for v in df.iloc[:, c].to_numpy(dtype=float)]
            for c in range(df.shape[1])]


def runs(x):
    """Lengths and kinds of the missing runs of a column (for coverage)."""
    out, i, n = [], 0, len(x)
    while i < n:
        if x[i] is None:
            j = i
            while j < n and x[j] is None:
                j += 1
            out.append((j - i, 'edge' if i == 0 or j == n else 'inside'))
            i = j
        else:
            i += 1
    return out
