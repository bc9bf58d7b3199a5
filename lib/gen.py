"""Workload generators shared by the monitors (all take a numpy Generator)."""
import numpy as np
import pandas as pd


def ctc_rows(rng, n=None, big=None):
    """contingency rows fy_oy fy_on fn_oy fn_on total; many zero patterns"""
    n = n if n is not None else int(rng.choice([1, 1, 2, 3, 5, 8, 20, 65, 300]))
    scale = big if big is not None else int(rng.choice([2, 4, 10, 100, 3000]))
    zero = rng.random(4) < rng.choice([0, 0, 0, .3, .6])
    rows = []
    for _ in range(n):
        c = rng.integers(0, scale + 1, 4)
        c[zero] = 0
        if rng.random() < .1:
            c[:] = 0
        rows.append(c)
    a = np.array(rows, dtype=np.int64).reshape(n, 4)
    return a


def as_table(rng, cols, values, extra=True):
    """lay the columns out in random order among unrelated columns, in one of the array
    representations the package meets: float64, int64 (if integral), object with strings"""
    names = list(cols)
    arrays = {c: np.asarray(v) for c, v in zip(cols, values)}
    n = len(values[0])
    mode = rng.choice(['float', 'int', 'object', 'mixed'])
    if mode == 'int' and not all(np.issubdtype(a.dtype, np.integer) for a in arrays.values()):
        mode = 'float'
    if extra and mode in ('object', 'mixed'):
        arrays['model'] = np.array([f'm{i % 3}' for i in range(n)], dtype=object)
        arrays['fcst_valid_beg'] = np.array(['2020-01-01 00:00:00'] * n, dtype=object)
        names += ['model', 'fcst_valid_beg']
    if extra and mode != 'object':
        arrays['zz'] = rng.integers(1, 9, n)
        names += ['zz']
    order = rng.permutation(len(names))
    names = [names[i] for i in order]
    if mode in ('object', 'mixed'):
        data = np.empty((n, len(names)), dtype=object)
        for j, c in enumerate(names):
            data[:, j] = list(arrays[c])
    else:
        data = np.column_stack([arrays[c] for c in names]).astype(float if mode == 'float' else np.int64)
    return data, np.array(names), mode


def split_counts(rng, counts, parts):
    """split integer counts into `parts` non-negative rows that sum to counts"""
    out = np.zeros((parts, len(counts)), dtype=np.int64)
    for j, c in enumerate(counts):
        cuts = np.sort(rng.integers(0, c + 1, parts - 1)) if parts > 1 else np.array([], int)
        out[:, j] = np.diff(np.concatenate([[0], cuts, [c]]))
    return out


def frame(data, names):
    return pd.DataFrame(data, columns=names)


def chunks(rng, n, k):
    """k non-empty consecutive index ranges"""
    k = min(k, n)
    cut = np.sort(rng.choice(np.arange(1, n), k - 1, replace=False)) if k > 1 else []
    return np.split(np.arange(n), cut)


def partial_rows(rng, n, cols, agg, single=False):
    """reduce per-sample values to a partial-sum table [(column, row values)]: with agg the rows hold
    value*total (what the package calls aggregated fields), else one row of means"""
    if not agg:
        parts = [np.arange(n)]
    else:
        parts = chunks(rng, n, int(rng.choice([1, 2, 3, 5, 12, 60, 130, 2500])))
        parts = [parts[i] for i in rng.permutation(len(parts))]
    tot = np.array([len(p) for p in parts])
    tab = [('total', tot if rng.random() < .5 else tot.astype(float))]
    for name, x in cols:
        tab.append((name, np.array([np.sum(x[p]) / (1 if agg else len(p)) for p in parts])))
    return tab
