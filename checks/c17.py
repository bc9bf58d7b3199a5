"""C17: standard errors, lag-one autocorrelation, autocorrelation function, runs test and revision statistics of a series."""
import math
import statistics

import numpy as np
import pandas as pd

from vlib import Check, Raised, close, is_missing, main_guard


def series(rng, i, lo=3, hi=40):
    """a time series: autoregressive, trend, integers with ties, one late step, constant"""
    n = int(rng.integers(lo, hi))
    kind = str(rng.choice(['ar', 'ar', 'ar', 'ties', 'trend', 'noise', 'step', 'const']))
    if kind == 'ar':
        phi = float(rng.uniform(-.95, .99))
        x = [float(rng.normal())]
        for _ in range(n - 1):
            x.append(phi * x[-1] + float(rng.normal()))
    elif kind == 'ties':
        x = [float(v) for v in rng.integers(0, 5, n)]
    elif kind == 'trend':
        x = [float(k) for k in range(n)]
        if rng.random() < .5:
            x = [v + float(rng.normal()) * .3 for v in x]
    elif kind == 'noise':
        x = [float(v) for v in rng.normal(size=n)]
    elif kind == 'step':
        x = [0.] * (n - 1) + [1.]
    else:
        x = [3.] * n
    scale = float(10. ** rng.integers(-3, 4)) if kind in ('ar', 'noise') else float(2. ** rng.integers(-3, 4))
    off = float(rng.integers(-3, 4)) if rng.random() < .7 else 0.
    return kind, [scale * (v + off) for v in x]


def with_missing(rng, x, p):
    res = []
    for v in x:
        if rng.random() < p:
            res.append(None if rng.random() < .5 else float('nan'))
        res.append(v)
    return res


def valid(x):
    return [float(v) for v in x if not is_missing(v)]


def lag1(x):
    """least-squares slope of the following value on the value; None when it is not determined"""
    a, b = x[:-1], x[1:]
    if len(a) < 2:
        return None
    ma, mb = math.fsum(a) / len(a), math.fsum(b) / len(b)
    saa = math.fsum((v - ma) ** 2 for v in a)
    if saa <= 1e-18 * (1e-300 + max(abs(v) for v in x)) ** 2 * len(x):
        return None
    return math.fsum((v - ma) * (w - mb) for v, w in zip(a, b)) / saa


def conditioned(x):
    """spread of the lagged values large enough for six digits"""
    a = x[:-1]
    return max(a) - min(a) > 1e-4 * max(abs(v) for v in x)


def quantile(x, q):
    s = sorted(x)
    h = (len(s) - 1) * q
    k = math.floor(h)
    return s[k] + (h - k) * (s[min(k + 1, len(s) - 1)] - s[k])


def inflation(ar):
    """-> (factor, flag) or None when the coefficient is at a threshold"""
    if ar is None:
        return 1., 0
    if min(abs(ar - .3), abs(ar - .99), abs(abs(ar) - 1)) < 1e-7:
        return None
    ratio = (1 + ar) / (1 - ar)
    return (math.sqrt(ratio) if .3 <= ar < .99 else 1.), (1 if ratio < 0 else 0)


def phi(z):
    return .5 * math.erfc(-z / math.sqrt(2))


def runs_ref(x, threshold):
    """-> dict, None (not defined) or 'undecided'"""
    cut = statistics.median(x) if threshold == 'median' else math.fsum(x) / len(x)
    if threshold == 'mean' and any(0 < abs(v - cut) < 1e-9 * (1 + abs(cut)) for v in x):
        return 'undecided'
    s = [v > cut for v in x if v != cut]
    n1, n2 = s.count(True), s.count(False)
    if not n1 or not n2:
        return None
    n = n1 + n2
    runs = 1 + sum(1 for a, b in zip(s, s[1:]) if a != b)
    mean = 1 + 2 * n1 * n2 / n
    var = 2 * n1 * n2 * (2 * n1 * n2 - n) / (n * n * (n - 1))
    if var == 0:
        return None
    z = (runs - mean) / math.sqrt(var)
    return {'runs': runs, 'mean_value': mean, 'variance': var, 'statistic': z, 'n1': n1, 'n2': n2}


def acf_ref(x, kind, lag_max):
    v = valid(x)
    m = math.fsum(v) / len(v)
    n = len(x)
    lags = math.floor(10 * math.log10(n)) if lag_max is None else lag_max
    lags = min(lags, n - 1)
    res = []
    for k in range(lags + 1):
        pairs = [(x[j], x[j + k]) for j in range(n - k) if not is_missing(x[j]) and not is_missing(x[j + k])]
        res.append(math.fsum((a - m) * (b - m) for a, b in pairs) / (len(pairs) + k))
    if kind == 'correlation':
        if max(v) == min(v):
            return None
        res = [r / res[0] for r in res]
    return res


def main():
    from metcalcpy.util import utils
    from metcalcpy.util.correlation import acf
    from metcalcpy.util.wald_wolfowitz_runs_test import runs_test
    ck = Check('C17', 'series statistics against an independent reference')

    for rng, i in ck.cases('stderr', 260, 6000):
        kind, x = series(rng, i)
        data = with_missing(rng, x, .15) if rng.random() < .35 else list(x)
        arg = data if rng.random() < .6 or None in data else np.array(data, dtype=float)
        gone = len(data) - len(x)
        ck.case_input = {'data': data}
        ar = lag1(x)
        sure = ar is None or conditioned(x)
        got = ck.call(utils.autocor_coef, arg)
        if not sure:
            ck.skip('lagged values almost constant')
            continue
        ck.expect(is_missing(got) if ar is None else close(got, ar, 1e-7, 1e-7), 'lag1', lambda: f'lag-one coefficient {got}, regression gives {ar}',
                  monitor='lag1')
        f = inflation(ar)
        var = statistics.variance(x) if len(set(x)) > 1 else 0.
        iqr = quantile(x, .75) - quantile(x, .25)
        if 0 < iqr < 1e-9 * max(abs(v) for v in x):
            ck.skip('interquartile range at the precision of the values')
            continue
        n = len(x)
        for name, spread, se in (
                ('mean', var, math.sqrt(var / n)),
                ('sum', var, math.sqrt(var * n)),
                ('median_variance_inflation_factor', iqr, iqr * math.sqrt(math.pi / 2) / (1.349 * math.sqrt(n))),
                ('median_no_variance_inflation_factor', iqr, iqr * math.sqrt(math.pi / 2) / (1.349 * math.sqrt(n)))):
            got = ck.call(getattr(utils, 'compute_std_err_from_' + name), arg)
            key = 'stderr/' + name + ('/missing' if gone else '')
            if isinstance(got, Raised) or len(got) != 4:
                ck.expect(False, key, f'{name}: {got}', monitor=key)
                continue
            if spread == 0 or n < 3:
                want, flag, coef = 0., 0, 0.
            elif name == 'median_no_variance_inflation_factor':
                want, flag, coef = se, 0, 0.
            elif f is None:
                # at a threshold of the coefficient: with or without the factor; a perfect trend has none
                if ar is not None and abs(ar - 1) < 1e-7:
                    want, flag, coef = se, None, ar
                else:
                    ck.skip('coefficient at a threshold')
                    continue
            else:
                want, flag, coef = se * f[0], f[1], (ar or 0.)
            ck.expect(close(got[0], want, 1e-9, 1e-6), key, lambda: f'standard error of the {name} {got[0]}, the series gives {want}', monitor=key)
            if coef is not None and ar is not None:
                ck.expect(close(got[2], coef, 1e-7, 1e-7), key + '/ar1', lambda: f'{name}: coefficient {got[2]}, expected {coef}', monitor=key)
            if flag is not None:
                ck.expect(got[1] == flag, key + '/flag', lambda: f'{name}: flag {got[1]}, expected {flag} (coefficient {ar})', monitor=key)
            if not gone:
                ck.expect(got[3] == n, key + '/n', lambda: f'{name}: length {got[3]} of {n}', monitor=key)
            if want:
                ck.nontrivial(name, round(want, 12))
        ck.sample({'kind': kind, 'n': n, 'missing': gone, 'lag1': ar})

    for rng, i in ck.cases('acf', 150, 4000):
        kind, x = series(rng, i, 2, 45)
        data = with_missing(rng, x, .2) if rng.random() < .5 else x
        kind = str(rng.choice(['correlation', 'covariance']))
        lag = None if rng.random() < .4 else int(rng.integers(0, len(data) + 5))
        ck.case_input = {'data': data, 'kind': kind, 'lag': lag}
        want = acf_ref(data, kind, lag)
        got = ck.call(acf, data, kind, lag)
        if want is None:
            if isinstance(got, Raised):
                ck.expect(False, 'acf/constant', f'constant series: {got}', monitor='acf.constant')
            else:
                ck.expect(all(is_missing(v) for v in got), 'acf/constant', f'constant series has autocorrelation {got}', monitor='acf.constant')
            continue
        s = max(1e-300, max(abs(v) for v in x)) ** 2 if kind == 'covariance' else 1
        if kind == 'correlation' and max(x) - min(x) < 1e-4 * max(abs(v) for v in x):
            ck.skip('spread small against the values')
            continue
        ok = not isinstance(got, Raised) and got is not None and len(got) == len(want)
        ck.expect(ok and all(close(g, w, 1e-8 * s, 1e-8) for g, w in zip(got, want)), 'acf/' + kind,
                  lambda: f'{kind} to lag {lag}: {got}, the series gives {want}', monitor='acf')
        ck.nontrivial('acf', kind, round(want[-1], 12), len(want))

    for rng, i in ck.cases('runs', 200, 5000):
        kind, x = series(rng, i, 2, 45)
        data = with_missing(rng, x, .2) if rng.random() < .4 else x
        side = str(rng.choice(['two.sided', 'left.sided', 'right.sided']))
        threshold = str(rng.choice(['median', 'mean']))
        ck.case_input = {'data': data, 'side': side, 'threshold': threshold}
        want = runs_ref(x, threshold)
        if want == 'undecided':
            ck.skip('a value at the mean')
            continue
        got = ck.call(runs_test, data, side, threshold)
        if isinstance(got, Raised):
            undefined = want is None and got.type == 'ZeroDivisionError'
            ck.expect(False, 'runs/one-sided-series' if undefined else 'runs', f'{side} {threshold}: {got}', monitor='runs')
            continue
        if want is None:
            ck.expect(all(is_missing(got[k]) for k in ('statistic', 'p_value')), 'runs/undefined',
                      lambda: f'no runs to compare, but {got}', monitor='runs.undefined')
            continue
        p = phi(want['statistic'])
        p = {'left.sided': p, 'right.sided': 1 - p, 'two.sided': 2 * min(p, 1 - p)}[side]
        for k in ('runs', 'mean_value', 'variance', 'statistic'):
            ck.expect(close(got[k], want[k], 1e-9, 1e-9), 'runs/' + k, lambda: f'{threshold} {k} {got[k]}, series gives {want[k]}', monitor='runs')
        ck.expect(close(got['p_value'], p, 1e-9), 'runs/p', lambda: f'{side} p {got["p_value"]}, series gives {p}', monitor='runs')
        ck.nontrivial('runs', side, threshold, round(p, 9))

    for rng, i in ck.cases('revision', 120, 2500):
        k = int(rng.integers(1, 7))
        recs = []
        style = rng.random()
        for r in range(k):
            _, x = series(rng, i, 1, 12)
            if style < .5:
                x = [float(v) for v in rng.integers(-4, 5, len(x))]
            elif style < .9:
                x = [round(float(v), 3) for v in rng.normal(size=len(x)) * 5]
            recs.extend((v, f'rev{r}') for v in x)
        if style >= .95:
            recs = [(2., r) for _, r in recs]
        if rng.random() < .4:
            # the rows of several revisions interleaved
            pos = sorted(range(len(recs)), key=lambda _: rng.random())
            recs = [recs[p] for p in pos]
        table = pd.DataFrame(recs, columns=['stat_value', 'revision_id'])
        if rng.random() < .5:
            table['fcst_lead'] = rng.integers(0, 5, len(table))
        lag = None if rng.random() < .3 else int(rng.integers(1, 9))
        seq = []
        for r in dict.fromkeys(t[1] for t in recs):
            seq.extend([t[0] for t in recs if t[1] == r] + [None])
        seq.pop()
        ck.case_input = {'rows': recs, 'lag': lag}
        got = ck.call(utils.calculate_mtd_revision_stats, table, lag)
        if isinstance(got, Raised):
            ck.expect(False, 'revision', f'{len(recs)} rows: {got}', monitor='revision')
            continue
        v = valid(seq)
        r = runs_ref(v, 'median')
        if r is None:
            ck.expect(is_missing(got['ww_run']), 'revision/ww', lambda: f'no runs, but {got}', monitor='revision')
        else:
            p = phi(r['statistic'])
            ck.expect(close(got['ww_run'], p, .0050001), 'revision/ww', lambda: f'runs test {got["ww_run"]}, series gives {p}', monitor='revision')
            ck.nontrivial('ww', round(p, 9))
        a = acf_ref(seq, 'correlation', lag)
        if a is None:
            ck.expect(is_missing(got['auto_cor_r']), 'revision/acf', lambda: f'constant series, but {got}', monitor='revision')
        else:
            ck.expect(close(got['auto_cor_r'], a[-1], .0050001), 'revision/acf',
                      lambda: f'autocorrelation {got["auto_cor_r"]}, series gives {a[-1]} at lag {len(a) - 1}', monitor='revision')
            ck.nontrivial('revision', round(a[-1], 9))
        ps = [.06270678 / math.sqrt(m) for m in (len(seq), len(v))]
        ck.expect(any(close(got['auto_cor_p'], q, .0050001) for q in ps), 'revision/p', lambda: f'p {got["auto_cor_p"]}, expected {ps}',
                  monitor='revision')
    ck.finish(400)


main_guard(main)
