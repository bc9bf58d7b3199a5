"""C18: correlation of two samples (Pearson, rank and robust) with interval, p-value, power and Bayes factor."""
import math

import numpy as np
import pandas as pd
from scipy import special, stats

from vlib import Check, Raised, close, main_guard


def two_sided_p(r, n):
    if abs(r) >= 1:
        return 0.
    return float(special.betainc((n - 2) / 2, .5, 1 - r * r))


def pearson(a, b):
    ma, mb = math.fsum(a) / len(a), math.fsum(b) / len(b)
    sa = math.fsum((x - ma) ** 2 for x in a)
    sb = math.fsum((x - mb) ** 2 for x in b)
    return math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / math.sqrt(sa * sb)


def ranks(x):
    return [sum(1 for w in x if w < v) + (sum(1 for w in x if w == v) + 1) / 2 for v in x]


def tau_b(a, b):
    s = ta = tb = 0
    n = len(a)
    for i in range(n):
        for j in range(i):
            da, db = np.sign(a[i] - a[j]), np.sign(b[i] - b[j])
            s += da * db
            ta += da != 0
            tb += db != 0
    return s / math.sqrt(ta * tb)


def med(x):
    return float(np.median(x))


def bicor(a, b):
    def part(x):
        m = med(x)
        mad = med([abs(v - m) for v in x])
        if mad == 0:
            return None
        return [(v - m) * (1 - ((v - m) / (9 * mad)) ** 2) ** 2 if abs(v - m) < 9 * mad else 0. for v in x]
    x, y = part(a), part(b)
    if x is None or y is None:
        return None
    return math.fsum(v * w for v, w in zip(x, y)) / math.sqrt(math.fsum(v * v for v in x) * math.fsum(v * v for v in y))


def percbend(a, b):
    def part(x):
        m = med(x)
        n = len(x)
        omega = sorted(abs(v - m) for v in x)[int(.8 * n) - 1]
        if omega < 1e-9:
            return None
        if any(abs(abs(v - m) / omega - 1) < 1e-12 and abs(v - m) != omega for v in x):
            return None
        low = sum(1 for v in x if (v - m) / omega < -1)
        high = sum(1 for v in x if (v - m) / omega > 1)
        mid = math.fsum(v for v in x if -1 <= (v - m) / omega <= 1)
        loc = (mid + omega * (high - low)) / (n - low - high)
        return [min(1., max(-1., (v - loc) / omega)) for v in x]
    x, y = part(a), part(b)
    if x is None or y is None:
        return 'undecided'
    return math.fsum(v * w for v, w in zip(x, y)) / math.sqrt(math.fsum(v * v for v in x) * math.fsum(v * v for v in y))


def shepherd(rng, a, b):
    """Spearman without the points whose mean resampled Mahalanobis distance reaches 6"""
    x = np.column_stack((a, b))
    n = len(a)
    if n < 12:
        return 'undecided'
    reps = 1200
    dist = np.zeros((reps, n))
    for q in range(reps):
        s = x[rng.integers(0, n, n)]
        c = np.cov(s.T)
        if np.linalg.det(c) < 1e-9 * c[0, 0] * c[1, 1] or not c[0, 0] or not c[1, 1]:
            return 'undecided'
        d = x - s.mean(0)
        dist[q] = np.einsum('ij,jk,ik->i', d, np.linalg.inv(c), d)
    m = dist.mean(0)
    # the mean over 200 resamples must be clear of the limit
    if np.any(np.abs(m - 6) < 7 * dist.std(0) / math.sqrt(200) + .2):
        return 'undecided'
    keep = m < 6
    return [v for v, k in zip(a, keep) if k], [v for v, k in zip(b, keep) if k]


def power(r, n, tail):
    a = .025 if tail == 'two-sided' else .05
    t = float(stats.t.isf(a, n - 2))
    crit = math.atanh(t / math.sqrt(t * t + n - 2))
    z = math.atanh(abs(r)) + abs(r) / (2 * (n - 1))

    def phi(q):
        return .5 * math.erfc(-q / math.sqrt(2))
    res = phi((z - crit) * math.sqrt(n - 3))
    if tail == 'two-sided':
        res += phi((-z - crit) * math.sqrt(n - 3))
    return res


def bayes(r, n):
    """Jeffreys' exact factor with a flat prior of the correlation, by its hypergeometric series"""
    a, c, z = (n - 1) / 2, (n + 2) / 2, r * r
    term, total, k = 1., 1., 0
    while k < 20000:
        term *= (a + k) ** 2 / ((c + k) * (k + 1)) * z
        total += term
        k += 1
        if term < 1e-15 * total:
            break
    return math.exp(.5 * math.log(math.pi) - math.log(2) + math.lgamma((n + 1) / 2) - math.lgamma((n + 2) / 2)) * total


def main():
    from metcalcpy.util.correlation import corr
    ck = Check('C18', 'correlation results against an independent reference')
    methods = ['pearson', 'spearman', 'kendall', 'bicor', 'percbend', 'shepherd']
    for rng, i in ck.cases('corr', 300, 6000):
        method = methods[i % 6]
        n = int(rng.integers(6, 60))
        rho = float(rng.uniform(-.97, .97))
        a = rng.normal(size=n)
        b = rho * a + math.sqrt(1 - rho * rho) * rng.normal(size=n)
        style = rng.random()
        if method == 'shepherd' and rng.random() < .8:
            # points around an ellipse, where being an outlier is not a matter of chance
            n = int(rng.integers(14, 60))
            ang = rng.uniform(0, 2 * np.pi, n)
            a, b = np.cos(ang), np.sin(ang + rho * 1.4)
            style = style if style >= .25 else 1.
        if style < .25:
            a, b = np.round(a * 2), np.round(b * 2)
        elif style < .45:
            k = int(rng.integers(1, 3))
            a[rng.integers(0, n, k)] += float(rng.choice([-1, 1])) * float(rng.uniform(15, 60))
        a = a * float(10. ** rng.integers(-2, 4)) + float(rng.integers(-5, 6))
        b = b * float(10. ** rng.integers(-2, 4)) + float(rng.integers(-5, 6))
        if rng.random() < .4:
            for x in (a, b):
                x[rng.random(n) < .12] = np.nan
        tail = str(rng.choice(['two-sided', 'two-sided', 'one-sided']))
        x = [float(v) for v, w in zip(a, b) if not (math.isnan(v) or math.isnan(w))]
        y = [float(w) for v, w in zip(a, b) if not (math.isnan(v) or math.isnan(w))]
        ck.case_input = {'x': a.tolist(), 'y': b.tolist(), 'method': method, 'tail': tail}
        form = int(rng.integers(0, 3))
        args = [(a.copy(), b.copy()), (a.tolist(), b.tolist()), (pd.Series(a), pd.Series(b))][form]
        if len(x) < 5:
            ck.skip('too few pairs')
            continue
        spread = min(len(set(x)), len(set(y)))
        if spread == 1:
            if method in ('pearson', 'spearman', 'kendall'):
                got = ck.call(corr, *args, tail=tail, method=method)
                ck.expect(not isinstance(got, Raised) and np.isnan(got['r'].iloc[0]), 'constant', lambda: f'{method} of a constant: {got}', monitor='constant')
            else:
                ck.skip('constant sample')
            continue
        if method == 'pearson':
            r = pearson(x, y)
        elif method == 'spearman':
            r = pearson(ranks(x), ranks(y))
        elif method == 'kendall':
            r = tau_b(x, y)
        elif method == 'bicor':
            r = bicor(x, y)
        elif method == 'percbend':
            r = percbend(x, y)
        else:
            r = shepherd(rng, x, y)
            if r != 'undecided':
                if min(len(set(r[0])), len(set(r[1]))) < 2 or len(r[0]) < 5:
                    r = 'undecided'
                else:
                    sub = r
                    r = pearson(ranks(r[0]), ranks(r[1]))
                np.random.seed(int(rng.integers(1 << 30)))
        if r == 'undecided':
            ck.skip(f'{method} not determined')
            continue
        got = ck.call(corr, *args, tail=tail, method=method)
        if isinstance(got, Raised):
            ck.expect(False, method, f'{method} of {len(x)} pairs: {got}', monitor=method)
            continue
        ck.expect(int(got['n'].iloc[0]) == len(x), method + '/n', lambda: f'n {got["n"].iloc[0]}, {len(x)} complete pairs', monitor=method)
        if r is None:
            ck.expect(np.isnan(got['r'].iloc[0]), method + '/undefined', lambda: f'{method}: {got["r"].iloc[0]} without spread', monitor='constant')
            continue
        if abs(r) > .9999:
            ck.skip('correlation one')
            continue
        g = {c: got[c].iloc[0] for c in got.columns}
        n = len(x)
        ck.expect(close(g['r'], r, 1e-7), method + '/r', lambda: f'{method} r {g["r"]}, samples give {r}', monitor=method)
        ck.expect(close(g['r2'], r * r, 1e-6), method + '/r2', lambda: f'{method} r2 {g["r2"]}, samples give {r * r}', monitor=method)
        adj = 1 - (1 - r * r) * (n - 1) / (n - 3)
        ck.expect(close(g['adj_r2'], adj, 1e-6), method + '/adj', lambda: f'{method} adjusted r2 {g["adj_r2"]}, samples give {adj}', monitor=method)
        if method == 'kendall':
            p = float(stats.kendalltau(x, y).pvalue)
        elif method == 'shepherd':
            p = two_sided_p(r, len(sub[0]))
        else:
            p = two_sided_p(r, n)
        if tail == 'one-sided':
            p /= 2
        ck.expect(close(g['p-val'], p, 1e-7, 1e-5), method + '/p', lambda: f'{method} {tail} p {g["p-val"]}, samples give {p}', monitor=method)
        half = 1.959963984540054 / math.sqrt(n - 3)
        ci = [math.tanh(math.atanh(r) - half), math.tanh(math.atanh(r) + half)]
        ck.expect(all(close(u, v, .00501) for u, v in zip(g['CI95%'], ci)), method + '/ci', lambda: f'{method} interval {g["CI95%"]}, samples give {ci}',
                  monitor=method)
        w = power(r, n, tail)
        ck.expect(close(g['power'], w, 1e-6), method + '/power', lambda: f'{method} {tail} power {g["power"]}, samples give {w}', monitor=method)
        if method == 'pearson' and tail == 'two-sided' and abs(r) < .98:
            bf = bayes(r, n)
            ck.expect(close(float(g['BF10']), bf, 6e-4, 1e-3), 'pearson/bayes', lambda: f'Bayes factor {g["BF10"]}, samples give {bf}', monitor=method)
        ck.nontrivial(method, tail, round(r, 9))
        ck.sample({'method': method, 'n': n, 'r': r, 'p': p, 'ci': ci})
    ck.finish(400)


main_guard(main)
