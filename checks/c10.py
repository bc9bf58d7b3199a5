"""C10: the bootstrap resamples whole rows, in blocks, uniformly, and reports the requested percentiles."""
import numpy as np
import pandas as pd

from vlib import Check, is_missing, main_guard, Raised


def pooled(values):
    """module level so that worker processes can find it"""
    if values.ndim == 2:
        return [float(values[:, 1].sum() / values[:, 2].sum())]
    return [float(v[:, 1].sum() / v[:, 2].sum()) for v in values]


def pct(x, q):
    """linear interpolation of the order statistics"""
    x = sorted(float(v) for v in x)
    pos = (len(x) - 1) * q
    k = int(np.floor(pos))
    f = pos - k
    return x[k] if k + 1 >= len(x) else x[k] + f * (x[k + 1] - x[k])


class Recorder:
    """statistic that records every array it was handed"""

    def __init__(self, stat):
        self.stat = stat
        self.point = []
        self.sims = []
        self.out = []

    def __call__(self, values):
        if values.ndim == self.base_ndim:
            self.point.append(np.array(values))
            return [self.stat(values)]
        res = []
        for v in values:
            self.sims.append(np.array(v))
            r = self.stat(v)
            self.out.append(r)
            res.append(r)
        return res


def main():
    from metcalcpy import bootstrap as bs
    ck = Check('C10', 'random tables of 1-60 rows with an identifying column, 1-400 resamples in batches of any size, block '
                      'lengths 1..n, both interval methods, statistics that are undefined on some resamples, 1-4 worker '
                      'processes; a recording statistic observes every resample; non-trivial = at least two rows and ten '
                      'resamples; identity = table, block length, alpha and method')
    for rng, i in ck.cases('resample', 1500, 8000):
        n = int(rng.choice([1, 2, 3, 5, 8, 13, 30, 60]))
        cols = int(rng.integers(2, 6))
        ids = np.arange(n)
        data = np.column_stack([ids] + [rng.normal(j, 1 + j, n) for j in range(cols)])
        obj = rng.random() < .3
        if obj:
            data = data.astype(object)
        if rng.random() < .1:
            data[:, 1:] = 2.5
        none_p = float(rng.choice([0, 0, 0, .2, .9]))

        def stat(v, none_p=none_p):
            a = np.asarray(v[:, 1], float)
            if none_p and v.shape[0] and (int(round(float(np.asarray(v[:, 0], float).sum()))) * 7919 % 1000) / 1000. < none_p:
                return None
            return float(a.mean())
        B = int(rng.choice([2, 10, 37, 100, 400])) if n < 60 else 40
        b = int(rng.choice([1, 1, 2, 3, max(1, int(np.sqrt(n))), n]))
        b = min(b, n)
        alpha = float(rng.choice([.05, .05, .01, .1, .5, .32]))
        method = str(rng.choice(['perc', 'perc', 'pivotal']))
        batch = None if rng.random() < .5 else int(rng.integers(1, B + 5))
        rec = Recorder(stat)
        rec.base_ndim = 2
        seed = int(rng.integers(1, 1 << 30))
        kw = dict(alpha=alpha, num_iterations=B, iteration_batch_size=batch, num_threads=1, ci_method=method,
                  save_data=bool(rng.random() < .5), save_distributions=bool(rng.random() < .5), block_length=b)
        ck.case_input = {'data': data, **kw, 'none_p': none_p, 'seed': seed}
        keep = data.copy()
        np.random.seed(seed)
        got = ck.call(bs.bootstrap_and_value, data, rec, **kw)
        if isinstance(got, Raised):
            ck.expect(False, 'raised', f'{got} n={n} B={B} method={method} none={none_p}', monitor='result')
            continue
        ck.expect(np.array_equal(data, keep), 'mutated', 'the input table was modified', monitor='purity')
        ck.expect(len(rec.sims) == B, 'count', lambda: f'{len(rec.sims)} resamples instead of {B} (batch {batch})', monitor='resamples')
        bad = [s for s in rec.sims if s.shape != data.shape]
        if not ck.expect(not bad, 'size', lambda: f'resample of shape {bad[0].shape} from a table {data.shape}', monitor='resamples'):
            continue
        src = {int(r[0]): r for r in data}
        mixed = next((r for s in rec.sims for r in s if not np.array_equal(r, src.get(int(r[0])))), None)
        ck.expect(mixed is None, 'rows', lambda: f'resampled row {mixed} is not a row of the table', monitor='resamples')
        if b > 1:
            broken = None
            for s in rec.sims:
                x = [int(v) for v in s[:, 0]]
                for j in range(1, n):
                    if j % b and x[j] != (x[j - 1] + 1) % n:
                        broken = (x, j)
                        break
                if broken:
                    break
            ck.expect(broken is None, 'blocks', lambda: f'block length {b}, {n} rows: resample {broken[0]} breaks at {broken[1]}',
                      monitor='blocks')
        starts = n / b
        if n >= 8 and starts >= 4 and B >= 30:
            seq = [tuple(int(v) for v in s[:, 0]) for s in rec.sims]
            ck.expect(len(set(seq)) >= B * .6, 'variety', lambda: f'only {len(set(seq))} distinct resamples of {B}', monitor='uniform')
            cnt = np.bincount(np.concatenate(seq), minlength=n)
            exp = float(B)
            sd = np.sqrt(B * b)
            ck.expect(np.all(np.abs(cnt - exp) < 8 * sd + 2 * b), 'uniform',
                      lambda: f'row drawn {cnt.max()} or {cnt.min()} times, expected about {exp}', monitor='uniform')
            lens = {len(set(s)) for s in seq}
            if b == 1:
                ck.expect(min(lens) < n, 'replacement', 'no resample repeats a row: drawn without replacement', monitor='uniform')
        # results
        val = stat(data)
        if val is None:
            ck.expect(got.value is None and got.lower_bound is None and got.upper_bound is None, 'undefined',
                      lambda: f'{got} for an undefined statistic', monitor='result')
        else:
            ck.expect(got.value is not None and abs(got.value - val) < 1e-9, 'value', lambda: f'value {got.value} instead of {val}',
                      monitor='result')
            d = [x for x in rec.out if x is not None]
            if not d:
                want = (None, None)
            elif method == 'perc':
                want = (None, None) if len(set(d)) == 1 else (pct(d, alpha / 2), pct(d, 1 - alpha / 2))
            else:
                want = (2 * val - pct(d, 1 - alpha / 2), 2 * val - pct(d, alpha / 2))
            g = (got.lower_bound, got.upper_bound)
            ok = all((x is None and y is None) or (x is not None and y is not None and abs(float(x) - y) < 1e-9 + 1e-9 * abs(y))
                     for x, y in zip(g, want))
            ck.expect(ok, f'interval/{method}', lambda: f'interval {g}, {len(d)} resample values give {want} at alpha {alpha}',
                      monitor='interval')
            if n > 1 and B >= 10:
                ck.nontrivial(data.tolist(), b, alpha, method)
        if not kw['save_data']:
            ck.expect(got.values is None, 'unsaved', 'the table is kept although not asked for', monitor='saved')
        if not kw['save_distributions']:
            ck.expect(got.distributions is None, 'unsaved', 'the distribution is kept although not asked for', monitor='saved')
        if kw['save_data']:
            ck.expect(got.values is not None and np.array_equal(got.values, data), 'saved', 'the saved table differs', monitor='saved')
        if kw['save_distributions']:
            ck.expect(got.distributions is not None and list(got.distributions) == rec.out, 'distributions',
                      'the saved distribution differs from the resample statistics', monitor='saved')
        # reproducible
        if i % 3 == 0:
            rec2 = Recorder(stat)
            rec2.base_ndim = 2
            np.random.seed(seed)
            g2 = ck.call(bs.bootstrap_and_value, data, rec2, **kw)
            ck.expect(not isinstance(g2, Raised) and g2.lower_bound == got.lower_bound and g2.upper_bound == got.upper_bound and
                      all(np.array_equal(x, y) for x, y in zip(rec.sims, rec2.sims)), 'seed', 'same seed, other resamples', monitor='seed')
            np.random.seed(seed + 1)
            rec2.sims = []
            ck.call(bs.bootstrap_and_value, data, rec2, **kw)
            if n >= 8 and starts >= 4 and B >= 10:
                ck.expect(not all(np.array_equal(x, y) for x, y in zip(rec.sims, rec2.sims)), 'reseed',
                          'another seed gives the very same resamples', monitor='seed')
        ck.sample({'n': n, 'B': B, 'block': b, 'alpha': alpha, 'method': method, 'result': str(got)})

    # two arrays side by side (a third axis), as used for derived curves: pairs stay together
    for rng, i in ck.cases('curves', 120, 1500):
        n = int(rng.choice([2, 5, 12, 25]))
        B = int(rng.choice([20, 60]))
        k = int(rng.integers(2, 6))
        cl = np.sort(rng.uniform(.05, .95, k))
        flat = int(rng.random() < .4)
        data = np.column_stack([np.arange(n), rng.normal(size=n)])
        outs = []

        def stat(v):
            m = float(np.mean(v[:, 1]))
            # the last point of some curves is the same in every resample
            return {'V': np.array([m * (j + 1) + (j % 2) if j < k - flat else .25 for j in range(k)]), 'cl': cl}

        def fn(values):
            if values.ndim == 2:
                return [stat(values)]
            r = [[stat(v)] for v in values]
            outs.extend(x[0] for x in r)
            return r
        alpha = float(rng.choice([.05, .2, .5]))
        method = str(rng.choice(['perc', 'pivotal']))
        ck.case_input = {'data': data, 'alpha': alpha, 'method': method, 'B': B}
        np.random.seed(int(rng.integers(1 << 30)))
        got = ck.call(bs.bootstrap_and_value, data, fn, alpha=alpha, num_iterations=B, num_threads=1, ci_method=method,
                      save_data=False, block_length=int(rng.choice([1, 2])), eclv=True)
        if isinstance(got, Raised):
            ck.expect(False, 'curves/raised', f'{got}', monitor='curves')
            continue
        v = stat(data)['V']
        for j in range(k):
            d = [o['V'][j] for o in outs]
            if len(set(d)) == 1:
                if method == 'perc':
                    ck.expect(got.lower_bound[j] is None and got.upper_bound[j] is None, 'curves/equal',
                              lambda: f'point {j}: ({got.lower_bound[j]}, {got.upper_bound[j]}) though all resamples agree', monitor='curves')
                continue
            want = (pct(d, alpha / 2), pct(d, 1 - alpha / 2))
            if method == 'pivotal':
                want = (2 * v[j] - want[1], 2 * v[j] - want[0])
            ck.expect(abs(got.lower_bound[j] - want[0]) < 1e-9 and abs(got.upper_bound[j] - want[1]) < 1e-9,
                      f'curves/interval/{method}', lambda: f'point {j}: ({got.lower_bound[j]}, {got.upper_bound[j]}) instead of {want}',
                      monitor='curves')
        ck.expect(np.allclose(got.value['V'], v), 'curves/value', 'the curve itself changed', monitor='curves')
        ck.nontrivial('curves', data.tolist(), alpha, method)

    # worker processes
    for rng, i in ck.cases('workers', 8, 60):
        n = int(rng.choice([10, 25]))
        data = np.column_stack([np.arange(n), rng.normal(5, 2, n), rng.integers(1, 50, n)])
        B = int(rng.choice([24, 50, 61]))
        w = int(rng.choice([2, 3, 4]))
        seed = int(rng.integers(1, 1 << 30))
        alpha = .1
        kw = dict(alpha=alpha, num_iterations=B, num_threads=w, save_distributions=True, block_length=int(rng.choice([1, 3])))
        ck.case_input = {'data': data, **kw}
        res = []
        for _ in range(2):
            np.random.seed(seed)
            res.append(ck.call(bs.bootstrap_and_value, data, pooled, **kw))
        if any(isinstance(r, Raised) for r in res):
            ck.expect(False, 'workers/raised', f'{res}', monitor='workers')
            continue
        d = [float(x) for x in res[0].distributions]
        ck.expect(len(d) >= B and len(d) < B + w, 'workers/count', lambda: f'{len(d)} resamples with {w} workers for {B} requested',
                  monitor='workers')
        ck.expect(len(set(d)) >= .75 * len(d), 'workers/duplicated', lambda: f'{len(d)} resamples but {len(set(d))} distinct: '
                  'workers repeat each other', monitor='workers')
        ck.expect(d == [float(x) for x in res[1].distributions], 'workers/seed', 'same seed, other distribution', monitor='workers')
        ck.expect(abs(res[0].lower_bound - pct(d, alpha / 2)) < 1e-9 and abs(res[0].upper_bound - pct(d, 1 - alpha / 2)) < 1e-9,
                  'workers/interval', f'{res[0]}', monitor='workers')
        ck.expect(abs(res[0].value - pooled(data)[0]) < 1e-12, 'workers/value', f'{res[0]}', monitor='workers')
        ck.nontrivial('workers', n, B, w, seed)

    # what is not stated: 1000 resamples of single rows, percentile bounds at alpha 0.05, the table kept, the distribution not
    for rng, i in ck.cases('defaults', 6, 40):
        n = int(rng.integers(8, 20))
        data = np.column_stack([np.arange(n), rng.normal(size=n)])
        rec = Recorder(lambda v: float(v[:, 1].mean()))
        rec.base_ndim = 2
        np.random.seed(int(rng.integers(1 << 30)))
        ck.case_input = {'data': data}
        got = ck.call(bs.bootstrap_and_value, data, rec)
        if isinstance(got, Raised):
            ck.expect(False, 'defaults/raised', f'{got}', monitor='defaults')
            continue
        ok = len(rec.sims) == 1000 and abs(got.lower_bound - pct(rec.out, .025)) < 1e-9 and abs(got.upper_bound - pct(rec.out, .975)) < 1e-9
        ck.expect(ok and got.values is not None and got.distributions is None, 'defaults', lambda: f'{len(rec.sims)} resamples, {got}', monitor='defaults')
        runs = sum(bool(np.all(np.diff(s[:, 0]) % n == 1)) for s in rec.sims)
        ck.expect(runs == 0, 'defaults/blocks', f'{runs} resamples in one run', monitor='defaults')
        ck.nontrivial('defaults', data.tolist())
        # object cases: the statistic is told which cases were drawn
        cases = np.array([f'c{j}' for j in range(n)]).reshape(-1, 1)
        frame = pd.DataFrame({'x': np.round(rng.normal(size=2 * n), 4), 'case': np.repeat(cases.ravel(), 2)})
        look = dict(zip(cases.ravel(), frame['x'].to_numpy().reshape(n, 2).mean(1)))
        val = float(frame['x'].mean())
        if rng.random() < .5:
            # objects of other cases are left out
            frame = pd.concat([frame, pd.DataFrame({'x': [7., -9.], 'case': ['other', 'c1b']})], ignore_index=True)
            frame = frame.iloc[rng.permutation(len(frame))].reset_index(drop=True)
        seen, outs = [], []

        def fn(v):
            if v.ndim == 2:
                return [float(np.mean(np.asarray(v[:, 0], float)))]
            seen.extend(np.array(x) for x in v)
            r = [float(np.mean([look[c] for c in x.ravel()])) for x in v]
            outs.extend(r)
            return r
        kw = {} if i % 2 else dict(alpha=.3, num_iterations=80, iteration_batch_size=int(rng.integers(1, 90)), save_data=False, save_distributions=True,
                                   ci_method=str(rng.choice(['perc', 'pivotal'])), block_length=int(rng.choice([1, 2, 3])))
        np.random.seed(int(rng.integers(1 << 30)))
        got = ck.call(bs.bootstrap_and_value_mode, frame, cases, fn, **kw)
        ck.case_input = {'frame': frame, **kw}
        if isinstance(got, Raised):
            ck.expect(False, 'cases/raised', f'{got}', monitor='cases')
            continue
        a = kw.get('alpha', .05)
        want = (pct(outs, a / 2), pct(outs, 1 - a / 2))
        if kw.get('ci_method') == 'pivotal':
            want = (2 * val - want[1], 2 * val - want[0])
        ck.expect(len(outs) == kw.get('num_iterations', 1000) and all(x.shape == cases.shape and set(x.ravel()) <= set(look) for x in seen), 'cases/resamples',
                  lambda: f'{len(outs)} resamples', monitor='cases')
        ck.expect(abs(got.value - val) < 1e-9 and abs(got.lower_bound - want[0]) < 1e-9 and abs(got.upper_bound - want[1]) < 1e-9, 'cases/interval',
                  lambda: f'{got}, resamples give {want}', monitor='cases')
        ck.expect((got.values is not None) == kw.get('save_data', True) and (got.distributions is not None) == kw.get('save_distributions', False),
                  'cases/saved', 'saved or left out against the settings', monitor='cases')
        b = kw.get('block_length', 1)
        pos = {c: j for j, c in enumerate(cases.ravel())}
        bad = next((x for x in seen for j in range(1, n) if j % b and pos[x.ravel()[j]] != (pos[x.ravel()[j - 1]] + 1) % n), None)
        ck.expect(bad is None, 'cases/blocks', lambda: f'block length {b}: {bad.ravel()}', monitor='cases')

    # provided statistics work on every row of a table; unusable tables are refused
    for rng, i in ck.cases('provided', 100, 1000):
        x = rng.normal(size=(int(rng.integers(1, 5)), int(rng.integers(2, 8))))
        for f, ref in ((bs.mean, np.mean), (bs.sum, np.sum), (bs.median, np.median), (bs.std, np.std)):
            for ax in ({}, {'axis': 0}, {'axis': 1}):
                g = ck.call(f, x, **ax)
                ck.expect(not isinstance(g, Raised) and np.allclose(g, ref(x, axis=ax.get('axis', 1)), atol=1e-12), f'provided/{ref.__name__}', lambda: f'{g}',
                          monitor='provided')
        g = ck.call(bs.bootstrap_and_value, x.tolist(), lambda v: [0.], num_iterations=5)
        ck.expect(isinstance(g, Raised), 'provided/refused', f'a list gave {g}', monitor='provided')

    # arithmetic of results
    for rng, i in ck.cases('arith', 300, 4000):
        v = float(rng.normal(0, 3))
        lo, hi = sorted(v + rng.normal(0, 2, 2))
        if rng.random() < .3:
            lo, hi = hi, lo
        k = float(rng.choice([0, 1, -1, 2.5, -3, rng.normal()]))
        r = bs.BootstrapResults(lo, v, hi)
        a, b = min(lo, hi), max(lo, hi)
        ck.case_input = {'lower': lo, 'value': v, 'upper': hi, 'k': k}
        for nm, fn, f in (('self', lambda: r, lambda x: x), ('add', lambda: r + k, lambda x: x + k), ('radd', lambda: k + r, lambda x: x + k),
                          ('sub', lambda: r - k, lambda x: x - k), ('rsub', lambda: k - r, lambda x: k - x),
                          ('mul', lambda: r * k, lambda x: x * k), ('rmul', lambda: k * r, lambda x: x * k)):
            g = ck.call(fn)
            if isinstance(g, Raised):
                ck.expect(False, f'arith/{nm}', f'{g}', monitor='arith')
                continue
            want = sorted([f(a), f(b)])
            ck.expect(np.allclose([g.lower_bound, g.value, g.upper_bound], [want[0], f(v), want[1]], rtol=1e-12, atol=1e-12),
                      f'arith/{nm}', lambda: f'{nm} with {k} of ({a}, {v}, {b}) gave {g}', monitor='arith')
        ck.expect(abs(r.error_width() - (b - a)) < 1e-12, 'arith/width', f'{r.error_width()}', monitor='arith')
        if a * b != 0:
            ck.expect(bool(r.is_significant()) == (a * b > 0), 'arith/sig', f'{r} significant {r.is_significant()}', monitor='arith')
            ck.expect(r.get_result() == (0 if a * b < 0 else np.sign(v)), 'arith/result', f'{r} result {r.get_result()}', monitor='arith')
    ck.finish(1000)


if __name__ == '__main__':
    main_guard(main)
