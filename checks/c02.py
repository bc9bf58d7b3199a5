"""C02: thresholds sort by value then operator, and the CTC ROC curve follows that order with pooled counts."""
import numpy as np
import pandas as pd

from vlib import Check, close, is_missing, main_guard, Raised

OPS = ['<', '<=', '==', '', '>=', '>']
WT = {'<': 1, '<=': 2, '==': 3, '': 3, '>=': 4, '>': 5}


def numtext(rng, v):
    """one of the ways a number may be written"""
    if float(v).is_integer() and rng.random() < .7:
        return str(int(v))
    return repr(float(v))


def thresholds(rng, kind, n):
    """list of (text, key)"""
    res = []
    if kind == 'text':
        pre = rng.choice(['SFP', 'CDP', 'SOP', 'USP'])
        for _ in range(n):
            op = str(rng.choice(OPS[:3] + OPS[4:] if rng.random() < .7 else OPS))
            val = f'{pre}{int(rng.integers(1, 99))}'
            res.append((op + val, (val, WT[op])))
        return res
    pool = {'int': lambda: int(rng.integers(-20, 200)), 'dec': lambda: round(float(rng.uniform(-5, 40)), 2),
            'tiny': lambda: float(rng.choice([0.001, 0.01, 0.1, 1e-05, 0.0005])),
            'temp': lambda: round(float(rng.uniform(233, 310)), 1),
            'dup': lambda: int(rng.integers(0, 3))}[kind]
    one = str(rng.choice(OPS)) if rng.random() < .4 else None
    for _ in range(n):
        op = one if one is not None else str(rng.choice(OPS))
        v = pool()
        res.append((op + numtext(rng, v), (float(v), WT[op])))
    return res


def main():
    from metcalcpy.util import ctc_statistics as ctc
    ck = Check('C02', 'random frames of 1-400 rows whose threshold column mixes operators and integer, decimal, negative, '
                      'tiny and text (percentile) thresholds with duplicates; both directions; oracle orders by '
                      '(value, operator rank), compares the multiset of rows, and pools the counts per threshold; '
                      'non-trivial = at least two distinct thresholds; identity = threshold texts and direction')
    for rng, i in ck.cases('sort', 800, 12000):
        kind = str(rng.choice(['int', 'dec', 'tiny', 'temp', 'dup', 'text']))
        n = int(rng.choice([1, 2, 3, 6, 12, 40, 400]))
        col = str(rng.choice(['fcst_thresh', 'obs_thresh', 'thr']))
        th = thresholds(rng, kind, n)
        df = pd.DataFrame({'a': np.arange(n), col: [t[0] for t in th], 'b': rng.normal(size=n)})
        if rng.random() < .3:
            df.index = rng.permutation(n) + 5
        ck.case_input = {'thresholds': [t[0] for t in th], 'column': col}
        before = df.copy()
        asc = bool(rng.random() < .5)
        kw = {} if asc and rng.random() < .5 else {'ascending': asc}
        got = ck.call(ctc.sort_by_thresh, df, *(() if col == 'fcst_thresh' else (col,)), **kw)
        if isinstance(got, Raised):
            ck.expect(False, f'sort/raised/{kind}', f'sort_by_thresh raised {got} on {[t[0] for t in th][:8]}')
            continue
        key = dict(zip(range(n), [t[1] for t in th]))
        order = [key[a] for a in got['a']]
        ok = all((x <= y) if asc else (x >= y) for x, y in zip(order, order[1:]))
        ck.expect(ok, f'sort/order/{"text" if kind == "text" else "num"}',
                  lambda: f'ascending={asc}: order {list(got[col])[:12]} of {[t[0] for t in th][:12]}', monitor='order')
        ck.expect(len(got) == n and sorted(got['a']) == list(range(n)) and
                  all(got[col].iloc[j] == before[col].iloc[a] and got['b'].iloc[j] == before['b'].iloc[a]
                      for j, a in enumerate(got['a'])), 'sort/rows', 'rows lost, duplicated or altered by the sort',
                  monitor='rows')
        ck.expect(list(got.index) == list(range(n)), 'sort/index', lambda: f'result index {list(got.index)[:5]}',
                  monitor='rows')
        ck.expect(df.equals(before) and list(df.columns) == list(before.columns), 'sort/mutated',
                  lambda: f'the caller\'s frame was modified: columns {list(df.columns)}', monitor='purity')
        if len(set(t[1] for t in th)) > 1:
            ck.nontrivial('sort', kind, asc, [t[0] for t in th])
        ck.sample({'kind': kind, 'ascending': asc, 'thresholds': [t[0] for t in th][:8]})

    for rng, i in ck.cases('roc', 400, 6000):
        kind = str(rng.choice(['int', 'dec', 'tiny', 'temp', 'text']))
        m = int(rng.choice([1, 2, 3, 5, 9, 15]))
        op = str(rng.choice(['>=', '>', '<', '<=', '==']))
        pool = {}
        for t, k in thresholds(rng, kind, m):
            # one spelling per value, as in a real data set, and now and then several operators
            v = k[0]
            o = op if i % 3 else str(rng.choice(['>=', '>', '<', '<=', '==']))
            spelt = pool.get(v, (v if kind == 'text' else numtext(rng, v), {}))
            spelt[1].setdefault(o, (o + spelt[0], (v, WT[o])))
            pool[v] = spelt
            if i % 3 == 0 and rng.random() < .5:
                o = str(rng.choice(['>=', '>', '<', '<=', '==']))
                spelt[1].setdefault(o, (o + spelt[0], (v, WT[o])))
        pool = [t for _, by in pool.values() for t in by.values()]
        n = int(rng.choice([1, 3, 10, 60, 300]))
        pick = rng.integers(0, len(pool), n)
        big = int(rng.choice([2, 50, 100000]))
        c = rng.integers(0, big, (n, 4))
        if rng.random() < .2:
            c[:, rng.integers(0, 4)] = 0
        df = pd.DataFrame({'fcst_thresh': [pool[j][0] for j in pick], 'fy_oy': c[:, 0], 'fy_on': c[:, 1],
                           'fn_oy': c[:, 2], 'fn_on': c[:, 3], 'fcst_valid_beg': '2012-04-09 12:00:00',
                           'fcst_lead': 150000, 'total': c.sum(axis=1)})
        asc = bool(rng.random() < .5)
        ck.case_input = {'frame': df, 'ascending': asc}
        before = df.copy()
        got = ck.call(ctc.calculate_ctc_roc, df, asc)
        if isinstance(got, Raised):
            ck.expect(False, f'roc/raised/{kind}', f'calculate_ctc_roc raised {got}')
            continue
        used = sorted({pool[j] for j in pick}, key=lambda t: t[1], reverse=not asc)
        ck.expect(list(got['thresh']) == [u[0] for u in used], 'roc/order',
                  lambda: f'thresholds {list(got["thresh"])} expected {[u[0] for u in used]} ascending={asc}',
                  monitor='roc-order')
        for _, row in got.iterrows():
            rows = before[before['fcst_thresh'] == row['thresh']]
            a, b, cc, d = (int(rows[x].sum()) for x in ('fy_oy', 'fy_on', 'fn_oy', 'fn_on'))
            for s, num, den in (('pody', a, a + cc), ('pofd', b, b + d)):
                w = num / den if den else None
                g = row[s]
                ok = is_missing(g) if w is None else close(g, w, 1e-7)
                ck.expect(ok, f'roc/{s}', lambda: f'{s} at {row["thresh"]}: got {g!r}, pooled counts give {w!r}',
                          monitor='roc-value')
        ck.expect(df.equals(before) and list(df.columns) == list(before.columns), 'roc/mutated',
                  lambda: 'the caller\'s frame was modified', monitor='purity')
        if len(used) > 1:
            ck.nontrivial('roc', kind, asc, [u[0] for u in used], c.tolist()[:3])
    ck.finish(2000)


main_guard(main)
