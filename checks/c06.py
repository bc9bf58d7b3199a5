"""C06: probability statistics from PCT counts equal the direct statistics of the individual forecasts."""
from fractions import Fraction

import numpy as np

from vlib import Check, close, main_guard
import gen


def main():
    from metcalcpy.util import pstd_statistics as ps
    ck = Check('C06', 'random probability tables: 1-12 probability bins (distinct, any column order of the three '
                      'blocks), event/non-event counts with empty bins and empty classes, spread over 1-12 rows; oracle '
                      'computes the mean squared error of the implied individual forecasts, its decomposition and the '
                      'rank probability P(event scored higher)+P(tie)/2 with exact fractions; non-trivial = both '
                      'events and non-events present; identity = counts and thresholds')

    def table(rng, th, oy, on, order):
        """oy, on: rows x bins"""
        k = len(th)
        r = len(oy)
        blocks = {'thresh': [(f'thresh_i_{b}', np.full(r, th[b])) for b in order],
                  'oy': [(f'oy_i_{b}', oy[:, b]) for b in order],
                  'on': [(f'on_i_{b}', on[:, b]) for b in order]}
        tot = int(oy.sum() + on.sum())
        ob = float(oy.sum() / tot) if tot else 0.
        rest = [('o_bar', np.full(r, ob)), ('total', (oy + on).sum(axis=1)), ('T', np.full(r, tot))]
        keys = list(rng.permutation(['thresh', 'oy', 'on', 'rest']))
        if rng.random() < .5:
            # interleaved like the database export
            cols = [c for b in range(k) for c in (blocks['thresh'][b], blocks['oy'][b], blocks['on'][b])] + rest
        else:
            cols = [c for key in keys for c in (rest if key == 'rest' else blocks[key])]
        mode = rng.choice(['float', 'object'])
        if mode == 'float':
            data = np.column_stack([c[1] for c in cols]).astype(float)
        else:
            cols.append(('model', np.array(['m'] * r, dtype=object)))
            data = np.empty((r, len(cols)), dtype=object)
            for j, c in enumerate(cols):
                data[:, j] = list(c[1])
        return data, np.array([c[0] for c in cols]), mode

    for rng, i in ck.cases('pct', 900, 15000):
        k = int(rng.choice([1, 2, 3, 5, 9, 12]))
        th = np.sort(rng.choice(np.arange(0, 101), k, replace=False)) / 100
        r = int(rng.choice([1, 1, 2, 3, 12, 12, 1100 if i % 20 == 0 else 130]))
        big = int(rng.choice([2, 10, 500]))
        oy, on = rng.integers(0, big, (r, k)), rng.integers(0, big, (r, k))
        z = rng.random()
        if z < .1:
            oy[:] = 0
        elif z < .2:
            on[:] = 0
        elif z < .5:
            drop = rng.random(k) < .4
            oy[:, drop] = 0
            on[:, drop] = 0
        order = list(range(k)) if rng.random() < .6 else list(rng.permutation(k))
        data, names, mode = table(rng, th, oy, on, order)
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist()}
        before = data.copy()
        E = [int(x) for x in oy.sum(axis=0)]
        NE = [int(x) for x in on.sum(axis=0)]
        P = [Fraction(int(round(t * 100)), 100) for t in th]
        T, S = sum(E) + sum(NE), sum(E)
        want = {}
        if T == 0:
            want = dict.fromkeys(['brier', 'bss_smpl', 'baser', 'reliability', 'resolution', 'uncertainty'])
        else:
            ob = Fraction(S, T)
            brier = sum(E[b] * (1 - P[b]) ** 2 + NE[b] * P[b] ** 2 for b in range(k)) / T
            rel = sum((E[b] + NE[b]) * (P[b] - Fraction(E[b], E[b] + NE[b])) ** 2 for b in range(k)
                      if E[b] + NE[b]) / T
            res = sum((E[b] + NE[b]) * (Fraction(E[b], E[b] + NE[b]) - ob) ** 2 for b in range(k) if E[b] + NE[b]) / T
            unc = ob * (1 - ob)
            assert brier == rel - res + unc
            want = {'brier': brier, 'baser': ob, 'reliability': rel, 'resolution': res, 'uncertainty': unc,
                    'bss_smpl': 1 - brier / unc if unc else None}
            if 0 < S < T:
                n = T - S
                auc = sum(Fraction(E[a] * NE[b]) * (1 if P[a] > P[b] else Fraction(1, 2) if a == b else 0)
                          for a in range(k) for b in range(k)) / (S * n)
                want['roc_auc'] = auc
            else:
                want['roc_auc'] = None
        for s, w in want.items():
            got = ck.call(getattr(ps, f'calculate_pstd_{s}'), data, names)
            ck.expect(close(got, None if w is None else float(w), 1e-7), f'pstd_{s}',
                      lambda: f'pstd_{s} of E={E} NE={NE} p={th.tolist()} rows={r}: got {got!r}, individual forecasts '
                              f'give {w if w is None else float(w)}', monitor=s)
        got = ck.call(ps.calculate_pct_total, data, names)
        ck.expect(close(got, T), 'pct_total', lambda: f'pct_total {got!r} want {T}', monitor='total')
        ck.expect(bool((before == data).all()), 'mutated', 'the caller\'s table was modified', monitor='purity')
        if 0 < S < T:
            ck.nontrivial(E, NE, th.tolist(), r)
        ck.sample({'events': E, 'nonevents': NE, 'p': th, 'rows': r})

    # one probability bin per table (the calibration statistics)
    for rng, i in ck.cases('bin', 600, 6000):
        r = int(rng.choice([1, 2, 5, 20, 1100 if i % 20 == 0 else 130]))
        oy, on = rng.integers(0, 50, r), rng.integers(0, 50, r)
        if rng.random() < .1:
            oy[:] = on[:] = 0
        data, names, mode = gen.as_table(rng, ('thresh_i', 'oy_i', 'on_i'), (np.full(r, .35), oy, on))
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist()}
        n = int(oy.sum() + on.sum())
        got = ck.call(ps.calculate_pstd_ni, data, names)
        ck.expect(close(got, n), 'pstd_ni', lambda: f'pstd_ni {got!r} want {n}', monitor='ni')
        got = ck.call(ps.calculate_pstd_calibration, data, names)
        w = oy.sum() / n if n else None
        ck.expect(close(got, w, 1e-7), 'pstd_calibration', lambda: f'calibration {got!r} want {w}', monitor='calibration')
        got = ck.call(ps.calculate_pstd_baser, data, names)
        ck.expect(close(got, w, 1e-7), 'pstd_baser/bin', lambda: f'baser {got!r} want {w}', monitor='baser')
        if n:
            ck.nontrivial('bin', oy.tolist(), on.tolist())
    ck.finish(3000)


main_guard(main)
