"""C07: neighbourhood continuous scores (NBRCNT) and the multi-category skill score of pooled rows."""
from fractions import Fraction

import numpy as np

from vlib import Check, close, main_guard
import gen


def main():
    from metcalcpy.util import nbrcnt_statistics as nb, mcts_statistics as mc
    ck = Check('C07', 'random fraction fields per row (fbs/fss/rates computed from per-row forecast and observed '
                      'fractions, 1-60 rows of unequal totals) and random k x k category tables (k 2-8, cells in any '
                      'order, 1-30 rows, category counts possibly zero); oracle pools the raw fractions / the integer '
                      'counts; non-trivial = defined score; identity = rows, totals, leading values')

    for rng, i in ck.cases('nbrcnt', 1500, 25000):
        k = int(rng.choice([1, 2, 3, 5, 12, 60, 60, 1100 if i % 10 == 0 else 130]))
        n = rng.integers(1, int(rng.choice([3, 30, 300])) + 1, k)
        f, o = [], []
        z = rng.random()
        for m in n:
            a, b = rng.integers(0, 5, m) / 4, rng.integers(0, 5, m) / 4
            if z < .08:
                a[:] = 0
                b[:] = 0
            elif z < .14:
                b[:] = 0
            elif z < .2:
                a = b.copy()
            f.append(a)
            o.append(b)
        F, O = np.concatenate(f), np.concatenate(o)
        N = len(F)
        fbs, den = float(np.mean((F - O) ** 2)), float(np.mean(F * F) + np.mean(O * O))
        fr, orr = float(np.mean(F)), float(np.mean(O))
        ref = {'nbr_fbs': fbs, 'nbr_f_rate': fr, 'nbr_o_rate': orr, 'nbr_ufss': .5 + orr / 2,
               'nbr_fss': 1 - fbs / den if den else None,
               'nbr_afss': 2 * fr * orr / (fr * fr + orr * orr) if fr or orr else None}
        for agg in (True, False):
            # 'fss' holds the denominator of the score, as prepared by the driver
            if agg:
                tab = [('total', n), ('fbs', np.array([np.sum((a - b) ** 2) for a, b in zip(f, o)])),
                       ('fss', np.array([np.sum(a * a) + np.sum(b * b) for a, b in zip(f, o)])),
                       ('f_rate', np.array([a.sum() for a in f])), ('o_rate', np.array([b.sum() for b in o]))]
            else:
                tab = [('total', np.array([N])), ('fbs', np.array([fbs])), ('fss', np.array([den])),
                       ('f_rate', np.array([fr])), ('o_rate', np.array([orr]))]
            cols, vals = zip(*tab)
            data, names, mode = gen.as_table(rng, cols, vals)
            ck.case_input = {'columns': names.tolist(), 'rows': data.tolist(), 'aggregation': agg}
            before = data.copy()
            for s, w in ref.items():
                got = ck.call(getattr(nb, f'calculate_{s}'), data, names, *(() if not agg and (len(s) + ck.evaluations) % 2 else (agg,)))
                ck.expect(close(got, w, 1e-7), f'{s}/{"agg" if agg else "row"}',
                          lambda: f'{s} rows={len(vals[0])} agg={agg}: got {got!r}, pooled fractions give {w!r}',
                          monitor='nbrcnt')
            got = ck.call(nb.calculate_nbr_cnt_total, data, names)
            ck.expect(close(got, N), 'nbr_cnt_total', lambda: f'total {got!r} want {N}', monitor='nbrcnt')
            ck.expect(bool((before == data).all()), 'mutated', 'the caller\'s table was modified', monitor='purity')
        if den:
            ck.nontrivial('nbr', n.tolist()[:6], round(fbs, 9), round(den, 9))
        ck.sample({'family': 'nbrcnt', 'rows': k, 'pairs': N})

    for rng, i in ck.cases('mctc', 1500, 25000):
        c = int(rng.choice([2, 3, 3, 4, 6, 8]))
        r = int(rng.choice([1, 2, 3, 8, 30, 30, 1100 if i % 20 == 0 else 130]))
        cnt = rng.integers(0, int(rng.choice([2, 10, 5000])), (r, c, c))
        if rng.random() < .1:
            cnt[:] = 0
        elif rng.random() < .1:
            cnt *= np.eye(c, dtype=int)
        ecn = int(rng.integers(0, 11))
        z = rng.random()
        ec = Fraction(1, 1) if z < .05 else Fraction(1, c) if z < .5 else Fraction(ecn, 20)
        # cell order is free: each cell names its row and column
        cells = [(a, b) for a in range(c) for b in range(c)]
        cells = [cells[j] for j in rng.permutation(len(cells))]
        cols = [('n_cat', [c] * r), ('ec_value', [float(ec)] * r), ('total', [int(x) for x in cnt.sum(axis=(1, 2))]),
                ('model', ['m'] * r)]
        for j, (a, b) in enumerate(cells):
            cols += [(f'i_value_{j}', [a + 1] * r), (f'j_value_{j}', [b + 1] * r),
                     (f'fi_oj_{j}', [int(x) for x in cnt[:, a, b]])]
        cols = [cols[j] for j in rng.permutation(len(cols))]
        data = np.empty((r, len(cols)), dtype=object)
        for j, (nm, v) in enumerate(cols):
            data[:, j] = v
        names = np.array([x[0] for x in cols])
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist()}
        before = data.copy()
        T, D = int(cnt.sum()), int(sum(cnt[:, a, a].sum() for a in range(c)))
        w = None if T == 0 or ec == 1 else float((Fraction(D) - ec * T) / (T - ec * T))
        got = ck.call(mc.calculate_mcts_hss_ec, data, names)
        ck.expect(close(got, w, 1e-7), 'mcts_hss_ec', lambda: f'hss_ec k={c} rows={r} hits={D} total={T} ec={float(ec)}: '
                                                           f'got {got!r} want {w!r}', monitor='mctc')
        ck.expect(bool((before == data).all()), 'mutated', 'the caller\'s table was modified', monitor='purity')
        if w is not None:
            ck.nontrivial('mctc', c, r, D, T, float(ec))
        ck.sample({'family': 'mctc', 'categories': c, 'rows': r, 'hits': D, 'total': T, 'ec': float(ec)}, limit=6)
    ck.finish(5000)


main_guard(main)
