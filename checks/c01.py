"""C01: 2x2 contingency-table scores equal their definition on the pooled counts."""

import numpy as np

from vlib import Check, Raised, close, is_missing, main_guard
import gen
from refs import ref_ctc as reference

def main():
    from metcalcpy.util import ctc_statistics as cs, nbrctc_statistics as ns
    ck = Check('C01', 'random sets of contingency rows (1-300 rows, zero patterns, int/float/object tables, '
                      'shuffled columns); non-trivial = pooled counts not all zero; identity = pooled counts + layout')
    cols = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'total']

    def judge(rows, rng, tag):
        a, b, c, d = (int(x) for x in rows.sum(axis=0))
        vals = [rows[:, 0], rows[:, 1], rows[:, 2], rows[:, 3], rows.sum(axis=1)]
        data, names, mode = gen.as_table(rng, cols, vals)
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist(), 'layout': mode}
        ref = reference(a, b, c, d)
        if a + b + c + d:
            ck.nontrivial(a, b, c, d, mode, len(rows))
        ck.sample({'pooled': [a, b, c, d], 'rows': len(rows), 'layout': mode})
        before = data.copy()
        for k, (want, tol) in ref.items():
            if want == 'skip':
                ck.skip(f'{k}: rounding of intermediate rates dominates')
            fn = getattr(cs, k if k.startswith('pod_') else f'calculate_{k}')
            got = ck.call(fn, data, names)
            if want == 'skip':
                ck.expect(not isinstance(got, Raised), f'{k}/raised', lambda: f'{k} of pooled {(a, b, c, d)}: {got}',
                          monitor='no-error')
                continue
            ck.expect(close(got, want, tol), f'{k}',
                      lambda: f'{k} of pooled (a,b,c,d)={(a, b, c, d)} [{mode}, {len(rows)} rows]: '
                              f'got {got!r}, definition gives {want!r}', monitor='ctc-score')
            nfn = getattr(ns, f'calculate_nbr_{k}', None)
            if nfn is not None:
                g2 = ck.call(nfn, data, names)
                ck.expect(close(g2, want, tol), f'nbr_{k}',
                          lambda: f'nbr_{k} of pooled {(a, b, c, d)}: got {g2!r}, definition gives {want!r}',
                          monitor='nbrctc-score')
        ck.expect(bool((before == data).all()), 'mutated', 'the caller\'s table was modified', monitor='purity')

    for rng, i in ck.cases('pool', 2500, 40000):
        judge(gen.ctc_rows(rng), rng, 'pool')
    # small exhaustive-ish corner: every zero / non-zero pattern of the four counts
    for rng, i in ck.cases('corner', 81, 81):
        p = np.array(np.unravel_index(i, (3, 3, 3, 3)))
        v = np.array([0, 1, int(rng.integers(2, 50))])[p]
        judge(gen.split_counts(rng, v, int(rng.integers(1, 4))), rng, 'corner')
    # large counts (global grids)
    for rng, i in ck.cases('large', 300, 4000):
        judge(gen.ctc_rows(rng, big=int(rng.choice([10 ** 5, 10 ** 6]))), rng, 'large')
    # years of rows
    for rng, i in ck.cases('long', 12, 60):
        judge(gen.ctc_rows(rng, n=int(rng.choice([1001, 1100, 2050, 4100, 10050]))), rng, 'long')
    # splitting: the same pooled counts in any split/order give the identical number
    for rng, i in ck.cases('split', 200, 3000):
        v = rng.integers(0, rng.choice([3, 30, 500]), 4)
        outs = []
        for parts in (1, 2, 7):
            rows = gen.split_counts(rng, v, parts)[rng.permutation(parts)]
            vals = [rows[:, j] for j in range(4)] + [rows.sum(axis=1)]
            data, names, mode = gen.as_table(rng, cols, vals)
            outs.append({k: ck.call(getattr(cs, k if k.startswith('pod_') else f'calculate_{k}'), data, names)
                         for k in reference(1, 1, 1, 1)})
        ck.case_input = {'pooled': v.tolist()}
        ck.nontrivial('split', *v.tolist())
        for k in outs[0]:
            x = [o[k] for o in outs]
            ok = all(is_missing(y) for y in x) or all(close(y, x[0] if not is_missing(x[0]) else None, 2e-7, 1e-7)
                                                      for y in x)
            ck.expect(ok, f'{k}-split', lambda: f'{k} of pooled {v.tolist()} depends on the split: {x}',
                      monitor='split-invariance')
    # rows whose counts are missing do not take part; all missing gives a missing score
    for rng, i in ck.cases('absent', 200, 3000):
        rows = gen.ctc_rows(rng)
        gone = rng.random(len(rows)) < rng.choice([.2, .6, 1.])
        full = np.column_stack([rows, rows.sum(1)]).astype(float)
        full[gone] = np.nan
        order = rng.permutation(5)
        data, names = full[:, order], np.array(cols)[order]
        if rng.random() < .3:
            data = data.astype(object)
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist()}
        left = rows[~gone].sum(0) if (~gone).any() else None
        ref = reference(*[int(x) for x in left]) if left is not None else {k: (None, 0) for k in reference(1, 2, 3, 4)
                                                                          if not k.startswith(('ctc_', 'cts_'))}
        for k, (want, tol) in ref.items():
            if want == 'skip':
                continue
            got = ck.call(getattr(cs, k if k.startswith('pod_') else f'calculate_{k}'), data, names)
            if k == 'baser' and is_missing(got):
                continue          # a missing row may make the base rate missing
            ck.expect(close(got, want, tol), f'{k}-absent', lambda: f'{k} with {gone.sum()} of {len(rows)} rows missing: got {got!r}, '
                      f'the other rows give {want!r}', monitor='absent-rows')
        if left is not None and gone.any():
            ck.nontrivial('absent', left.tolist(), int(gone.sum()))
    ck.finish(2000)


main_guard(main)
