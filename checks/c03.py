"""C03: continuous statistics from partial sums (SL1L2, SAL1L2, GRAD) equal the statistics of the raw samples."""
import numpy as np

from vlib import Check, Raised, close, main_guard
import gen
from refs import ref_sl1l2, ref_sal1l2, ref_grad, samples


def main():
    from metcalcpy.util import sl1l2_statistics as sl, sal1l2_statistics as sa, grad_statistics as gs
    ck = Check('C03', 'random raw forecast/observation samples (8 regimes, n 1-2500) reduced to partial-sum rows '
                      '(1-60 rows of unequal size) in both conventions (one row of means; many rows weighted by '
                      'their totals); non-trivial = at least one statistic decided with a number; identity = regime, '
                      'n, row split, layout and a hash of the samples')

    def judge(mod, ref, tol, table, rng, agg, fam, desc):
        cols, vals = zip(*table)
        data, names, mode = gen.as_table(rng, cols, vals)
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist(), 'aggregation': agg, 'layout': mode}
        before = data.copy()
        dec = 0
        for k, want in ref.items():
            if isinstance(want, str):
                ck.skip(f'{fam}.{k}: ill-conditioned sample')
                got = ck.call(getattr(mod, f'calculate_{k}'), data, names, *(() if not agg and (len(k) + ck.evaluations) % 2 else (agg,)))
                ck.expect(not isinstance(got, Raised), f'{fam}.{k}/raised', lambda: f'{k} ({desc}): {got}', monitor='no-error')
                continue
            got = ck.call(getattr(mod, f'calculate_{k}'), data, names, *(() if not agg and (len(k) + ck.evaluations) % 2 else (agg,)))
            dec += want is not None
            ck.expect(close(got, want, tol[k]), f'{fam}.{k}/{"agg" if agg else "row"}',
                      lambda: f'{k} ({desc}, rows={len(vals[0])}, aggregation={agg}): got {got!r}, raw samples give '
                              f'{want!r} (tol {tol[k]:.2g})', monitor=fam)
        for tn in (('sl1l2_total', 'sal1l2_total') if mod is sl else ('grad_total',) if mod is gs else ()):
            got = ck.call(getattr(mod, f'calculate_{tn}'), data, names)
            want = float(np.sum(vals[cols.index('total')]))
            ck.expect(close(got, want), f'{fam}.{tn}', lambda: f'{tn}: got {got!r} want {want}', monitor=fam)
        ck.expect(bool((before == data).all()), 'mutated', 'the caller\'s table was modified', monitor='purity')
        if dec:
            ck.nontrivial(fam, desc, agg, mode, len(vals[0]), float(np.sum(before.astype(object)[0, :1] == 0)),
                          repr(vals[0][:3]))
        ck.sample({'family': fam, 'desc': desc, 'aggregation': agg, 'rows': len(vals[0]), 'layout': mode})

    N = (1, 2, 3, 5, 10, 40, 150, 400, 2500)
    for rng, i in ck.cases('sl1l2', 2500, 30000):
        n = int(rng.choice(N))
        kind, f, o = samples(rng, n)
        ref, tol = ref_sl1l2(f, o)
        for agg in (True, False):
            tab = gen.partial_rows(rng, n, [('fbar', f), ('obar', o), ('fobar', f * o), ('ffbar', f * f), ('oobar', o * o),
                                   ('mae', abs(f - o))], agg)
            judge(sl, ref, tol, tab, rng, agg, 'sl1l2', f'{kind} n={n}')
    for rng, i in ck.cases('sal1l2', 1500, 15000):
        n = int(rng.choice(N))
        kind, f, o = samples(rng, n)
        ref, tol = ref_sal1l2(f, o)
        for agg in (True, False):
            tab = gen.partial_rows(rng, n, [('fabar', f), ('oabar', o), ('foabar', f * o), ('ffabar', f * f), ('ooabar', o * o)],
                          agg)
            judge(sa, ref, tol, tab, rng, agg, 'sal1l2', f'{kind} n={n}')
    for rng, i in ck.cases('grad', 1500, 15000):
        n = int(rng.choice(N))
        fg = abs(rng.normal(0, 3, n)) if rng.random() < .9 else np.zeros(n)
        og = abs(rng.normal(0, 3, n)) if rng.random() < .9 else np.zeros(n)
        mg = np.maximum(fg, og)
        eg = abs(rng.normal(0, 1, n))
        ref, tol = ref_grad(fg, og, mg, eg)
        for agg in (True, False):
            tab = gen.partial_rows(rng, n, [('fgbar', fg), ('ogbar', og), ('mgbar', mg), ('egbar', eg)], agg)
            judge(gs, ref, tol, tab, rng, agg, 'grad', f'n={n}')
    ck.finish(5000)


main_guard(main)
