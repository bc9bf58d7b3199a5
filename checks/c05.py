"""C05: ensemble statistics (ECNT, RPS, SSVAR) of many rows equal the statistics of the pooled sample."""
import math

import numpy as np

from vlib import Check, Raised, close, main_guard
import gen
from refs import ref_sl1l2, ref_sal1l2, samples


def main():
    from metcalcpy.util import ecnt_statistics as ec, rps_statistics as rp, ssvar_statistics as ss
    ck = Check('C05', 'random ensemble score rows (1-60 rows, very unequal totals, zero/negative/tiny scores) in both '
                      'conventions; the oracle works on the per-row means weighted by the number of pairs; '
                      'non-trivial = the family decided at least one numeric value; identity = family, row count, '
                      'layout, totals and leading scores')

    def run(fam, mod, ref, tab, rng, agg):
        cols, vals = zip(*tab)
        data, names, mode = gen.as_table(rng, cols, vals)
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist(), 'aggregation': agg, 'layout': mode}
        before, heads = data.copy(), list(names)
        for k, spec in ref.items():
            if spec is None or isinstance(spec[0], str):
                ck.skip(f'{fam}.{k}: ill-conditioned sample')
                got = ck.call(getattr(mod, f'calculate_{k}'), data, names, *(() if not agg and (len(k) + ck.evaluations) % 2 else (agg,)))
                ck.expect(not isinstance(got, Raised), f'{fam}.{k}/raised', lambda: f'{k}: {got}', monitor='no-error')
                continue
            want, tol = spec
            a = () if k.endswith('_total') or not agg and (len(k) + ck.evaluations) % 2 else (agg,)
            got = ck.call(getattr(mod, f'calculate_{k}'), data, names, *a)
            ck.expect(close(got, want, tol), f'{fam}.{k}/{"agg" if agg else "row"}',
                      lambda: f'{k} (rows={len(vals[0])}, aggregation={agg}): got {got!r}, pooled sample gives {want!r} '
                              f'(tol {tol:.2g})', monitor=fam)
        ck.expect(bool((before == data).all()) and heads == list(names), 'mutated', 'the caller\'s table was modified', monitor='purity')
        ck.nontrivial(fam, agg, mode, len(vals[0]), repr([list(v[:2]) for v in vals[:3]]))
        ck.sample({'family': fam, 'aggregation': agg, 'rows': len(vals[0]), 'layout': mode})

    def root(v):
        return None if v < 0 else (math.sqrt(v), math.sqrt(v + 2e-7) - math.sqrt(max(v - 2e-7, 0)) + 1e-7)

    for rng, i in ck.cases('ecnt', 2000, 30000):
        k = int(rng.choice([1, 2, 3, 5, 12, 60, 60, 1100 if i % 10 == 0 else 130]))
        n = rng.integers(1, int(rng.choice([2, 10, 1000, 100000])) + 1, k)
        scale = float(rng.choice([.01, 1, 1, 50]))
        col = {c: rng.gamma(1, scale, k) for c in ('crps', 'crpscl', 'crps_emp', 'crps_emp_fair', 'spread_md',
                                                   'crpscl_emp', 'mae', 'mae_oerr')}
        col.update({c: rng.normal(0, scale, k) for c in ('ign', 'me', 'me_oerr')})
        for c in ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr'):
            col[c] = rng.gamma(2, scale, k)
        z = rng.random()
        if z < .1:
            col['crpscl'][:] = 0
        elif z < .2:
            col['crpscl_emp'][:] = 0
        elif z < .3:
            col['crps'][:] = col['crps_emp'][:] = 0
        nge = np.array([rng.integers(0, m + 1) for m in n])
        if rng.random() < .1:
            nge[:] = 0
        elif rng.random() < .1:
            nge[:] = n
        nlt = n - nge
        mge = np.where(nge > 0, rng.gamma(1, scale, k), 0.)
        mlt = np.where(nlt > 0, -rng.gamma(1, scale, k), 0.)
        N = float(n.sum())
        w = {c: float(np.dot(v, n)) / N for c, v in col.items()}
        for agg in (True, False):
            if not agg:
                # one row of means
                n1, cell = np.array([int(N)]), {c: np.array([v]) for c, v in w.items()}
                mult = 1.
            else:
                n1, cell, mult = n, col, n
            tab = [('total', n1)]
            for c in ('crps', 'crpscl', 'crps_emp', 'crps_emp_fair', 'spread_md', 'crpscl_emp', 'mae', 'mae_oerr', 'ign',
                      'me', 'me_oerr'):
                tab.append((c, cell[c] * mult))
            pooled = {}
            for c, d in (('rmse', 'mse'), ('rmse_oerr', 'mse_oerr'), ('spread', 'variance'),
                         ('spread_oerr', 'variance_oerr'), ('spread_plus_oerr', 'variance_plus_oerr')):
                tab.append((d, cell[c] ** 2 * mult))
                pooled[c] = float(np.sum(cell[c] ** 2 * n1)) / N
            ref = {f'ecnt_{c}': (w[c], 1e-7) for c in ('crps', 'crpscl', 'crps_emp', 'crps_emp_fair', 'spread_md',
                                                       'crpscl_emp', 'mae', 'mae_oerr', 'ign', 'me', 'me_oerr')}
            for c, v in pooled.items():
                ref[f'ecnt_{c}'] = root(v)
            ref['ecnt_crpss'] = (None, 0) if w['crpscl'] == 0 else (1 - w['crps'] / w['crpscl'], 1e-7)
            ref['ecnt_crpss_emp'] = (None, 0) if w['crpscl_emp'] == 0 else \
                (1 - w['crps_emp'] / w['crpscl_emp'], 1e-7)
            ref['ecnt_total'] = (N, 1e-7)
            if agg:
                tab += [('n_ge_obs', nge), ('n_lt_obs', nlt), ('me_ge_obs', mge * nge), ('me_lt_obs', mlt * nlt)]
                ref['ecnt_n_ge_obs'], ref['ecnt_n_lt_obs'] = (float(nge.sum()), 1e-7), (float(nlt.sum()), 1e-7)
                a = float(np.dot(mge, nge)) / nge.sum() if nge.sum() else None
                b = float(np.dot(mlt, nlt)) / nlt.sum() if nlt.sum() else None
                ref['ecnt_me_ge_obs'], ref['ecnt_me_lt_obs'] = (a, 1e-7), (b, 1e-7)
                if a is None or b is None:
                    ref['ecnt_bias_ratio'] = (None, 0)
                elif abs(b) < 1e-3:
                    ref['ecnt_bias_ratio'] = None
                else:
                    ref['ecnt_bias_ratio'] = (a / abs(b), 1e-7 + 2e-7 * (1 + a / abs(b)) / abs(b))
            run('ecnt', ec, ref, tab, rng, agg)

    for rng, i in ck.cases('rps', 1000, 15000):
        k = int(rng.choice([1, 2, 3, 5, 12, 60, 60, 1100 if i % 10 == 0 else 130]))
        n = rng.integers(1, int(rng.choice([2, 10, 1000, 100000])) + 1, k)
        rps, comp, cl = rng.random(k), rng.random(k), rng.random(k) * 2
        z = rng.random()
        if z < .1:
            cl[:] = 0
        elif z < .2:
            rps[:] = 0
        N = float(n.sum())
        w = [float(np.dot(x, n)) / N for x in (rps, comp, cl)]
        ref = {'rps': (w[0], 1e-7), 'rps_comp': (w[1], 1e-7), 'rps_total': (N, 1e-7),
               'rpss': (None, 0) if w[2] == 0 else (1 - w[0] / w[2], 1e-7 + 1e-9 / w[2])}
        for agg in (True, False):
            if agg:
                tab = [('total', n), ('rps', rps * n), ('rps_comp', comp * n), ('rps_climo', cl * n)]
            else:
                tab = [('total', np.array([int(N)]))] + [(c, np.array([v])) for c, v in
                                                          zip(('rps', 'rps_comp', 'rps_climo'), w)]
            run('rps', rp, ref, tab, rng, agg)

    for rng, i in ck.cases('ssvar', 1500, 20000):
        n = int(rng.choice([1, 2, 3, 5, 10, 40, 150, 400, 2500]))
        kind, f, o = samples(rng, n)
        var = rng.gamma(1, 3, n) if rng.random() < .9 else np.zeros(n)
        ref, tol = ref_sl1l2(f, o)
        ac, act = ref_sal1l2(f, o)
        keep = {f'ssvar_{c}': (ref[c], tol.get(c, 0)) for c in ('fbar', 'fstdev', 'obar', 'ostdev', 'pr_corr', 'me',
                                                               'estdev', 'mse', 'bcmse', 'bcrmse', 'rmse', 'me2',
                                                               'msess')}
        keep['ssvar_anom_corr'] = (ac['anom_corr'], act.get('anom_corr', 0))
        keep['ssvar_spread'] = root(float(np.mean(var)))
        for agg in (True, False):
            tab = gen.partial_rows(rng, n, [('fbar', f), ('obar', o), ('fobar', f * o), ('ffbar', f * f),
                                            ('oobar', o * o), ('var_mean', var)], agg)
            orig = rng.integers(1, 1000, len(tab[0][1]))
            tab.append(('total_orig', orig))
            keep['ssvar_total'] = (float(orig.sum()), 1e-7)
            run('ssvar', ss, keep, tab, rng, agg)
    ck.finish(20000)


main_guard(main)
