"""C13: derived series (difference, ratio, skill score, significance) follow from the two component series."""
import copy
import itertools
import math
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import families
from refs import percentiles_ok, resamples
from vlib import Check, Raised, close, is_missing, main_guard

VALID0 = pd.Timestamp('2021-03-01')
SIGN = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'DIFF_SIG': '-', 'SINGLE': '-', 'ETB': ' and '}
# scores whose best value is 0 / 1; scores without a best value
ZERO = {'mae', 'me', 'me2', 'rmse', 'mse', 'estdev', 'bcmse', 'bcrmse', 'pofd', 'far', 'ecnt_me', 'ecnt_rmse', 'ecnt_crps', 'ecnt_mae', 'ecnt_mae_oerr',
        'ecnt_me_ge_obs', 'ecnt_me_lt_obs', 'crps', 'e10', 'e25', 'e50', 'e75', 'e90', 'eiqr', 'mad', 'vl1l2_mse', 'vl1l2_rmse', 'vl1l2_rmsve', 'vl1l2_speed_err',
        'pstd_brier', 'pstd_reliability', 'nbr_fbs', 'nbr_pofd', 'nbr_far'}
ONE = {'pr_corr', 'mbias', 'acc', 'csi', 'gss', 'pody', 'podn', 'hk', 'hss', 'orss', 'eds', 'seds', 'edi', 'sedi', 'bagss', 'fbias', 'sp_corr', 'kt_corr', 'anom_corr',
       'anom_corr_raw', 'vl1l2_bias', 'vl1l2_corr', 'val1l2_anom_corr', 'pstd_bss', 'pstd_bss_smpl', 'pstd_roc_auc', 'nbr_fss', 'nbr_afss', 'nbr_acc', 'nbr_fbias',
       'nbr_pody', 'nbr_podn', 'nbr_csi', 'nbr_gss', 'nbr_hk', 'nbr_hss', 'ecnt_bias_ratio'}
NONE = {'fbar', 'obar', 'fstdev', 'ostdev', 'baser', 'fmean', 'frank_ties', 'orank_ties', 'ranks', 'vl1l2_fbar', 'vl1l2_obar', 'vl1l2_fstdev', 'vl1l2_ostdev',
        'vl1l2_fostdev', 'pstd_baser', 'pstd_resolution', 'pstd_uncertainty', 'nbr_ufss', 'nbr_f_rate', 'nbr_o_rate', 'nbr_baser', 'nbr_fmean'}


def derive(op, a, b):
    """a, b: statistics of the two series -> derived value or None"""
    if a is None or b is None:
        return None
    if op in ('DIFF', 'DIFF_SIG'):
        return a - b
    if op == 'RATIO':
        return None if b == 0 else a / b
    if op == 'SS':
        return None if a == 0 else (a - b) / a
    return a


def tolerance(op, a, ta, b, tb):
    if op in ('DIFF', 'DIFF_SIG'):
        return ta + tb
    if op == 'SINGLE':
        return ta
    x, y, tx, ty = (a, b, ta, tb) if op == 'RATIO' else (b, a, tb, ta)      # SS = 1 - b/a
    if abs(y) < 50 * ty or abs(y) < 1e-3:
        return None
    return (tx + abs(x / y) * ty) / (abs(y) - ty) * 1.01


def main():
    from metcalcpy.agg_stat import AggStat
    from metcalcpy.util import utils
    ck = Check('C13', 'random derived series (5 operations; across models, across regions, across statistics, between groups of '
                      'models) over data of 9 line types, with and without resampling; plus the arithmetic, naming and '
                      'significance-sign helpers on random lists; non-trivial = a derived point with a defined value; '
                      'identity = operation, line type, statistics, values')
    tmp = tempfile.mkdtemp(prefix='verif_c13_')
    FAMS = [families.Sl1l2, families.Sal1l2, families.Grad, families.Vl1l2, families.Ecnt, families.Rps, families.Ctc,
            families.NbrCnt, families.Vcnt]

    def run(p):
        err = ck.call(lambda: AggStat(copy.deepcopy(p)).calculate_stats_and_ci())
        if isinstance(err, Raised):
            return err
        return pd.read_csv(p['agg_stat_output'], sep='\t', keep_default_na=False, na_values=['NA'])

    def data(rng, fam, models, masks, leads, ndays, names, d, paired=True, dates=0, alike=False):
        rows = []
        for m, k, le, day in itertools.product(models, masks, leads, range(ndays)):
            if not paired and rng.random() < .2:
                continue
            valid = VALID0 + pd.Timedelta(days=day)
            key = {'model': m, 'vx_mask': k, 'fcst_lead': le, 'fcst_valid_beg': str(valid),
                   'fcst_init_beg': str(valid - pd.Timedelta(hours=le)), 'fcst_var': 'TMP', 'fcst_lev': 'Z2'}
            rows.append((key, fam.draw(rng, int(rng.integers(3, 25)))))
        if alike:
            # the second model has the samples of the first on other days, but for one: a small difference
            h = len(rows) // 2
            perm = rng.permutation(h)
            rows[h:] = [(rows[h + j][0], rows[perm[j]][1] if j else rows[h][1]) for j in range(h)]
        recs = [{**k, 'stat_name': s, **fam.row(r), 'stat_value': 0.} for k, r in rows for s in names]
        df = pd.DataFrame(recs)
        # the date columns a data set may come with
        if dates == 1:
            df = df.rename(columns={'fcst_valid_beg': 'fcst_valid', 'fcst_init_beg': 'fcst_init'})
        elif dates == 2:
            df = df.drop(columns='fcst_valid_beg')
        elif dates == 3:
            df = df.drop(columns='fcst_valid_beg').rename(columns={'fcst_init_beg': 'fcst_init'})
        df.iloc[rng.permutation(len(df))].to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        return rows

    def params(d, fam, names, sv, iv, derived, it):
        return {'random_seed': 7, 'indy_var': 'fcst_lead', 'method': 'perc', 'num_iterations': it, 'event_equal': 'False',
                'derived_series_1': derived, 'derived_series_2': [], 'agg_stat_input': os.path.join(d, 'in.tsv'),
                'fcst_var_val_1': {'TMP': names}, 'fcst_var_val_2': {}, 'agg_stat_output': os.path.join(d, 'out.tsv'),
                'fixed_vars_vals_input': {}, 'series_val_1': sv, 'series_val_2': {}, 'alpha': .05, 'line_type': fam.line_type,
                'num_threads': -1, 'indy_vals': iv, 'list_stat_1': names, 'list_stat_2': []}

    for rng, i in ck.cases('derived', 110, 900):
        fam = FAMS[i % len(FAMS)]()
        fam.start(rng)
        d = os.path.join(tmp, f'd{i}')
        os.makedirs(d)
        z = rng.random()
        shape = 'model' if z < .4 else 'two-vars' if z < .6 else 'statistic' if z < .8 else 'group'
        it = 1 if rng.random() < .6 else 30
        models = ['mA', 'mB', 'mC', 'mD'][:4 if shape == 'group' else int(rng.integers(2, 4))]
        masks = ['FULL', 'EAST'] if shape == 'two-vars' else ['FULL']
        leads = [3, 6][:int(rng.integers(1, 3))]
        # a lead value must not look like part of a series name
        if fam.line_type == 'ctc':
            fam.big = 200
            fam.zero[:] = False
        names = [n.upper() for n in fam.ref([fam.draw(rng, 9)]) if not n.endswith('total') and n != 'bagss']
        names = [names[j] for j in rng.permutation(len(names))[:2]]
        if shape == 'statistic' and fam.line_type == 'sl1l2' and rng.random() < .7:
            names = [['ME2', 'ME'], ['MSESS', 'MSE'], ['ME', 'ME2']][int(rng.integers(3))]      # one name starts with the other
        rows = data(rng, fam, models, masks, leads, int(rng.choice([1, 4, 9])), names, d, dates=max(0, int(rng.integers(-3, 4))))
        sv, derived, comps = {}, [], []
        ops = ['DIFF', 'RATIO', 'SS', 'SINGLE']
        op = ops[int(rng.integers(4))]
        if shape == 'model':
            sv = {'model': models}
            a, b = (models[j] for j in rng.permutation(len(models))[:2])
            for s in names[:1 + (rng.random() < .4)]:
                derived.append([f'{a} TMP {s}', f'{b} TMP {s}', op])
                comps.append(((dict(model=[a]), s), (dict(model=[b]), s), op))
            if rng.random() < .3:
                derived.append([f'{b} TMP {names[0]}', f'{a} TMP {names[0]}', ops[(ops.index(op) + 1) % 4]])
                comps.append(((dict(model=[b]), names[0]), (dict(model=[a]), names[0]), ops[(ops.index(op) + 1) % 4]))
        elif shape == 'two-vars':
            sv = {'model': models, 'vx_mask': masks}
            s = names[0]
            if rng.random() < .5:
                k = str(rng.choice(masks))
                derived.append([f'{models[0]} {k} TMP {s}', f'{models[1]} {k} TMP {s}', op])
                comps.append(((dict(model=[models[0]], vx_mask=[k]), s), (dict(model=[models[1]], vx_mask=[k]), s), op))
            else:
                derived.append([f'{models[1]} FULL TMP {s}', f'{models[1]} EAST TMP {s}', op])
                comps.append(((dict(model=[models[1]], vx_mask=['FULL']), s), (dict(model=[models[1]], vx_mask=['EAST']), s), op))
        elif shape == 'statistic':
            if len(names) < 2:
                names = names * 1
            sv = {'model': models}
            s1, s2 = names[0], names[-1]
            derived.append([f'{models[0]} TMP {s1}', f'{models[0]} TMP {s2}', op])
            comps.append(((dict(model=[models[0]]), s1), (dict(model=[models[0]]), s2), op))
        else:
            lone = it == 1 and rng.random() < .5           # a group against one model
            sv = {'model': ['mA:mB', 'mC' if lone else 'mC:mD']}
            s = names[0]
            pair = ['Group_y1_1', 'mC' if lone else 'Group_y1_2']
            of = dict(zip(pair, (['mA', 'mB'], ['mC'] if lone else ['mC', 'mD'])))
            if lone and rng.random() < .5:
                pair.reverse()
            derived.append([f'{pair[0]} TMP {s}', f'{pair[1]} TMP {s}', op])
            comps.append(((dict(model=of[pair[0]]), s), (dict(model=of[pair[1]]), s), op))
        iv = [str(x) for x in leads]
        p = params(d, fam, names, sv, iv, derived, it)
        base = 0
        if rng.random() < .25:
            # the same on the second axis
            p |= {'series_val_2': copy.deepcopy(sv), 'list_stat_2': names, 'fcst_var_val_2': {'TMP': names}, 'derived_series_1': [],
                  'derived_series_2': [[a.replace('_y1_', '_y2_'), b.replace('_y1_', '_y2_'), c] for a, b, c in derived],
                  'series_val_1': {k: v[:1] for k, v in sv.items()}, 'list_stat_1': names[:1], 'fcst_var_val_1': {'TMP': names[:1]}}
            derived = p['derived_series_2']
            base = len(iv)
        ck.case_input = {'params': p, 'input': open(os.path.join(d, 'in.tsv')).read()}
        out = run(p)
        shutil.rmtree(d)
        if isinstance(out, Raised):
            ck.expect(False, f'{shape}/raised', f'{fam.line_type}: {out}', monitor='derived')
            continue
        tail = out.iloc[base + math.prod(len(v) for v in list(sv.values()) + [iv, names]):]
        if not ck.expect(len(tail) == len(derived) * len(iv), f'{shape}/rows', lambda: f'{len(tail)} derived rows for {len(derived)} '
                         f'series and {len(iv)} independent values', monitor='derived'):
            continue

        def stat(sel, s, lead):
            raws = [r for k, r in rows if str(k['fcst_lead']) == lead and all(k[f] in v for f, v in sel.items())]
            return fam.ref(raws).get(s.lower())
        pos = 0
        for ds, (c1, c2, op1) in zip(derived, comps):
            label = f'{op1}({ds[0]}{SIGN[op1]}{ds[1]})'
            for lead in iv:
                o = tail.iloc[pos]
                pos += 1
                own = {f: label if c1[0].get(f) != c2[0].get(f) or len(sv) == 1 else v[0] for f, v in c1[0].items()}
                ck.expect(all(str(o[f]) == v for f, v in own.items()) and str(o['fcst_lead']) == lead
                          and o['stat_name'] == (c1[1] if c1[1] == c2[1] else f'{c1[1]},{c2[1]}'), f'{shape}/label',
                          lambda: f'derived row labelled {dict(o)} instead of {label} at {lead}', monitor='derived')
                x, y = stat(*c1, lead), stat(*c2, lead)
                if x is None or y is None or len(x) > 2 or len(y) > 2 or (None in (x[0], y[0]) and not fam.sure_none):
                    ck.skip('component ill-conditioned')
                    continue
                w = derive(op1, x[0], y[0])
                got = o['stat_value']
                if x[0] is None or y[0] is None:
                    ck.expect(is_missing(got), f'{shape}/undefined', lambda: f'{label}: {got} although a component is undefined',
                              monitor='derived')
                    continue
                t = tolerance(op1, x[0], x[1] + 6e-8, y[0], y[1] + 6e-8)
                if t is None and w is not None:
                    ck.skip('denominator too small')
                    continue
                ck.expect(close(got, w, (t or 0) + (6e-6 if it == 1 else 2e-7)), f'{shape}/{op1}', lambda: f'{label} at {lead} '
                          f'({fam.line_type}, {it} iterations): {got}, components {x[0]} and {y[0]} give {w}', monitor='derived')
                if w is not None:
                    ck.nontrivial(op1, fam.line_type, label, lead, float(w), it)
                    if it > 1 and not is_missing(o['stat_btcl']):
                        ck.expect(o['stat_btcl'] <= o['stat_btcu'], f'{shape}/ci', lambda: f'{label}: interval '
                                  f'[{o["stat_btcl"]},{o["stat_btcu"]}]', monitor='derived-ci')
        ck.sample({'line_type': fam.line_type, 'derived': derived, 'iterations': it})

    # the two components are resampled together: a constant difference stays constant in every resample
    for rng, i in ck.cases('paired', 8, 80):
        fam = families.Sl1l2()
        fam.start(rng)
        d = os.path.join(tmp, f'p{i}')
        os.makedirs(d)
        c = float(np.round(rng.uniform(.5, 5), 2))
        recs = []
        for day in range(int(rng.integers(5, 20))):
            valid = VALID0 + pd.Timedelta(days=day)
            n, f, o = int(rng.integers(5, 50)), float(np.round(rng.normal(10, 9), 4)), float(np.round(rng.normal(10, 9), 4))
            for m, add in (('mA', c), ('mB', 0.)):
                recs.append({'model': m, 'vx_mask': 'FULL', 'fcst_lead': 3, 'fcst_valid_beg': str(valid), 'fcst_init_beg':
                             str(valid - pd.Timedelta(hours=3)), 'fcst_var': 'TMP', 'fcst_lev': 'Z2', 'stat_name': 'FBAR',
                             'total': n, 'fbar': f + add, 'obar': o, 'fobar': f * o, 'ffbar': f * f + 1, 'oobar': o * o + 1,
                             'mae': 1., 'stat_value': 0.})
        df = pd.DataFrame(recs)
        df.iloc[rng.permutation(len(df))].to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        p = params(d, fam, ['FBAR'], {'model': ['mA', 'mB']}, ['3'], [['mA TMP FBAR', 'mB TMP FBAR', 'DIFF']], 40)
        if rng.random() < .4:
            p['circular_block_bootstrap'] = 'True'
        ck.case_input = {'params': p, 'input': open(os.path.join(d, 'in.tsv')).read()}
        out = run(p)
        shutil.rmtree(d)
        if isinstance(out, Raised):
            ck.expect(False, 'paired/raised', str(out), monitor='paired')
            continue
        o = out.iloc[-1]
        ck.expect(close(o['stat_value'], c, 1e-5) and all(is_missing(o[k]) or abs(o[k] - c) < 1e-4 for k in ('stat_btcl', 'stat_btcu')),
                  'paired', lambda: f'constant difference {c}: value {o["stat_value"]}, interval [{o["stat_btcl"]},{o["stat_btcu"]}]',
                  monitor='paired')
        ck.nontrivial('paired', c, i)

    # many resamples of few cases: bounds and significance follow the exact distribution over all paired resamples
    for rng, i in ck.cases('percentiles', 24, 240):
        cls = [families.Sl1l2, families.Ctc, families.Ecnt][i % 3]
        fam = cls()
        fam.start(rng)
        if cls is families.Ctc:
            fam.zero, fam.big = np.zeros(4, bool), 60
        d = os.path.join(tmp, f'q{i}')
        os.makedirs(d)
        z = int(rng.integers(3))
        n, B, alpha = int(rng.integers(3, 7 if z == 2 else 10)), 1000, float(rng.choice([.1, .2, .5]))
        st = str(rng.choice({families.Sl1l2: ['ME', 'RMSE', 'MAE'], families.Ctc: ['CSI', 'PODY'], families.Ecnt: ['ECNT_MAE', 'ECNT_RMSE']}[cls]))
        op = str(rng.choice(['DIFF', 'RATIO', 'SS', 'DIFF_SIG', 'DIFF_SIG']))
        both = [st, st]
        if op != 'DIFF_SIG' and i % 2:                     # two statistics of one model
            both[1] = str(rng.choice({families.Sl1l2: ['FBAR', 'MSE'], families.Ctc: ['FAR', 'ACC'], families.Ecnt: ['ECNT_SPREAD', 'ECNT_CRPS']}[cls]))
        two = both[0] != both[1]
        rows = data(rng, fam, ['mA', 'mB'], ['FULL'], [3], n, sorted(set(both)), d, alike=op == 'DIFF_SIG' and rng.random() < .7)
        p = params(d, fam, sorted(set(both)), {'model': ['mA', 'mB']}, ['3'], [[f'mA TMP {st}', f'{"mA" if two else "mB"} TMP {both[1]}', op]], B) | {'alpha': alpha,
            'random_seed': int(rng.integers(1, 1 << 30)), 'num_threads': 1, 'method': str(rng.choice(['perc', 'pivotal']))}
        if z:
            p['circular_block_bootstrap'] = str(z == 1)
        ck.case_input = {'params': p, 'input': open(os.path.join(d, 'in.tsv')).read()}
        out = run(p)
        shutil.rmtree(d)
        if isinstance(out, Raised):
            ck.expect(False, 'percentiles/raised', str(out), monitor='percentiles')
            continue
        o = out.iloc[-1]
        parts = [[r for k, r in rows if k['model'] == m] for m in ('mA', 'mA' if two else 'mB')]
        dist = resamples(n, int(np.sqrt(n)) if z < 2 else 1)
        pairs = [[fam.ref([r for r, c in zip(raws, cnt) for _ in range(c)])[s.lower()] for raws, s in zip(parts, both)] for cnt, _ in dist]
        full = [fam.ref(raws)[s.lower()] for raws, s in zip(parts, both)]
        if any(x is None or x[0] is None or abs(x[0]) < 1e-3 for x in sum(pairs, full)):
            ck.skip('percentiles: undefined or vanishing resample')
            continue
        fn = {'DIFF': lambda a, b: a - b, 'DIFF_SIG': lambda a, b: a - b, 'RATIO': lambda a, b: a / b, 'SS': lambda a, b: (a - b) / a}[op]
        v = np.array([fn(a[0], b[0]) for a, b in pairs])
        q = np.array([w for _, w in dist])
        val = fn(full[0][0], full[1][0])
        lo, hi = o['stat_btcl'], o['stat_btcu']
        if p['method'] == 'pivotal':
            lo, hi = sorted((2 * val - lo, 2 * val - hi))
        eps = 2e-5 + max(t for x in pairs for _, t in [y[:2] for y in x]) * (1 if op.startswith('DIFF') else 3 / min(abs(x[0][0]) for x in pairs))
        ck.expect(percentiles_ok(v, q, lo, hi, alpha, B, eps), f'percentiles/{op}', lambda: f'{op} of {both}, {n} cases ({z}), alpha {alpha}: interval '
                  f'[{lo},{hi}], resamples from {v.min()} to {v.max()}', monitor='percentiles')
        if op == 'DIFF_SIG' and st.lower() not in NONE and not is_missing(o['stat_value']):
            dev = abs(v - (v * q).sum())
            # the mean of the resamples is itself an estimate
            e = eps + 5 * np.sqrt((dev ** 2 * q).sum() / B)
            a, b = q[dev <= abs(val) - e].sum(), q[dev <= abs(val) + e].sum()
            tol = 5 * np.sqrt(max(a * (1 - a), b * (1 - b), .001) / B) + 2 / B
            got = abs(o['stat_value'])
            ck.expect(a - tol <= got <= b + tol, 'percentiles/significance', lambda: f'significance {got} of {st}, the resamples give {a} to {b}',
                      monitor='percentiles')
        ck.nontrivial('percentiles', op, both, val)

    # significance of the difference: sign tells which series is better, size is a confidence
    for rng, i in ck.cases('significance', 36, 300):
        cls = [families.Sl1l2, families.Ctc, families.Ecnt][i % 3]
        fam = cls()
        fam.start(rng)
        if cls is families.Sl1l2:
            fam.kind = 'temp'
        else:
            fam.zero, fam.big = np.zeros(4, bool), 200
        d = os.path.join(tmp, f'g{i}')
        os.makedirs(d)
        st = sorted({families.Sl1l2: {'mae', 'me', 'rmse', 'mse', 'pr_corr', 'mbias', 'fbar'}, families.Ctc:
                     {'acc', 'csi', 'far', 'pody', 'baser', 'gss'}, families.Ecnt: {'ecnt_mae', 'ecnt_rmse', 'ecnt_crps'}}[cls])
        s = st[int(rng.integers(len(st)))].upper()
        rows = data(rng, fam, ['mA', 'mB'], ['FULL'], [3], int(rng.choice([6, 15])), [s], d)
        p = params(d, fam, [s], {'model': ['mA', 'mB']}, ['3'], [[f'mA TMP {s}', f'mB TMP {s}', 'DIFF_SIG']], 60)
        ck.case_input = {'params': p, 'input': open(os.path.join(d, 'in.tsv')).read()}
        out = run(p)
        shutil.rmtree(d)
        if isinstance(out, Raised):
            ck.expect(False, 'significance/raised', f'{fam.line_type} {s}: {out}', monitor='significance')
            continue
        got = out['stat_value'].iloc[-1]
        x, y = (fam.ref([r for k, r in rows if k['model'] == m])[s.lower()] for m in ('mA', 'mB'))
        if x is None or y is None:
            continue
        if s.lower() in NONE:
            ck.expect(is_missing(got), 'significance/none', lambda: f'{s} has no best value but its significance is {got}',
                      monitor='significance')
            continue
        ck.expect(not is_missing(got) and -1 <= got <= 1, 'significance/range', lambda: f'significance {got} of {s}',
                  monitor='significance')
        best = 0 if s.lower() in ZERO else 1
        gap = abs(x[0] - best) - abs(y[0] - best)
        if abs(gap) > 1e-5 and not is_missing(got) and got != 0:
            ck.expect((got < 0) == (gap > 0), 'significance/sign', lambda: f'significance {got} of {s} with {x[0]} against {y[0]}',
                      monitor='significance')
            ck.nontrivial('sig', s, x[0], y[0])

    # a difference of series with repeated cases cannot be formed
    for rng, i in ck.cases('repeated', 8, 40):
        fam = families.Sl1l2()
        fam.start(rng)
        d = os.path.join(tmp, f'r{i}')
        os.makedirs(d)
        data(rng, fam, ['mA', 'mB'], ['FULL', 'EAST'], [3], 3, ['ME'], d, dates=i % 4)
        if i % 3:                                          # one of the two only
            df = pd.read_csv(os.path.join(d, 'in.tsv'), sep='\t')
            df[(df['model'] == ['mA', 'mB'][i % 3 - 1]) | (df['vx_mask'] == 'FULL')].to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        op = str(rng.choice(['DIFF', 'RATIO', 'SS']))
        p = params(d, fam, ['ME'], {'model': ['mA', 'mB']}, ['3'], [['mA TMP ME', 'mB TMP ME', op]], 1)
        ck.case_input = {'params': p}
        out = run(p)
        shutil.rmtree(d)
        ck.expect(isinstance(out, Raised) and out.type == 'NameError', 'repeated', lambda: f'{op} of series with two values for one '
                  f'valid time gave {out}', monitor='repeated')
        ck.nontrivial('repeated', op, i)

    # arithmetic and naming
    for rng, i in ck.cases('arithmetic', 2000, 30000):
        n = int(rng.integers(1, 6))
        a, b = rng.integers(-4, 5, n).astype(float).tolist(), rng.integers(-4, 5, n).astype(float).tolist()
        z = rng.random()
        if z < .1:
            a[int(rng.integers(n))] = None
        elif z < .2:
            b[int(rng.integers(n))] = None
        elif z < .25:
            b = b + [1.]
        elif z < .28:
            a = None
        op = str(rng.choice(['DIFF', 'RATIO', 'SS', 'SINGLE', 'DIFF_SIG']))
        ck.case_input = {'a': a, 'b': b, 'operation': op}
        ca, cb = copy.deepcopy(a), copy.deepcopy(b)
        got = ck.call(utils.calc_derived_curve_value, ca, cb, op)
        if a is None or len(a) != len(b) or None in a or None in b:
            want = None
        else:
            want = [derive(op, x, y) for x, y in zip(a, b)]
            want = None if None in want else want
        ok = (got is None) if want is None else (isinstance(got, list) and np.allclose(got, want, rtol=1e-12, atol=1e-12))
        ck.expect(ok, f'arith/{op}', lambda: f'{op} of {a} and {b} gave {got}, not {want}', monitor='arithmetic')
        ck.expect(ca == a and cb == b, 'arith/mutated', 'an operand was changed', monitor='arithmetic')
        if want:
            ck.nontrivial('arith', op, str(a), str(b))
        x, y = f'm{int(rng.integers(9))} TMP ME', f'm{int(rng.integers(9))} TMP ME'
        name = ck.call(utils.get_derived_curve_name, [x, y, op] if op != 'DIFF' or rng.random() < .5 else [x, y])
        ck.expect(name == f'{op}({x}{SIGN[op]}{y})', f'name/{op}', lambda: f'name {name!r}', monitor='naming')
        ck.expect(ck.call(utils.is_derived_point, ('3', name, 'ME')) is True and
                  ck.call(utils.is_derived_point, ('3', x, 'ME')) is False, 'name/recognised', lambda: f'{name} not recognised as '
                  f'derived or {x} taken for derived', monitor='naming')
        every = sorted(ZERO | ONE | NONE)
        s = every[i % len(every)]
        if rng.random() < .5:
            s = s.upper()
        m1, m2, pv = float(rng.normal()), float(rng.normal()), float(rng.random())
        got = ck.call(utils.perfect_score_adjustment, m1, m2, s, pv)
        k = s.lower()
        want = None if k in NONE else -pv if (abs(m1) > abs(m2) if k in ZERO else abs(m1 - 1) > abs(m2 - 1)) else pv
        ck.expect(got == want, 'perfect', lambda: f'perfect_score_adjustment({m1},{m2},{s},{pv}) = {got}, want {want}',
                  monitor='perfect-score')
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(500)


main_guard(main)
