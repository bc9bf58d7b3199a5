"""C16: scorecard numbers (mean difference, single mean, significance) from paired series of statistic values."""
import copy
import itertools
import math
import os
import shutil
import statistics
import tempfile

import numpy as np
import pandas as pd
from scipy import special

from vlib import Check, Raised, close, is_missing, main_guard

VALID0 = pd.Timestamp('2021-03-01')
ZERO = ['RMSE', 'ME', 'MAE', 'BCMSE', 'FAR', 'POFD', 'MSE', 'ESTDEV', 'BCRMSE', 'MAD', 'EIQR', 'VL1L2_RMSVE', 'VL1L2_SPEED_ERR', 'PSTD_BRIER', 'PSTD_RELIABILITY',
        'NBR_FBS', 'NBR_POFD', 'NBR_FAR', 'ECNT_ME', 'ECNT_RMSE', 'ECNT_CRPS', 'ECNT_MAE', 'ECNT_MAE_OERR', 'ECNT_ME_GE_OBS', 'ECNT_ME_LT_OBS']
ONE = ['PR_CORR', 'GSS', 'CSI', 'PODY', 'ACC', 'FBIAS', 'PODN', 'HK', 'HSS', 'ORSS', 'EDS', 'SEDS', 'EDI', 'SEDI', 'BAGSS', 'SP_CORR', 'KT_CORR', 'MBIAS', 'ANOM_CORR',
       'ANOM_CORR_RAW', 'VAL1L2_ANOM_CORR', 'PSTD_BSS', 'PSTD_BSS_SMPL', 'PSTD_ROC_AUC', 'NBR_FSS', 'NBR_AFSS', 'NBR_ACC', 'NBR_FBIAS', 'NBR_PODY', 'NBR_PODN', 'NBR_CSI',
       'NBR_GSS', 'NBR_HK', 'NBR_HSS', 'ECNT_BIAS_RATIO']
NONE = ['FBAR', 'OBAR', 'FSTDEV', 'BASER', 'OSTDEV', 'FMEAN', 'PSTD_BASER', 'PSTD_RESOLUTION', 'PSTD_UNCERTAINTY', 'NBR_UFSS', 'NBR_F_RATE', 'NBR_O_RATE', 'NBR_BASER',
        'NBR_FMEAN']
SIGNED = ('ME', 'ECNT_ME', 'VL1L2_SPEED_ERR')
# number of days -> t values of the 95, 99 and 99.9% levels
LEVELS = ((80, (1.960, 2.576, 3.291)), (40, (2.0, 2.66, 3.46)), (20, (2.042, 2.75, 3.646)), (-1, (2.228, 3.169, 4.587)))


def two_sided(t, df):
    """P(|T| < |t|) of Student's t through the incomplete beta function"""
    return 1 - special.betainc(df / 2, .5, df / (df + t * t))


def ncar(a, b, stat):
    """-> (value, tol) / None undecided / ('missing',)"""
    if stat in NONE:
        return 'missing'
    d = [x - y for x, y in zip(a, b)]
    sd = statistics.stdev(d)
    if sd < 1e-9 * (1 + max(abs(x) for x in a + b)):
        return None
    t = statistics.fmean(d) / (sd / math.sqrt(len(d)))
    best = 0 if stat in ZERO else 1
    gap = abs(statistics.fmean(a) - best) - abs(statistics.fmean(b) - best)
    if abs(gap) < 1e-9:
        return None
    return (-1 if gap > 0 else 1) * two_sided(t, len(d) - 1)


def emc(a, b, stat, ndays):
    d = [y - x for x, y in zip(a, b)]
    m = sum(d) / ndays
    std = math.sqrt(sum((x - m) ** 2 for x in d) / ndays)
    intvl = 1.96 * std / math.sqrt(len(d) - 1)
    if intvl < 1e-3:
        return None
    m1, m2 = statistics.fmean(a), statistics.fmean(b)
    if stat.startswith('ME') or stat.startswith('BIAS'):
        if abs(abs(m2) - abs(m1)) < 1e-5:
            return None
        ds = abs(m2 - m1) / intvl * (-1 if abs(m2) < abs(m1) else 1)
    elif stat.startswith('RMSE') or stat.startswith('RMSVE'):
        ds = (m2 - m1) / intvl
    else:
        ds = (m1 - m2) / intvl
    t = next(v for k, v in LEVELS if ndays >= k)
    lev = 0
    for val, f in ((.95, 1), (.99, t[1] / t[0]), (1, t[2] / t[0])):
        x = abs(ds) / f
        # the program rounds to three decimals on the way
        if abs(x - 1) < 2e-3 + 1e-4 * abs(x) + 2e-6 / intvl * 2:
            return None
        if x >= 1:
            lev = val
    return math.copysign(lev, ds) if lev else 0


def main():
    from metcalcpy.scorecard import Scorecard
    ck = Check('C16', 'random scorecards (2-3 models, 1-3 regions, 1-2 levels, single and grouped leads, 2-90 days, all statistics with a known best value, both '
                      'significance methods, shuffled rows, empty regions); oracle = paired differences and the t distribution from '
                      'the incomplete beta function; non-trivial = a value different from 0; identity = operation, method, value')
    tmp = tempfile.mkdtemp(prefix='verif_c16_')
    for rng, i in ck.cases('scorecard', 150, 2000):
        pool = (ZERO[:7] + ONE[:5] if i % 3 == 0 else ZERO + ONE) + (NONE if rng.random() < .4 else [])
        stats = [pool[j] for j in rng.permutation(len(pool))[:1 if rng.random() < .7 else 2]]
        models = ['mA', 'mB', 'mC'][:int(rng.integers(2, 4))]
        indy, masks = [('vx_mask', ['EAST', 'WEST', 'NMT']), ('obtype', ['ADPUPA', 'ONLYSF', 'ANALYS']), ('interp_pnts', ['1', '9', '25']),
                       ('fcst_thresh', ['0.5', '>=1.5', '2.54'])][int(rng.choice([0, 0, 0, 1, 2, 3]))]
        masks = masks[:int(rng.integers(1, 4))]
        levs = [['P200', 'P500'], ['2.5', '10'], ['5', '10'], ['5', 'P500'], ['2.5', 'P200']][int(rng.choice([0, 0, 1, 2, 3, 4]))][:int(rng.integers(1, 3))]
        date = str(rng.choice(['fcst_valid_beg', 'fcst_valid', 'fcst_init_beg', 'fcst_init']))
        leads = [120000, 240000, 360000]
        days = int(rng.choice([2, 3, 5, 12, 30, 45, 60, 90]))
        empty = str(rng.choice(masks)) if rng.random() < .15 and len(masks) > 1 else None
        eff = float(rng.choice([0, .1, .5, 2]))
        noise = float(rng.choice([.3, 1]))
        base = {(m, k, v): float(rng.normal(0, eff)) for m, k, v in itertools.product(models, masks, levs)}
        vals, recs = {}, []
        for stat, k, v, le, day in itertools.product(stats, masks, levs, leads, range(days)):
            scale = 1 if stat in ZERO + NONE else .2
            common = float(rng.normal(0, 1))
            for m in models:
                if empty == k and m == models[0]:
                    continue
                x = common + base[m, k, v] + float(rng.normal(0, noise))
                x = round(abs(x) * scale + .1 if stat not in SIGNED else x, 6)
                vals[stat, m, k, v, le, day] = x
                recs.append({'stat_name': stat, 'stat_value': x, 'fcst_var': 'HGT', 'fcst_lev': v, 'model': m, date:
                             str(VALID0 + pd.Timedelta(days=day)), 'fcst_lead': le, **{'fcst_thresh': 'NA', 'vx_mask': 'FULL', indy: k},
                             'stat_ncl': 'NA', 'stat_ncu': 'NA', 'stat_bcl': 'NA', 'stat_bcu': 'NA'})
        d = os.path.join(tmp, str(i))
        os.makedirs(d)
        if rng.random() < .4:                         # rows nobody asked for
            recs += [{**x, 'stat_value': 99., **dict([[('stat_name', 'OTHER'), ('fcst_lev', '77'), ('model', 'mZ'), (indy, 'ELSE'), ('fcst_lead', 60000)][int(rng.integers(5))]])}
                     for x in recs[:8]]
        df = pd.DataFrame(recs)
        df.iloc[rng.permutation(len(df))].to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False)
        lead_vals = [['120000:240000', '360000'], ['120000;360000', '240000'], ['120000', '240000', '360000']][int(rng.choice([0, 0, 1, 2, 2]))]
        derived = []
        for _ in range(int(rng.integers(1, 4))):
            a, b = (models[j] for j in rng.permutation(len(models))[:2])
            v, le, op = str(rng.choice(levs)), str(rng.choice(lead_vals)), str(rng.choice(['DIFF', 'DIFF_SIG', 'SINGLE']))
            stat = str(rng.choice(stats))
            x = [f'{v} {a} {le} HGT {stat}', f'{v} {b} {le} HGT {stat}', op]
            if x not in derived:
                derived.append(x)
        flag = str(rng.choice(['NCAR', 'EMC']))
        ndays = days if rng.random() < .6 else int(rng.choice([10, 25, 50, 100]))
        p = {'append_to_file': False, 'derived_series_1': derived, 'equalize_by_indep': True, 'event_equal': False,
             'fcst_var_val_1': {'HGT': stats}, 'fix_val_list_eq': [], 'fixed_vars_vals_input': {}, 'indy_plot_val': [],
             'indy_vals': masks, 'indy_var': indy, 'line_type': 'sl1l2', 'list_stat_1': stats, 'ndays': ndays,
             'series_val_1': dict([[('fcst_lead', lead_vals), ('fcst_lev', levs), ('model', models)][j] for j in rng.permutation(3)]), 'stat_flag': flag,
             'sum_stat_input': os.path.join(d, 'in.tsv'), 'sum_stat_output': os.path.join(d, 'out.tsv')}
        ck.case_input = {'params': copy.deepcopy(p), 'input': open(os.path.join(d, 'in.tsv')).read()}
        err = ck.call(lambda: Scorecard(copy.deepcopy(p)).calculate_scorecard_data())
        out = None
        if not isinstance(err, Raised):
            out = pd.read_csv(p['sum_stat_output'], sep='\t', dtype={'fcst_lead': str, 'fcst_lev': str, indy: str}) if os.path.exists(p['sum_stat_output']) else pd.DataFrame()
        shutil.rmtree(d)
        if isinstance(err, Raised):
            ck.expect(False, 'raised', f'{flag} {derived}: {err}', monitor='scorecard')
            continue
        pos = 0
        want_rows = []
        for x in derived:
            v, a, le, _, stat = x[0].split(' ')
            b = x[1].split(' ')[1]
            for k in masks:
                sel = [int(q) for q in le.replace(';', ':').split(':')]
                one = [vals[stat, a, k, v, q, day] for day in range(days) for q in sel if (stat, a, k, v, q, day) in vals]
                two = [vals[stat, b, k, v, q, day] for day in range(days) for q in sel if (stat, b, k, v, q, day) in vals]
                if one and two:
                    want_rows.append((x, v, le, k, one, two, stat))
        if not ck.expect(len(out) == len(want_rows), 'rows', lambda: f'{len(out)} rows, {len(want_rows)} points with data', monitor='scorecard'):
            continue
        for (x, v, le, k, one, two, stat), (_, o) in zip(want_rows, out.iterrows()):
            op = x[2]
            label = f'{op}({x[0]}-{x[1]})'
            ck.expect(o['model'] == label and (o[indy] == k or k[0].isdigit() and close(float(o[indy]), float(k))) and (o['fcst_lev'] == v or close(float(o['fcst_lev']), float(v))) and o['fcst_lead'] == le and o['stat_name'] == stat,
                      'label', lambda: f'row {dict(o)} for {label} {k} {v} {le}', monitor='scorecard')
            got = o['stat_value']
            if op == 'DIFF':
                w = statistics.fmean(p_ - q for p_, q in zip(one, two))
            elif op == 'SINGLE':
                w = statistics.fmean(one)
            elif flag == 'NCAR':
                w = ncar(one, two, stat)
            else:
                w = emc(one, two, stat, ndays)
            key = op if op != 'DIFF_SIG' else f'{op}/{flag}'
            if w is None:
                ck.skip('too close to a level')
                continue
            if w == 'missing':
                ck.expect(is_missing(got), f'{key}/none', lambda: f'{stat} has no best value but significance {got}', monitor=key)
                continue
            ck.expect(close(got, w, 2e-7 if op != 'DIFF_SIG' else 2e-6), key, lambda: f'{label} {k}: {got}, series give {w} '
                      f'({len(one)} cases, ndays {ndays})', monitor=key)
            if w:
                ck.nontrivial(key, stat, round(w, 9))
        ck.sample({'derived': derived, 'days': days, 'flag': flag, 'ndays': ndays})

    # differences placed just below and just above each level of the EMC method
    for rng, i in ck.cases('levels', 60, 600):
        ndays = [19, 20, 21, 39, 40, 41, 79, 80, 81, 5][i % 10]
        stat = ['RMSE', 'ME', 'ACC', 'BIAS', 'RMSVE', 'MAE', 'ME_OERR', 'RMSE_OERR', 'ME'][int(rng.integers(9))]
        t = next(v for k, v in LEVELS if ndays >= k)
        lev = int(rng.integers(3))
        side, sign = (1 if rng.random() < .5 else -1), (1 if rng.random() < .5 else -1)
        target = t[lev] / t[0] * (1 + side * .004)
        s = rng.normal(0, 1, ndays)
        s -= s.mean()
        s *= float(rng.uniform(.5, 5))
        mu = sign * target * 1.96 * math.sqrt(float(np.mean(s ** 2))) / math.sqrt(ndays - 1)
        first = rng.normal(0, 2, ndays)
        first += float(rng.choice([-1, 1])) * (8 * abs(mu)) + 0 - first.mean()
        second = first + mu + s
        d = os.path.join(tmp, f'l{i}')
        os.makedirs(d)
        recs = [{'stat_name': stat, 'stat_value': float(z), 'fcst_var': 'HGT', 'fcst_lev': 'P200', 'model': m, 'fcst_valid_beg': str(VALID0 + pd.Timedelta(days=day)),
                 'vx_mask': 'EAST', 'fcst_lead': 120000} for m, x in (('mA', first), ('mB', second)) for day, z in enumerate(x)]
        pd.DataFrame(recs).to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False)
        p = {'append_to_file': False, 'derived_series_1': [[f'P200 mA 120000 HGT {stat}', f'P200 mB 120000 HGT {stat}', 'DIFF_SIG']], 'event_equal': False,
             'fcst_var_val_1': {'HGT': [stat]}, 'indy_vals': ['EAST'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2', 'list_stat_1': [stat],
             'ndays': ndays, 'series_val_1': {'fcst_lead': ['120000'], 'fcst_lev': ['P200'], 'model': ['mA', 'mB']}, 'stat_flag': 'EMC',
             'sum_stat_input': os.path.join(d, 'in.tsv'), 'sum_stat_output': os.path.join(d, 'out.tsv')}
        ck.case_input = {'params': p, 'first': first, 'second': second}
        err = ck.call(lambda: Scorecard(copy.deepcopy(p)).calculate_scorecard_data())
        out = None if isinstance(err, Raised) else pd.read_csv(p['sum_stat_output'], sep='\t')
        shutil.rmtree(d)
        w = emc(list(first), list(second), stat, ndays)
        if w is None:
            ck.skip('too close to a level')
            continue
        ck.expect(out is not None and len(out) == 1 and close(out['stat_value'][0], w, 2e-6), 'levels',
                  lambda: f'{stat} over {ndays} days, {target} times the interval: {err if out is None else list(out["stat_value"])}, expected {w}', monitor='levels')
        ck.nontrivial('levels', ndays, lev, side, sign, stat)

    # which series is better, for every statistic with a known best value
    names = ZERO + ONE + NONE
    for rng, i in ck.cases('best', 40, 200):
        stats = [names[(i * 6 + j) % len(names)] for j in range(6)]
        n = int(rng.integers(4, 15))
        vals = {s: (rng.normal(.9 if s in ONE else .1, .3, n), rng.normal(.9 if s in ONE else .1, .3, n)) for s in stats}
        d = os.path.join(tmp, f'b{i}')
        os.makedirs(d)
        recs = [{'stat_name': s, 'stat_value': float(z), 'fcst_var': 'HGT', 'fcst_lev': 'P200', 'model': m, 'fcst_valid_beg': str(VALID0 + pd.Timedelta(days=day)),
                 'vx_mask': 'EAST', 'fcst_lead': 120000} for s in stats for m, x in zip(('mA', 'mB'), vals[s]) for day, z in enumerate(x)]
        pd.DataFrame(recs).to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False)
        p = {'append_to_file': False, 'derived_series_1': [[f'P200 mA 120000 HGT {s}', f'P200 mB 120000 HGT {s}', 'DIFF_SIG'] for s in stats], 'event_equal': False,
             'fcst_var_val_1': {'HGT': stats}, 'indy_vals': ['EAST'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2', 'list_stat_1': stats,
             'ndays': n, 'series_val_1': {'fcst_lead': ['120000'], 'fcst_lev': ['P200'], 'model': ['mA', 'mB']}, 'stat_flag': 'NCAR',
             'sum_stat_input': os.path.join(d, 'in.tsv'), 'sum_stat_output': os.path.join(d, 'out.tsv')}
        ck.case_input = {'params': p, 'values': vals}
        err = ck.call(lambda: Scorecard(copy.deepcopy(p)).calculate_scorecard_data())
        out = None if isinstance(err, Raised) else pd.read_csv(p['sum_stat_output'], sep='\t')
        shutil.rmtree(d)
        for s in stats:
            w = ncar(list(vals[s][0]), list(vals[s][1]), s)
            got = [] if out is None else list(out['stat_value'][out['stat_name'] == s])
            if w is None:
                ck.skip('equally good')
                continue
            ck.expect(len(got) == 1 and (is_missing(got[0]) if w == 'missing' else close(got[0], w, 2e-6)), 'best',
                      lambda: f'{s}: {err if out is None else got}, expected {w}', monitor='best')
            ck.nontrivial('best', s, n)

    # repeated cases are refused
    for rng, i in ck.cases('repeated', 10, 60):
        d = os.path.join(tmp, f'x{i}')
        os.makedirs(d)
        recs = [{'stat_name': 'RMSE', 'stat_value': float(rng.random()), 'fcst_var': 'HGT', 'fcst_lev': 'P200', 'model': m,
                 'fcst_valid_beg': str(VALID0 + pd.Timedelta(days=day)), 'vx_mask': 'EAST', 'fcst_lead': 120000}
                for m in ('mA', 'mB') for day in range(4) for _ in range(2)]
        pd.DataFrame(recs).to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False)
        op = str(rng.choice(['DIFF', 'DIFF_SIG']))
        p = {'append_to_file': False, 'derived_series_1': [['P200 mA 120000 HGT RMSE', 'P200 mB 120000 HGT RMSE', op]], 'event_equal': False,
             'fcst_var_val_1': {'HGT': ['RMSE']}, 'indy_vals': ['EAST'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2', 'list_stat_1': ['RMSE'],
             'ndays': 4, 'series_val_1': {'fcst_lead': ['120000'], 'fcst_lev': ['P200'], 'model': ['mA', 'mB']}, 'stat_flag': 'NCAR',
             'sum_stat_input': os.path.join(d, 'in.tsv'), 'sum_stat_output': os.path.join(d, 'out.tsv')}
        ck.case_input = {'params': p}
        err = ck.call(lambda: Scorecard(copy.deepcopy(p)).calculate_scorecard_data())
        shutil.rmtree(d)
        ck.expect(isinstance(err, Raised) and err.type == 'NameError', 'repeated', lambda: f'{op} of repeated cases gave {err}',
                  monitor='repeated')
        ck.nontrivial('repeated', op, i)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(200)


main_guard(main)
