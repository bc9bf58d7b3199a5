"""C12: the aggregation program reports, for every requested point, the statistic of the pooled rows of that point."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import families
from refs import percentiles_ok, resamples
from vlib import Check, Raised, close, is_missing, main_guard

VALID0 = pd.Timestamp('2021-03-01')
SERIES_ONLY = {'pstd_brier', 'pstd_bss_smpl', 'pstd_resolution'}


def values_of(v):
    """the individual values a (possibly grouped) series or independent value stands for"""
    return v.split(':')


def build(rng, fam, small=False):
    """a data set: rows with their raw samples, and the series / independent values asked for"""
    fam.start(rng)
    models = ['mA', 'mB', 'mC'][:int(rng.integers(1, 4))]
    masks = ['FULL', 'EAST'] if rng.random() < .4 else ['FULL']
    leads = [3, 6, 12][:int(rng.integers(1, 4))]
    ndays = int(rng.choice([1, 2, 4, 9] if not small else [4, 9]))
    rows = []
    gap = rng.random() < .3
    for m, k, le in itertools.product(models, masks, leads):
        for d in range(ndays):
            if gap and rng.random() < .25:
                continue
            for b in range(3 if fam.line_type == 'ssvar' else 1):
                raw = fam.draw(rng, fam.size(rng))
                valid = VALID0 + pd.Timedelta(days=d)
                rows.append(({'model': m, 'vx_mask': k, 'fcst_lead': le, 'fcst_valid_beg': str(valid),
                              'fcst_init_beg': str(valid - pd.Timedelta(hours=le)), 'fcst_var': 'TMP', 'fcst_lev': 'Z2'}, raw))
    return rows, models, masks, leads


def write(path, rng, fam, rows, stats, decoys):
    recs = []
    for key, raw in rows:
        c = fam.row(raw)
        for s in stats:
            recs.append({**key, 'stat_name': s, **c, 'stat_value': round(float(rng.normal()), 4)})
    for d in decoys:
        recs.append(d)
    df = pd.DataFrame(recs)
    df = df.iloc[rng.permutation(len(df))]
    cols = list(df.columns)
    # probability columns are matched by position
    order = list(df.columns) if fam.line_type == 'pct' or rng.random() < .5 else [cols[i] for i in rng.permutation(len(cols))]
    df[order].to_csv(path, sep='\t', index=False, na_rep='NA')
    return df[order]


def main():
    from metcalcpy.agg_stat import AggStat
    import metcalcpy.util as _u  # noqa
    ck = Check('C12', 'random data files of 15 line types (1-3 models, 1-2 regions, 1-3 lead times, 1-9 valid times, gaps, '
                      'decoy rows of other variables/models/statistics, shuffled rows and columns, groups of values, one or '
                      'two axes); non-trivial = a point with at least two pooled rows and a defined value; identity = line '
                      'type, statistic, point, data hash')
    tmp = tempfile.mkdtemp(prefix='verif_c12_')

    def run(params):
        p = copy.deepcopy(params)
        err = ck.call(lambda: AggStat(p).calculate_stats_and_ci())
        if isinstance(err, Raised):
            return err
        try:
            return pd.read_csv(params['agg_stat_output'], sep='\t', dtype={'stat_name': str, 'fcst_thresh_n': str, 'model': str}, keep_default_na=False,
                               na_values=['NA'])
        except pd.errors.EmptyDataError:
            return pd.DataFrame()

    def mk(rng, d, fam, rows, models, masks, leads, stats, *, indy=None, group=False, two=False):
        """parameters and, per axis, the points expected"""
        indy = indy or str(rng.choice(['fcst_lead', 'fcst_valid_beg', 'vx_mask']))
        if indy == 'fcst_lead':
            iv = [str(x) for x in leads]
        elif indy == 'vx_mask':
            iv = list(masks)
        else:
            iv = sorted({r[0]['fcst_valid_beg'] for r in rows})[:4]
        if group and indy == 'fcst_lead' and len(iv) > 1:
            iv = [':'.join(iv[:2])] + iv[1:]
        if rng.random() < .15 and indy == 'fcst_lead':
            iv = iv + ['99']                       # nothing there: an empty point
        sv = {'model': list(models)}
        if indy != 'vx_mask' and len(masks) > 1 and rng.random() < .6:
            sv['vx_mask'] = list(masks)
        if group and len(models) > 1:
            sv['model'] = [':'.join(models[:2])] + models[1:2]
        if rng.random() < .3 and len(models) > 1 and not group:
            sv['model'] = models[:-1]              # one model present in the file is not asked for
        lead_fixed = None
        p = {'random_seed': None, 'indy_var': indy, 'method': 'perc', 'num_iterations': 1, 'event_equal': 'False',
             'derived_series_1': [], 'derived_series_2': [], 'agg_stat_input': os.path.join(d, 'in.tsv'),
             'fcst_var_val_1': {'TMP': stats}, 'fcst_var_val_2': {}, 'agg_stat_output': os.path.join(d, 'out.tsv'),
             'fixed_vars_vals_input': {}, 'series_val_1': sv, 'series_val_2': {}, 'alpha': .05, 'line_type': fam.line_type,
             'num_threads': -1, 'indy_vals': iv, 'list_stat_1': stats, 'list_stat_2': [], 'circular_block_bootstrap': 'True'}
        if two:
            p['series_val_2'] = {'model': models[-1:]} if 'vx_mask' not in sv else {'model': models[-1:], 'vx_mask': masks[:1]}
            p['fcst_var_val_2'] = {'TMP': stats[-1:]}
            p['list_stat_2'] = stats[-1:]
        pts = []
        for ax in ('1', '2'):
            s = p['series_val_' + ax]
            if not s:
                continue
            for combo in itertools.product(*s.values(), iv, p['list_stat_' + ax]):
                pts.append(dict(zip(list(s) + [indy, 'stat_name'], combo)))
        return p, pts, lead_fixed

    def pick(rows, pt):
        res = []
        for key, raw in rows:
            if all(f == 'stat_name' or str(key[f]) in ([v] if f == 'fcst_valid_beg' else values_of(v)) for f, v in pt.items()):
                res.append(raw)
        return res

    def judge(out, pts, rows, fam, tag, several=True, df=None):
        if isinstance(out, Raised):
            ck.expect(False, f'{tag}/raised', f'{fam.line_type}: {out}', monitor=tag)
            return
        if not ck.expect(len(out) == len(pts), f'{tag}/rows', lambda: f'{len(out)} output rows for {len(pts)} requested points',
                         monitor='points'):
            return
        for (i, o), pt in zip(out.iterrows(), pts):
            ck.expect(all(str(o[f]) == v for f, v in pt.items()), f'{tag}/labels',
                      lambda: f'row {i} is labelled {dict(o[list(pt)])} instead of {pt}', monitor='points')
            raws = pick(rows, pt)
            st = pt['stat_name'].lower()
            ck.expect(int(o['nstats']) == len(raws), f'{tag}/nstats', lambda: f'nstats {o["nstats"]} for a point with {len(raws)} '
                      f'rows: {pt}', monitor='nstats')
            ck.expect(o['fcst_var'] == 'TMP', f'{tag}/fcst_var', lambda: f'fcst_var is {o["fcst_var"]!r}', monitor='points')
            got = o['stat_value']
            if not raws:
                ck.expect(is_missing(got), f'{tag}/empty', lambda: f'value {got} for a point without data {pt}', monitor='value')
                continue
            spec = fam.ref(raws)[st]
            if spec is None or (spec[0] is None and not fam.sure_none):
                ck.skip(f'{st}: ill-conditioned or degenerate sample')
                continue
            want, tol = spec[0], spec[1] + 6e-8
            if len(spec) > 2:
                ok = not is_missing(got) and abs((float(got) - want + 180) % 360 - 180) <= tol and \
                    spec[2][0] - 1e-6 <= float(got) <= spec[2][1] + 1e-6
            else:
                ok = close(got, want, tol)
            key = f'{tag}/{st}'
            if st in SERIES_ONLY and several:
                key = 'pct/several-points'
            ck.expect(ok, key, lambda: f'{fam.line_type} {st} at {pt} ({len(raws)} rows): reported {got}, the pooled sample gives '
                      f'{want}', monitor='value')
            if len(raws) > 1 and want is not None:
                ck.nontrivial(fam.line_type, st, repr(sorted(pt.items())), float(want))

    def decoy_rows(rng, fam, rows, stats):
        res = []
        if not rows:
            return res
        for _ in range(int(rng.integers(0, 8))):
            key, _r = rows[int(rng.integers(len(rows)))]
            c = fam.row(fam.draw(rng, 5))
            k = dict(key)
            s = stats[0]
            z = rng.random()
            if z < .4 and fam.line_type != 'pct':
                k['fcst_var'] = 'RH'
            elif z < .7:
                k['model'] = 'mX'
            else:
                s = 'OTHER_STAT'
                if fam.line_type == 'pct':
                    k['model'] = 'mX'
            res.append({**k, 'stat_name': s, **c, 'stat_value': 1.})
        return res

    # every statistic of every line type at least once
    for rng, i in ck.cases('stats', 2 * len(families.ALL), 20 * len(families.ALL)):
        fam = families.ALL[i % len(families.ALL)]()
        d = os.path.join(tmp, f's{i}')
        os.makedirs(d)
        rows, models, masks, leads = build(rng, fam)
        if not rows:
            continue
        names = [n.upper() for n in fam.ref([rows[0][1]])]
        dec = decoy_rows(rng, fam, rows, names)
        one = fam.line_type == 'pct' and rng.random() < .7
        if one:
            lead = leads[0]
            rows = [r for r in rows if r[0]['fcst_lead'] == lead]
            leads = [lead]
            if not rows:
                continue
        write(os.path.join(d, 'in.tsv'), rng, fam, rows, names, dec)
        p, pts, _ = mk(rng, d, fam, rows, models, masks, leads, names, indy='fcst_lead')
        if one:
            p['indy_vals'] = [str(leads[0])]
            pts = [pt for pt in pts if pt['fcst_lead'] == str(leads[0])]
        ck.case_input = {'params': p, 'rows': len(rows), 'line_type': fam.line_type}
        judge(run(p), pts, rows, fam, 'stat', several=not one)
        ck.sample({'line_type': fam.line_type, 'rows': len(rows), 'points': len(pts)})
        shutil.rmtree(d)

    # points: groups, several series variables, two axes, other independent variables
    for rng, i in ck.cases('points', 70, 900):
        fam = families.ALL[int(rng.integers(len(families.ALL)))]()
        d = os.path.join(tmp, f'p{i}')
        os.makedirs(d)
        rows, models, masks, leads = build(rng, fam)
        if not rows:
            continue
        names = [n.upper() for n in fam.ref([rows[0][1]])]
        names = [names[j] for j in rng.permutation(len(names))[:3]]
        group = bool(rng.random() < .5)
        df = write(os.path.join(d, 'in.tsv'), rng, fam, rows, names, decoy_rows(rng, fam, rows, names))
        raw_in = open(os.path.join(d, 'in.tsv'), 'rb').read()
        p, pts, _ = mk(rng, d, fam, rows, models, masks, leads, names, group=group, two=bool(rng.random() < .4))
        ck.case_input = {'params': p, 'rows': df}
        out = run(p)
        judge(out, pts, rows, fam, 'point')
        ck.expect(open(os.path.join(d, 'in.tsv'), 'rb').read() == raw_in, 'point/input', 'the input file was rewritten',
                  monitor='input-file')
        # again with the rows in another order
        if not isinstance(out, Raised):
            df.iloc[rng.permutation(len(df))].to_csv(p['agg_stat_input'], sep='\t', index=False, na_rep='NA')
            o2 = run({**p, 'agg_stat_output': os.path.join(d, 'out2.tsv')})
            same = not isinstance(o2, Raised) and len(o2) == len(out) and \
                np.allclose(o2['stat_value'].astype(float), out['stat_value'].astype(float), rtol=1e-6, atol=3e-6, equal_nan=True)
            ck.expect(same, 'point/order', lambda: f'reordering the input rows changed the output: {o2} against {out}',
                      monitor='row-order')
            # the output replaces an earlier file
            if i % 4 == 0:
                again = run({**p, 'agg_stat_output': os.path.join(d, 'out2.tsv'), 'append_to_file': ['False', False][i // 4 % 2]})
                ck.expect(not isinstance(again, Raised) and len(again) == len(out), 'point/replace',
                          lambda: f'{len(again)} rows over an earlier file, {len(out)} expected', monitor='append')
            # appended output: the same rows once more, no second header
            if rng.random() < .3:
                n0 = len(open(p['agg_stat_output']).readlines())
                err = ck.call(lambda: AggStat({**copy.deepcopy(p), 'append_to_file': 'True'}).calculate_stats_and_ci())
                lines = open(p['agg_stat_output']).readlines()
                ck.expect(not isinstance(err, Raised) and len(lines) == 2 * n0 - 1 and lines[0] not in lines[1:],
                          'point/append', lambda: f'append mode: {err} {len(lines)} lines after {n0}', monitor='append')
        shutil.rmtree(d)

    # tables counted with different values of the expected correct rate cannot be pooled
    for rng, i in ck.cases('rates', 8, 60):
        fam = [families.Ctc, families.Mctc, families.Cts][i % 3]()
        d = os.path.join(tmp, f'r{i}')
        os.makedirs(d)
        rows, models, masks, leads = build(rng, fam, small=True)
        if not rows:
            continue
        fam.ec = fam.ec or .5
        name = [n.upper() for n in fam.ref([rows[0][1]])][0]
        df = write(os.path.join(d, 'in.tsv'), rng, fam, rows, [name], [])
        df.loc[df.index[int(rng.integers(len(df)))], 'ec_value'] = .3
        df.to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        p, pts, _ = mk(rng, d, fam, rows, models, masks, leads, [name], indy='fcst_lead')
        p |= {'series_val_1': {'model': list(models)}, 'indy_vals': [str(x) for x in leads]}
        odd = df[df['ec_value'] == .3].iloc[0]
        crowd = ((df['model'] == odd['model']) & (df['fcst_lead'] == odd['fcst_lead'])).sum()
        ck.case_input = {'params': p, 'rows': df}
        out = run(p)
        shutil.rmtree(d)
        if crowd > 1:
            ck.expect(isinstance(out, Raised), 'rates', lambda: f'{name} of {crowd} tables, one with another '
                      f'expected rate: {out}', monitor='rates')
            ck.nontrivial('rates', fam.line_type, crowd, i)

    # reliability: one row per probability bin, the bins found in the file are the points
    for rng, i in ck.cases('bins', 12, 150):
        k = int(rng.integers(2, 7))
        th = np.sort(rng.choice(np.arange(0, 100), k, replace=False)) / 100
        models = ['mA', 'mB', 'mC'][:int(rng.integers(1, 4))]
        rows = []
        for m, day, b in itertools.product(models, range(int(rng.integers(1, 6))), range(k)):
            if rng.random() < .1:
                continue
            valid = VALID0 + pd.Timedelta(days=day)
            rows.append({'model': m, 'fcst_lead': 12, 'fcst_valid_beg': str(valid), 'fcst_init_beg': str(valid - pd.Timedelta(hours=12)), 'fcst_var': 'TMP',
                         'fcst_lev': 'Z2', 'thresh_i': th[b], 'oy_i': int(rng.integers(0, 30)), 'on_i': int(rng.integers(0, 30))})
        if not rows:
            continue
        d = os.path.join(tmp, f'b{i}')
        os.makedirs(d)
        names = ['PSTD_CALIBRATION', 'PSTD_NI', 'PSTD_BASER']
        df = pd.DataFrame([{**r, 'stat_name': s, 'stat_value': 0.} for r in rows for s in names])
        df.iloc[rng.permutation(len(df))].to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        p = {'random_seed': None, 'indy_var': 'thresh_i', 'method': 'perc', 'num_iterations': 1, 'event_equal': 'False', 'derived_series_1': [], 'derived_series_2': [],
             'agg_stat_input': os.path.join(d, 'in.tsv'), 'fcst_var_val_1': {'TMP': names}, 'fcst_var_val_2': {}, 'agg_stat_output': os.path.join(d, 'out.tsv'),
             'fixed_vars_vals_input': {}, 'series_val_1': {'model': models}, 'series_val_2': {}, 'alpha': .05, 'line_type': 'pct', 'num_threads': -1,
             'indy_vals': [[], ['0.5']][int(rng.integers(2))], 'list_stat_1': names, 'list_stat_2': []}
        ck.case_input = {'params': p, 'rows': rows}
        out = run(p)
        shutil.rmtree(d)
        if isinstance(out, Raised):
            ck.expect(False, 'bins/raised', str(out), monitor='bins')
            continue
        have = sorted({r['thresh_i'] for r in rows})
        pts = list(itertools.product(models, have, names))
        if not ck.expect([(o.model, float(o.thresh_i), o.stat_name) for o in out.itertuples()] == pts, 'bins/points', lambda: f'{len(out)} rows for {len(pts)} points',
                         monitor='bins'):
            continue
        for (m, t, st), o in zip(pts, out.itertuples()):
            use = [r for r in rows if r['model'] == m and r['thresh_i'] == t]
            ev, n = sum(r['oy_i'] for r in use), sum(r['oy_i'] + r['on_i'] for r in use)
            want = (n or None) if st == 'PSTD_NI' and not use else n if st == 'PSTD_NI' else ev / n if n else None
            ck.expect(close(o.stat_value, want, 6e-6) and int(o.nstats) == len(use), f'bins/{st.lower()}', lambda: f'{m} at {t}: {o.stat_value} from {o.nstats} rows, '
                      f'expected {want} from {len(use)}', monitor='bins')
            if n:
                ck.nontrivial('bins', m, t, st, n, ev)

    # series and independent values that are numbers, read from a file as such
    for rng, i in ck.cases('numbers', 30, 240):
        fam = families.ALL[int(rng.integers(len(families.ALL) - 1))]()
        d = os.path.join(tmp, f'n{i}')
        os.makedirs(d)
        fam.start(rng)
        kind = [0, 3, 1, 3, 2, 3][i % 6]
        vals = [[0.5, 1.5, 2.25], [1, 9, 25], ['>=0.5', 'x1'], ['2', '2.5', '0.25', '3']][kind]
        if kind == 3:
            vals = [vals[j] for j in rng.permutation(4)[:3]]
            if rng.random() < .5:
                vals.sort(key=lambda v: '.' in v)      # whole numbers first
        col = ['fcst_thresh_n', 'interp_pnts', 'fcst_thresh', 'fcst_thresh_n'][kind]
        rows = []
        for m, v, le, day in itertools.product(['mA', 'mB'], vals, [6, 12], range(int(rng.integers(1, 4)))):
            if rng.random() < .15:
                continue
            valid = VALID0 + pd.Timedelta(days=day)
            for _ in range(3 if fam.line_type == 'ssvar' else 1):
                rows.append(({'model': m, 'vx_mask': 'FULL', col: v, 'fcst_lead': le, 'fcst_valid_beg': str(valid), 'fcst_init_beg': str(valid - pd.Timedelta(hours=le)),
                              'fcst_var': 'TMP', 'fcst_lev': 'Z2'}, fam.draw(rng, fam.size(rng))))
        if not rows:
            continue
        names = [n.upper() for n in fam.ref([rows[0][1]])]
        names = [names[j] for j in rng.permutation(len(names))[:2]]
        write(os.path.join(d, 'in.tsv'), rng, fam, rows, names, [])
        text = [str(v) for v in vals]
        p, pts, _ = mk(rng, d, fam, rows, ['mA', 'mB'], ['FULL'], [6, 12], names, indy='fcst_lead')
        groups = rng.random() < .7
        if rng.random() < .35:
            p['indy_var'], p['indy_vals'] = col, text
            p['series_val_1'] = {'model': ['mA', 'mB']}
        else:
            p['series_val_1'] = {'model': ['mA', 'mB'], col: [':'.join(text[:2])] + text[1:] if groups else text}
            p['indy_var'], p['indy_vals'] = 'fcst_lead', ['6', '12']
        pts = [dict(zip(list(p['series_val_1']) + [p['indy_var'], 'stat_name'], c)) for c in itertools.product(*p['series_val_1'].values(), p['indy_vals'], names)]
        ck.case_input = {'params': p, 'rows': len(rows)}
        judge(run(p), pts, rows, fam, 'number')
        shutil.rmtree(d)

    # event equalization first: only the cases present for every requested model count
    for rng, i in ck.cases('equalized', 25, 300):
        cls = families.ALL[int(rng.integers(len(families.ALL) - 1))]
        if cls is families.Ssvar:
            cls = families.Sl1l2
        fam = cls()
        d = os.path.join(tmp, f'e{i}')
        os.makedirs(d)
        rows, models, masks, leads = build(rng, fam, small=True)
        first = 'mA'
        models = models if len(models) > 1 else ['mA', 'mB']
        if i % 3 == 0:                             # names that are numbers
            models = [['0.5', '2.5', '1.25'], ['7', '2.5', '12']][i % 2][:len(models)]
        rows = [(dict(k, model=m), fam.draw(rng, fam.size(rng))) for k, _ in rows for m in models
                if k['vx_mask'] == 'FULL' and k['model'] == first and rng.random() < .8]
        if not rows:
            continue
        names = [n.upper() for n in fam.ref([rows[0][1]])]
        names = [names[j] for j in rng.permutation(len(names))[:2]]
        write(os.path.join(d, 'in.tsv'), rng, fam, rows, names, decoy_rows(rng, fam, rows, names))
        p, pts, _ = mk(rng, d, fam, rows, models, ['FULL'], leads, names, indy='fcst_lead')
        p['event_equal'] = 'True'
        want = p['series_val_1']['model']
        have = {}
        for k, _r in rows:
            have.setdefault((k['fcst_valid_beg'], k['fcst_lead']), set()).add(k['model'])
        kept = [r for r in rows if set(want) <= have[r[0]['fcst_valid_beg'], r[0]['fcst_lead']]]
        ck.case_input = {'params': p, 'rows': len(rows)}
        out = run(p)
        if not kept:
            ck.skip('equalization leaves nothing')
        else:
            judge(out, pts, kept, fam, 'equalized')
        shutil.rmtree(d)

    # confidence intervals
    for rng, i in ck.cases('ci', 14, 160):
        cls = [families.Sl1l2, families.Ctc, families.Ecnt, families.Grad, families.Vl1l2, families.Rps][i % 6]
        fam = cls()
        fam.size = lambda r: 12
        d = os.path.join(tmp, f'c{i}')
        os.makedirs(d)
        rows, models, masks, leads = build(rng, fam, small=True)
        if cls is families.Ctc:
            fam.zero[:] = False
            rows = [(k, fam.draw(rng, 5) + 1) for k, _ in rows]
        names = {'sl1l2': ['ME', 'RMSE', 'FBAR'], 'ctc': ['CSI', 'ACC'], 'ecnt': ['ECNT_MAE', 'ECNT_RMSE'], 'grad': ['S1', 'FGBAR'],
                 'vl1l2': ['VL1L2_RMSVE'], 'rps': ['RPS', 'RPSS']}[fam.line_type]
        write(os.path.join(d, 'in.tsv'), rng, fam, rows, names, [])
        p, pts, _ = mk(rng, d, fam, rows, models, masks, leads, names, indy='fcst_lead')
        seed = int(rng.integers(1, 10 ** 6))
        p |= {'num_iterations': 100, 'random_seed': seed, 'method': str(rng.choice(['perc', 'pivotal'])),
              'circular_block_bootstrap': str(rng.choice(['True', 'False']))}
        ck.case_input = {'params': p, 'rows': len(rows)}
        out = run(p)
        judge(out, pts, rows, fam, 'ci')
        if isinstance(out, Raised):
            shutil.rmtree(d)
            continue
        again = run({**p, 'agg_stat_output': os.path.join(d, 'b.tsv')})
        ck.expect(out.equals(again), 'ci/seed', lambda: 'the same seed gave different intervals', monitor='seed')
        wide = run({**p, 'agg_stat_output': os.path.join(d, 'c.tsv'), 'alpha': .4})
        for j, pt in enumerate(pts):
            raws = pick(rows, pt)
            lo, hi, v = (out[c][j] for c in ('stat_btcl', 'stat_btcu', 'stat_value'))
            if not raws:
                ck.expect(is_missing(lo) and is_missing(hi), 'ci/empty', lambda: f'interval {lo},{hi} of an empty point', monitor='ci')
                continue
            if is_missing(v):
                continue
            if len(raws) == 1 and is_missing(lo) and is_missing(hi):
                continue               # one row: every resample is the same, there is no interval
            ck.expect(not is_missing(lo) and lo <= hi, 'ci/order', lambda: f'interval [{lo},{hi}] at {pt}', monitor='ci')
            st = pt['stat_name'].lower()
            per = [fam.ref([r])[st] for r in raws]
            # percentile bounds of a weighted mean cannot leave the range of the single-row values
            if p['method'] == 'perc' and st in ('me', 'fbar', 'acc', 'ecnt_mae', 'fgbar', 'rps') and all(x and x[0] is not None for x in per):
                a, b = min(x[0] for x in per), max(x[0] for x in per)
                e = 1e-5 * max(1, abs(a), abs(b))
                ck.expect(a - e <= lo and hi <= b + e, 'ci/range', lambda: f'interval [{lo},{hi}] leaves the range [{a},{b}] of '
                          f'the rows at {pt}', monitor='ci')
                if len(raws) >= 9 and b - a > 1e-3:
                    ck.expect(hi - lo > 1e-9, 'ci/degenerate', lambda: f'zero-width interval at {pt} although the rows differ',
                              monitor='ci')
            if not isinstance(wide, Raised):
                l2, h2 = wide['stat_btcl'][j], wide['stat_btcu'][j]
                # both runs start from the same seed, so they resample identically
                ck.expect(l2 >= lo - 1e-6 and h2 <= hi + 1e-6, 'ci/alpha', lambda: f'alpha 0.4 interval [{l2},{h2}] is not inside '
                          f'the alpha 0.05 interval [{lo},{hi}] at {pt}', monitor='alpha')
        shutil.rmtree(d)

    # many resamples of few rows: the bounds are the percentiles over all possible resamples
    for rng, i in ck.cases('percentiles', 24, 240):
        cls = [families.Sl1l2, families.Ctc, families.Ecnt, families.Vl1l2][i % 4]
        fam = cls()
        fam.start(rng)
        d = os.path.join(tmp, f'q{i}')
        os.makedirs(d)
        z = int(rng.integers(3))
        n, B, alpha, lead = int(rng.integers(3, 7 if z == 2 else 10)), 1000, float(rng.choice([.1, .2, .5])), 6
        if cls is families.Ctc:
            fam.zero, fam.big = np.zeros(4, bool), 60
        rows = []
        for m, day in itertools.product(['mA', 'mB'], range(n)):
            valid = pd.Timestamp('2020-01-01') + pd.Timedelta(days=day)
            rows.append(({'model': m, 'vx_mask': 'FULL', 'fcst_lead': lead, 'fcst_valid_beg': str(valid), 'fcst_init_beg': str(valid - pd.Timedelta(hours=lead)),
                          'fcst_var': 'TMP', 'fcst_lev': 'Z2'}, fam.draw(rng, int(rng.integers(8, 25)))))
        st = str(rng.choice({'sl1l2': ['ME', 'RMSE', 'MAE'], 'ctc': ['CSI', 'PODY', 'ACC'], 'ecnt': ['ECNT_MAE', 'ECNT_RMSE'], 'vl1l2': ['VL1L2_RMSVE']}[fam.line_type]))
        df = pd.DataFrame([{**k, 'stat_name': st, **fam.row(r), 'stat_value': 0.} for k, r in rows])
        df.iloc[rng.permutation(len(df))].to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        p = {'random_seed': int(rng.integers(1, 1 << 30)), 'indy_var': 'fcst_lead', 'method': str(rng.choice(['perc', 'pivotal'])), 'num_iterations': B,
             'event_equal': 'False', 'derived_series_1': [], 'derived_series_2': [], 'agg_stat_input': os.path.join(d, 'in.tsv'),
             'fcst_var_val_1': {'TMP': [st]}, 'fcst_var_val_2': {}, 'agg_stat_output': os.path.join(d, 'out.tsv'), 'fixed_vars_vals_input': {},
             'series_val_1': {'model': ['mA', 'mB']}, 'series_val_2': {}, 'alpha': alpha, 'line_type': fam.line_type, 'num_threads': 1,
             'indy_vals': [str(lead)], 'list_stat_1': [st], 'list_stat_2': []}
        if z:
            p['circular_block_bootstrap'] = str(z == 1)
        if alpha == .1 and rng.random() < .3:
            del p['alpha']                            # 0.05 unless stated
            alpha = .05
        ck.case_input = {'params': p, 'input': open(os.path.join(d, 'in.tsv')).read()}
        out = run(p)
        shutil.rmtree(d)
        if isinstance(out, Raised):
            ck.expect(False, 'percentiles/raised', f'{out}', monitor='percentiles')
            continue
        dist = resamples(n, int(np.sqrt(n)) if z < 2 else 1)
        for o in out.itertuples():
            raws = [r for k, r in rows if k['model'] == o.model]
            spec = [fam.ref([r for r, c in zip(raws, cnt) for _ in range(c)])[st.lower()] for cnt, _ in dist]
            full = fam.ref(raws)[st.lower()]
            if any(x is None or x[0] is None for x in spec + [full]):
                ck.skip('percentiles: undefined resample')
                continue
            lo, hi = o.stat_btcl, o.stat_btcu
            if p['method'] == 'pivotal':
                lo, hi = sorted((2 * full[0] - lo, 2 * full[0] - hi))
            v = [x[0] for x in spec]
            ck.expect(percentiles_ok(v, [q for _, q in dist], lo, hi, alpha, B, 1e-6 + max(x[1] for x in spec)), f'percentiles/{p["method"]}',
                      lambda: f'{st} of {n} rows ({z}), alpha {alpha}: interval [{o.stat_btcl},{o.stat_btcu}], resamples from {min(v)} to {max(v)}',
                      monitor='percentiles')
            ck.nontrivial('percentiles', st, v, alpha)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(500)


main_guard(main)
