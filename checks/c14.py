"""C14: per-row summary statistics and pooled ("A;B") field values."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import families
from vlib import Check, Raised, close, is_missing, main_guard

VALID0 = pd.Timestamp('2021-03-01')
SUPPORTED = [families.Sl1l2, families.Sal1l2, families.Grad, families.Vl1l2, families.Val1l2, families.Ecnt, families.Rps,
             families.NbrCnt, families.Ctc, families.NbrCtc]


def main():
    from metcalcpy.agg_stat import AggStat
    from metcalcpy.sum_stat import SumStat
    from metcalcpy.util.utils import aggregate_field_values, calc_series_sums
    import metcalcpy.sum_stat as module
    ck = Check('C14', 'random tables of 10 line types through the row-summary program (with event equalization, with pooled masks), '
                      'through the pooling helpers and through the aggregation program with pooled values; non-trivial = a defined '
                      'statistic; identity = path, line type, statistic, value')
    tmp = tempfile.mkdtemp(prefix='verif_c14_')

    def fresh(rng, cls):
        fam = cls()
        fam.start(rng)
        return fam

    def lt(fam):
        return fam.line_type.replace('_', '')

    def names_of(rng, fam, k):
        names = sorted(fam.ref([fam.draw(rng, 9)]))
        return [names[j].upper() for j in rng.permutation(len(names))[:k]]

    def key_of(m, mask, lead, day):
        v = VALID0 + pd.Timedelta(days=day)
        return {'model': m, 'vx_mask': mask, 'fcst_lead': lead, 'fcst_valid_beg': str(v),
                'fcst_init_beg': str(v - pd.Timedelta(hours=lead)), 'fcst_var': 'TMP', 'fcst_lev': 'Z2'}

    def judge(fam, w, got, key, text, name):
        if w is None or (w[0] is None and not fam.sure_none) or len(w) > 2:
            ck.skip('ill-conditioned')
            return
        ck.expect(is_missing(got) if w[0] is None else close(got, w[0], w[1] + 1e-9), key,
                  lambda: f'{fam.line_type} {name}: {got}, pooled samples give {w[0]} ({text})', monitor=key.split('/')[0])
        if w[0] is not None:
            ck.nontrivial(key.split('/')[0], fam.line_type, name, float(w[0]))

    # one statistic per row
    for rng, i in ck.cases('rows', 150, 1500):
        fam = fresh(rng, SUPPORTED[i % len(SUPPORTED)])
        names = names_of(rng, fam, int(rng.integers(1, 5)))
        models, masks, leads = ['mA', 'mB'], ['EAST', 'WEST'][:int(rng.integers(1, 3))], [3, 6][:int(rng.integers(1, 3))]
        eq = rng.random() < .3
        rows = []
        for m, k, le, day, s in itertools.product(models, masks, leads, range(3), names):
            rows.append((key_of(m, k, le, day), s, fam.draw(rng, int(rng.integers(3, 25)))))
        dropped = set()
        if eq:
            dropped = {(m, le, day) for m, le, day in itertools.product(models, leads, range(3)) if rng.random() < .2}
            rows = [r for r in rows if (r[0]['model'], r[0]['fcst_lead'], (pd.Timestamp(r[0]['fcst_valid_beg']) - VALID0).days)
                    not in dropped]
        rows = [rows[j] for j in rng.permutation(len(rows))]
        if not rows:
            continue
        # the points only describe the plot: no layout of them changes, drops or reorders a row
        layout = 'lead' if eq else ['lead', 'date', 'mask', 'none', 'group', 'part'][int(rng.integers(6))]
        indy = {'date': 'fcst_valid_beg', 'mask': 'vx_mask', 'group': 'vx_mask'}.get(layout, 'fcst_lead')
        iv = {'date': [str(VALID0 + pd.Timedelta(days=x)) for x in range(3)], 'mask': masks, 'group': [':'.join(masks)], 'none': [None],
              'part': ['3']}.get(layout, [str(x) for x in leads])
        s1, s2 = {'model': models}, {}
        if not eq:
            kind = int(rng.integers(5))
            s1 = [s1, s1, {'model': ['mA']}, {'model': ['mA:mB']}, {'model': models, 'vx_mask': [':'.join(masks)]}][kind]
            s2 = {'model': ['mB']} if kind == 2 or rng.random() < .2 else {}
        d = os.path.join(tmp, f'r{i}')
        os.makedirs(d)
        df = pd.DataFrame([{**k, 'stat_name': s, 'stat_value': 0., **fam.row(r), 'tag': j} for j, (k, s, r) in enumerate(rows)])
        df.to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        p = {'sum_stat_input': os.path.join(d, 'in.tsv'), 'sum_stat_output': os.path.join(d, 'out.tsv'), 'line_type': lt(fam),
             'event_equal': str(eq), 'indy_var': indy, 'indy_vals': iv, 'series_val_1': s1,
             'series_val_2': s2, 'fcst_var_val_1': {'TMP': names}, 'fcst_var_val_2': {'TMP': names} if s2 else {},
             'fixed_vars_vals_input': {}}
        ck.case_input = {'params': p, 'input': open(os.path.join(d, 'in.tsv')).read()}
        err = ck.call(lambda: SumStat(copy.deepcopy(p)).calculate_stats())
        out = None if isinstance(err, Raised) else pd.read_csv(p['sum_stat_output'], sep='\t')
        shutil.rmtree(d)
        if isinstance(err, Raised):
            ck.expect(False, 'rows/raised', f'{fam.line_type} {names}: {err}', monitor='rows')
            continue
        if eq:
            keep = {j for j, (k, s, r) in enumerate(rows)
                    if all((m, k['fcst_lead'], (pd.Timestamp(k['fcst_valid_beg']) - VALID0).days) not in dropped for m in models)}
        else:
            keep = set(range(len(rows)))
        if not keep and 'tag' not in out:
            continue
        got = dict(zip(out['tag'].astype(int), out['stat_value']))
        if not ck.expect(set(got) == keep and len(out) == len(keep), 'rows/set', lambda: f'{fam.line_type}: rows {sorted(got)} '
                         f'in the output, expected {sorted(keep)}', monitor='rows'):
            continue
        if not eq:
            ck.expect(out['tag'].astype(int).tolist() == list(range(len(rows))), 'rows/order', 'rows were reordered', monitor='rows')
        for j in keep:
            k, s, r = rows[j]
            o = out[out['tag'] == j].iloc[0]
            ck.expect(all(str(o[c]) == str(k[c]) for c in k) and o['stat_name'] == s, 'rows/columns',
                      lambda: f'descriptive columns changed: {dict(o)} from {k}', monitor='rows')
            w = fam.ref([r])[s.lower()]
            judge(fam, w, got[j], f'rows/{fam.line_type}', 'one row', s)
        ck.sample({'line_type': fam.line_type, 'names': names, 'rows': len(keep)})

    # pooling helpers: the pooled row carries the pooled sums, other rows stay as they are
    for rng, i in ck.cases('pooled', 120, 1200):
        fam = fresh(rng, SUPPORTED[i % len(SUPPORTED)])
        masks = ['EAST', 'NMT', 'WEST', 'FULL']
        parts = [masks[j] for j in rng.permutation(4)[:int(rng.integers(1, 4))]]
        label = ';'.join(parts) if len(parts) > 1 else parts[0] + ';'
        leads = [[3, 6], [0, 24], [0, 240000], list(range(0, 60, 5))][int(rng.choice(4, p=[.6, .15, .15, .1]))]
        leads = leads[:int(rng.integers(1, 3))] if len(leads) == 2 else leads
        rows = [(key_of('mA', k, le, day), fam.draw(rng, int(rng.integers(3, 25))))
                for k, le, day in itertools.product(masks, leads, range(2)) if rng.random() < .8]
        if rng.random() < .5:                      # a lead without any row at one of the times
            gone = (int(rng.choice(leads)), str(VALID0 + pd.Timedelta(days=int(rng.integers(2)))))
            rows = [r for r in rows if (r[0]['fcst_lead'], r[0]['fcst_valid_beg']) != gone]
        rows = [rows[j] for j in rng.permutation(len(rows))]
        if not rows:
            continue
        by_lead = rng.random() < .2
        number = not by_lead and rng.random() < .3       # values of a column of numbers
        twice = not by_lead and rng.random() < .3        # two pooled values in one call
        if by_lead:
            var, label, parts = 'fcst_lead', ';'.join(map(str, leads)) + (';' if len(leads) == 1 else ''), leads
            rows = [r for r in rows if r[0]['vx_mask'] == 'EAST']
            if not rows:
                continue
        else:
            var = 'vx_mask'
            if number:
                size = dict(zip(masks, NUMBERS[int(rng.integers(len(NUMBERS)))]))
                var = 'interp_pnts'
                for k, _ in rows:
                    k[var] = size[k['vx_mask']]
                label, parts = ';'.join(str(size[x]) for x in parts) + (';' if len(parts) == 1 else ''), [size[x] for x in parts]
        labels = {label: parts}
        if twice:
            every = sorted({k[var] for k, _ in rows}) if number else masks
            other = [x for x in every if x not in parts]
            if other:
                labels[';'.join(str(x) for x in other) + (';' if len(other) == 1 else '')] = other
        of = {x: t for t, p in labels.items() for x in p}
        df = pd.DataFrame([{**k, 'stat_name': 'X', **fam.row(r)} for k, r in rows])
        before = df.copy(deep=True)
        ck.case_input = {'rows': df.to_dict('list'), 'var': var, 'labels': list(labels), 'line_type': lt(fam)}
        out = ck.call(aggregate_field_values, {var: list(labels), 'model': ['mA']}, df, lt(fam))
        if isinstance(out, Raised):
            ck.expect(False, 'pooled/raised', f'{fam.line_type}: {out}', monitor='pooled')
            continue
        ck.expect(df.equals(before), 'pooled/mutated', 'the caller\'s table was changed', monitor='pooled')
        groups, rest = {}, []
        for k, r in rows:
            if k[var] in of:
                groups.setdefault((k['fcst_valid_beg'],) if by_lead else (k['fcst_valid_beg'], k['fcst_lead'], of[k[var]]), []).append(r)
            else:
                rest.append((k, r))
        if not ck.expect(len(out) == len(groups) + len(rest), 'pooled/rows', lambda: f'{fam.line_type}: {len(out)} rows for '
                         f'{len(groups)} pooled and {len(rest)} other', monitor='pooled'):
            continue
        cols = out.columns.values
        got = {}
        for _, o in out.iterrows():
            if by_lead or o[var] in labels:
                got[(o['fcst_valid_beg'],) if by_lead else (o['fcst_valid_beg'], o['fcst_lead'], o[var])] = o
        if not ck.expect(set(got) == set(groups), 'pooled/keys', lambda: f'pooled rows for {sorted(got)}, expected {sorted(groups)}',
                         monitor='pooled'):
            continue
        for g, raws in groups.items():
            arr = np.expand_dims(got[g].to_numpy(), axis=0)
            ref = fam.ref(raws)
            for s in sorted(ref):
                if s in NO_ROW:
                    continue
                if s in FIELD:
                    v = got[g][FIELD[s]]
                    if ref[s][0] is None:
                        continue
                else:
                    v = ck.call(module.calculate_statistic, arr, cols, s)
                judge(fam, ref[s], v, f'pooled/{fam.line_type}', f'{len(raws)} rows', s)
            # scores the pooled row carries besides the sums
            for s, (col, power) in ALSO.items():
                if s in ref and col in got[g]:
                    judge(fam, (ref[s][0] ** power, 1e-6 * (1 + ref[s][0] ** power)), got[g][col], f'pooled/{fam.line_type}/{col}', f'{len(raws)} rows', col)
            if 'crps_climo' in got[g] and 'ecnt_crpscl' in ref:
                judge(fam, ref['ecnt_crpscl'], got[g]['crps_climo'], 'pooled/ecnt/crps_climo', f'{len(raws)} rows', 'crps_climo')

    # pooled inside the row-summary program: one row per variable, statistic, series, valid time and lead
    for rng, i in ck.cases('summary', 60, 600):
        fam = fresh(rng, SUPPORTED[i % len(SUPPORTED)])
        names = names_of(rng, fam, int(rng.integers(1, 3)))
        names = [s for s in names if s.lower() not in NO_ROW] or ['TOTAL']
        masks, leads, models = ['EAST', 'NMT', 'WEST'], [3, 6], ['mA', 'mB']
        number = rng.random() < .4
        var, size = ('interp_pnts', dict(zip(masks, NUMBERS[int(rng.integers(len(NUMBERS)))]))) if number else ('vx_mask', dict(zip(masks, masks)))
        rows = []
        for m, k, le, day, fv, s in itertools.product(models, masks, leads, range(2), ['TMP', 'HGT'][:int(rng.integers(1, 3))], names):
            if rng.random() < .9:
                rows.append(({**key_of(m, k, le, day), 'interp_pnts': size[k] if number else 9, 'fcst_var': fv}, s, fam.draw(rng, int(rng.integers(3, 25)))))
        rows = [rows[j] for j in rng.permutation(len(rows))]
        label = f"{size['EAST']};{size['NMT']}"
        values = [label, str(size['WEST'])]
        values = values if rng.random() < .5 else values[::-1]
        where = ['series', 'indy'][int(rng.integers(2))]
        indy, iv = (var, values) if where == 'indy' else ('fcst_lead', ['3', '6'])
        more = {} if where == 'indy' else {var: values}
        s1, s2 = ({'model': models, **more}, {}) if rng.random() < .6 else ({'model': ['mA'], **more}, {'model': ['mB'], **more})
        d = os.path.join(tmp, f's{i}')
        os.makedirs(d)
        pd.DataFrame([{**k, 'stat_name': s, **fam.row(r), 'stat_value': 0.} for k, s, r in rows]).to_csv(
            os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        variables = sorted({k['fcst_var'] for k, _, _ in rows})
        p = {'sum_stat_input': os.path.join(d, 'in.tsv'), 'sum_stat_output': os.path.join(d, 'out.tsv'), 'line_type': lt(fam),
             'event_equal': 'False', 'indy_var': indy, 'indy_vals': iv, 'series_val_1': s1, 'series_val_2': s2,
             'fcst_var_val_1': {v: names for v in variables}, 'fcst_var_val_2': {v: names for v in variables} if s2 else {}, 'fixed_vars_vals_input': {}}
        ck.case_input = {'params': p, 'input': open(os.path.join(d, 'in.tsv')).read()}
        err = ck.call(lambda: SumStat(copy.deepcopy(p)).calculate_stats())
        out = None if isinstance(err, Raised) else pd.read_csv(p['sum_stat_output'], sep='\t')
        shutil.rmtree(d)
        if isinstance(err, Raised):
            ck.expect(False, 'summary/raised', f'{fam.line_type} {names}: {err}', monitor='summary')
            continue
        want = {}
        for k, s, r in rows:
            x = label if k['vx_mask'] != 'WEST' else plain(size['WEST'])
            want.setdefault((k['model'], x, k['fcst_lead'], k['fcst_valid_beg'], k['fcst_var'], s), []).append(r)
        got = {(o['model'], o[var] if ';' in str(o[var]) else plain(o[var]), int(o['fcst_lead']), o['fcst_valid_beg'], o['fcst_var'], o['stat_name']): o['stat_value'] for _, o in out.iterrows()}
        if not ck.expect(set(got) == set(want) and len(out) == len(want), f'summary/rows-{where}', lambda: f'{len(out)} rows, expected {len(want)}: '
                         f'missing {sorted(set(want) - set(got))[:3]}, extra {sorted(set(got) - set(want))[:3]}', monitor='summary'):
            continue
        for k, raws in want.items():
            judge(fam, fam.ref(raws)[k[-1].lower()], got[k], f'summary/{where}_{fam.line_type}', f'{k}, {len(raws)} rows', k[-1])

    # the same values pooled inside the aggregation program
    for rng, i in ck.cases('program', 78, 780):
        fam = fresh(rng, (SUPPORTED + [families.Ssvar, families.Mctc, families.Pct])[i % (len(SUPPORTED) + 3)])
        names = names_of(rng, fam, 1)
        if fam.line_type == 'pct':                 # the others use the base rate of the whole series
            names = [['PSTD_ROC_AUC', 'PCT_TOTAL'][int(rng.integers(2))]]
        masks, leads = ['EAST', 'NMT', 'WEST'], [3, 6]
        rows = [(key_of(m, k, le, day), fam.draw(rng, int(rng.integers(3, 25))))
                for m, k, le, day in itertools.product(['mA', 'mB'], masks, leads, range(3)) if rng.random() < .85]
        if rng.random() < .5:
            gone = (int(rng.choice(leads)), str(VALID0 + pd.Timedelta(days=int(rng.integers(3)))))
            rows = [r for r in rows if (r[0]['fcst_lead'], r[0]['fcst_valid_beg']) != gone]
        rows = [rows[j] for j in rng.permutation(len(rows))]
        d = os.path.join(tmp, f'a{i}')
        os.makedirs(d)
        pd.DataFrame([{**k, 'stat_name': names[0], **fam.row(r), 'stat_value': 0.} for k, r in rows]).to_csv(
            os.path.join(d, 'in.tsv'), sep='\t', index=False, na_rep='NA')
        where = ['series', 'indy'][int(rng.integers(2))]
        if where == 'series':
            sv, indy, iv = {'model': ['mA', 'mB'], 'vx_mask': ['EAST;NMT', 'WEST']}, 'fcst_lead', ['3', '6']
        else:
            sv, indy, iv = {'model': ['mA', 'mB']}, 'vx_mask', ['WEST', 'EAST;NMT'] if rng.random() < .5 else ['EAST;NMT', 'WEST']
        p = {'random_seed': 7, 'indy_var': indy, 'method': 'perc', 'num_iterations': 1, 'event_equal': 'False',
             'derived_series_1': [], 'derived_series_2': [], 'agg_stat_input': os.path.join(d, 'in.tsv'),
             'fcst_var_val_1': {'TMP': names}, 'fcst_var_val_2': {}, 'agg_stat_output': os.path.join(d, 'out.tsv'),
             'fixed_vars_vals_input': {}, 'series_val_1': sv, 'series_val_2': {}, 'alpha': .05, 'line_type': fam.line_type,
             'num_threads': -1, 'indy_vals': iv, 'list_stat_1': names, 'list_stat_2': []}
        ck.case_input = {'params': copy.deepcopy(p), 'input': open(os.path.join(d, 'in.tsv')).read()}
        err = ck.call(lambda: AggStat(p).calculate_stats_and_ci())
        out = None if isinstance(err, Raised) else pd.read_csv(p['agg_stat_output'], sep='\t')
        shutil.rmtree(d)
        if isinstance(err, Raised):
            ck.expect(False, f'program/raised-{where}', f'{fam.line_type} {names}: {err}', monitor='program')
            continue
        ck.expect(p['series_val_1'] == ck.case_input['params']['series_val_1'], 'program/series', lambda: f'the caller\'s series became {p["series_val_1"]}',
                  monitor='program')
        ck.expect(len(out) == 4 if where == 'indy' else len(out) == 8, f'program/rows-{where}', lambda: f'{len(out)} rows', monitor='program')
        for _, o in out.iterrows():
            sel = {'model': str(o['model'])}
            raws = [r for k, r in rows if k['model'] == o['model'] and k['vx_mask'] in str(o['vx_mask']).split(';')
                    and (where == 'indy' or str(k['fcst_lead']) == str(o['fcst_lead']))]
            if not raws:
                ck.expect(is_missing(o['stat_value']), 'program/empty', lambda: f'value {o["stat_value"]} without rows', monitor='program')
                continue
            judge(fam, fam.ref(raws)[names[0].lower()], o['stat_value'], f'program/{where}_{fam.line_type}', f'{dict(o)}', names[0])
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(400)


# statistics that are a field of the pooled row
FIELD = {'nbr_fss': 'fss', 'rpss': 'rpss'}
FIELD.update({f'ecnt_{f}': f for f in ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr', 'me_ge_obs', 'me_lt_obs')})


def plain(value):
    """a single value of a column: numbers as numbers, however they are written"""
    try:
        return str(float(value))
    except ValueError:
        return str(value)


NUMBERS = [(1, 9, 25, 49), (2.5, 10., 40.25, 7.75), (1, 2.5, 10, 25)]
NO_ROW = {'ecnt_bias_ratio'}
ALSO = {'nbr_afss': ('afss', 1), 'nbr_ufss': ('ufss', 1), 'ecnt_rmse': ('mse', 2), 'ecnt_rmse_oerr': ('mse_oerr', 2)}


main_guard(main)
