"""C15: the object bootstrap program (MODE/MTD) reports each ratio of exactly its objects."""
import copy
import importlib
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from objects import RATIOS, member, size
from vlib import Check, Raised, close, is_missing, main_guard


def value(objs, stat):
    """-> exact ratio or None; weights of an empty class may be reported as missing"""
    pre, r = stat.lower().rsplit('_', 2)[0], '_'.join(stat.lower().rsplit('_', 2)[1:])
    a, b = r.split('_')
    w = 'area' if pre.endswith('arearat') else 'volume' if pre.endswith('volrat') else None
    use = [o for o in objs if pre[:2] not in ('2d', '3d') or o['object_type'] == pre[:2]]
    num, den = size(use, a, w), size(use, b, w)
    lenient = bool(w) and not (any(member(a, o) for o in use) and any(member(b, o) for o in use))
    return (num / den if den else None), lenient, (num, den)


def main():
    from metcalcpy.agg_stat_bootstrap import AggStatBootstrap
    ck = Check('C15', 'random object tables (2-3 models or numeric series, 1-3 leads, 2-6 valid times, two variables, 0-9 objects per '
                      'case, groups, 1-3 statistics, 2D and 3D, one or two axes, whole, decimal or text independent values, earlier events) through the object bootstrap program, with and without resampling; '
                      'non-trivial = a defined ratio; identity = statistic, numerator, denominator')
    tmp = tempfile.mkdtemp(prefix='verif_c15_')
    mods = [importlib.import_module('metcalcpy.util.' + m + '_statistics') for m in
            ('mode_ratio', 'mode_arearat', 'mode_2d_ratio', 'mode_2d_arearat', 'mode_3d_ratio', 'mode_3d_volrat')]

    def run(p):
        err = ck.call(lambda: AggStatBootstrap(copy.deepcopy(p)).calculate_values())
        return err if isinstance(err, Raised) else pd.read_csv(p['agg_stat_output'], sep='\t', dtype={'fcst_lead': str, 'vx_num': str, 'fcst_rad': str})

    for rng, i in ck.cases('program', 110, 900):
        d = os.path.join(tmp, str(i))
        os.makedirs(d)
        kind = str(rng.choice(['plain', '2d', '3d']))
        pres = {'plain': ['RATIO_', 'AREARAT_'], '2d': ['2D_RATIO_', '2D_AREARAT_'], '3d': ['3D_RATIO_', '3D_VOLRAT_']}[kind]

        def names():
            res = []
            for _ in range(int(rng.integers(1, 4))):
                s = pres[int(rng.integers(2))] + RATIOS[int(rng.integers(len(RATIOS)))].upper()
                if s not in res and any(hasattr(m, 'calculate_' + s.lower()) for m in mods):
                    res.append(s)
            return res or [pres[0] + 'FSA_ASA']
        models = ['mA', 'mB', 'mC'][:int(rng.integers(2, 4))]
        nums = [['1', '2'], ['2', '2.5'], ['0.5', '3'], ['4', 'all'], ['0.5', 'all']][int(rng.choice([0, 0, 1, 2, 3, 4]))]
        indy = str(rng.choice(['fcst_lead', 'fcst_lead', 'fcst_rad', 'desc']))
        leads = {'fcst_lead': [30000, 60000, 120000], 'fcst_rad': ['0.5', '2', str(rng.choice(['2.25', 'far']))], 'desc': ['low', 'mid', 'top']}[indy][:int(rng.integers(1, 4))]
        tables, per = [], int(rng.choice([2, 5, 9]))
        p = rng.choice([.2, .5, .5, .8], 3)
        vars_ = ['APCP', 'REFC'][:int(rng.integers(1, 3))]
        for m, q, le, day, v in itertools.product(models, nums, leads, range(int(rng.integers(2, 7))), vars_):
            for k in range(int(rng.integers(0, per + 1))):
                tables.append({'model': m, 'vx_num': q, 'fcst_lead': 30000, 'fcst_valid': f'2020-01-0{day + 1} 00:00:00',
                               'fcst_init': '2020-01-01 00:00:00', 'fcst_var': v, 'object_id': f'F{k:03d}', indy: le,
                               'object_type': str(rng.choice(['2d', '3d'])) if kind != 'plain' else '2d',
                               'fcst_flag': int(rng.random() < p[0]), 'simple_flag': int(rng.random() < p[1]),
                               'matched_flag': int(rng.random() < p[2]), ('volume' if kind == '3d' else 'area'): int(rng.integers(1, 300))})
        if not tables:
            continue
        df = pd.DataFrame(tables)
        df.iloc[rng.permutation(len(df))].to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False)
        sep = ':' if rng.random() < .6 else ';'

        def series():
            z = rng.random()
            if z < .35:
                return {'model': models}
            if z < .6:
                return {'model': [sep.join(models[:2])] + models[2:]}
            if z < .8:
                return {'model': models[:2], 'vx_num': list(nums)}
            return {'vx_num': nums[::-1] if rng.random() < .3 else [sep.join(nums)] if rng.random() < .5 else [sep.join(nums[::-1]), nums[0]]}
        absent = {'fcst_lead': '240000', 'fcst_rad': '9.5', 'desc': 'other'}[indy]
        iv = [str(x) for x in leads] + ([absent] if rng.random() < .2 else [])
        it = 1 if rng.random() < .5 else 40
        axes = [('APCP', series(), names())]
        if rng.random() < .25:
            axes.append((vars_[-1], {f: list(v) for f, v in axes[0][1].items()} if rng.random() < .5 else
                         {f: [x] for f, x in zip(axes[0][1], [v[0] for v in axes[0][1].values()])}, names()))
        # events of an earlier run: rows of other events are left out
        eq = rng.random() < .3 and sep == ':'
        par = {'random_seed': int(rng.integers(1, 99)), 'indy_var': indy, 'indy_vals': iv, 'method': 'perc', 'num_iterations': it,
               'event_equal': str(eq), 'agg_stat_input': os.path.join(d, 'in.tsv'), 'agg_stat_output': os.path.join(d, 'out.tsv'),
               'fcst_var_val_2': {}, 'series_val_2': {}, 'list_stat_2': [], 'num_threads': 1, 'alpha': float(rng.choice([.05, .2]))}
        for k, (v, s, st) in enumerate(axes):
            par.update({f'fcst_var_val_{k + 1}': {v: st}, f'series_val_{k + 1}': s, f'list_stat_{k + 1}': st})
        use = [list(tables) for _ in axes]
        if eq:
            prev = df[rng.random(len(df)) < .5].copy()
            prev['equalize'] = prev['fcst_valid'] + ' ' + prev['fcst_lead'].astype(str)
            prev.to_csv(os.path.join(d, 'ee.tsv'), sep='\t', index=False)
            par['agg_stat_input_ee'] = os.path.join(d, 'ee.tsv')
            keep = set()
            for v, s, _ in axes:
                inn = [j for j, t in enumerate(tables) if t['fcst_var'] == v and all(str(t[f]) in ':'.join(x).split(':') for f, x in s.items())]
                ok = set(prev['equalize'][prev.index.isin(inn)])
                keep |= {j for j in inn if f"{tables[j]['fcst_valid']} {tables[j]['fcst_lead']}" in ok}
            if not keep:
                shutil.rmtree(d)
                continue
            use = [[tables[j] for j in sorted(keep)]] * len(axes)
        ck.case_input = {'params': copy.deepcopy(par), 'input': open(os.path.join(d, 'in.tsv')).read()}
        out = run(par)
        again = wide = None
        if it > 1 and not isinstance(out, Raised):
            again = run(par)
            wide = run(dict(par, alpha=.5))
        ck.expect(ck.case_input['input'] == open(os.path.join(d, 'in.tsv')).read(), 'input', 'the input file was changed', monitor='program')
        shutil.rmtree(d)
        sv, stats = axes[0][1:]
        if isinstance(out, Raised):
            ck.expect(False, 'raised', f'{par}: {out}', monitor='program')
            continue
        fields = list(sv) + [indy, 'stat_name']
        want = [c for _, s, st in axes for c in itertools.product(*s.values(), iv, st)]
        axis = [k for k, (_, s, st) in enumerate(axes) for _ in itertools.product(*s.values(), iv, st)]
        have = [tuple(str(o[f]) for f in fields) for _, o in out.iterrows()]
        if not ck.expect(have == want, 'rows', lambda: f'output rows {have}, asked for {want}', monitor='program'):
            continue
        for pos, (key, (_, o)) in enumerate(zip(have, out.iterrows())):
            sel = dict(zip(list(sv), key))
            objs = [t for t in use[axis[pos]] if t['fcst_var'] == axes[axis[pos]][0] and str(t[indy]) == key[-2]
                    and all(str(t[f]) in v.replace(';', ':').split(':') for f, v in sel.items())]
            w, lenient, parts = value(objs, key[-1])
            ok = close(o['stat_value'], w, 1.1e-7) or (lenient and is_missing(o['stat_value']))
            ck.expect(ok, f'value/{key[-1].rsplit("_", 2)[0].lower()}', lambda: f'{key}: {o["stat_value"]}, objects give {parts}',
                      monitor='value')
            ck.expect(float(o['nstats']) == len(objs), 'nstats', lambda: f'{key}: nstats {o["nstats"]} for {len(objs)} objects', monitor='value')
            if w is not None:
                ck.nontrivial(key[-1], *parts)
            if it == 1:
                ck.expect(is_missing(o['stat_btcl']) and is_missing(o['stat_btcu']), 'ci/none', 'interval without resampling', monitor='ci')
                continue
            lo, hi = o['stat_btcl'], o['stat_btcu']
            if is_missing(lo) or is_missing(hi):
                continue
            ck.expect(lo <= hi, 'ci/order', lambda: f'{key}: interval [{lo},{hi}]', monitor='ci')
            # a ratio of sums lies between the smallest and the largest ratio of its cases
            cases = {}
            for t in objs:
                cases.setdefault(t['fcst_valid'], []).append(t)
            rs = [value(c, key[-1])[0] for c in cases.values()]
            if rs and None not in rs:
                ck.expect(min(rs) - 2e-7 <= lo and hi <= max(rs) + 2e-7, 'ci/hull', lambda: f'{key}: interval [{lo},{hi}] outside the '
                          f'ratios of the cases {sorted(rs)}', monitor='ci')
            if len(cases) > 1:
                a = again.iloc[pos]
                ck.expect(a['stat_btcl'] == lo and a['stat_btcu'] == hi and a['stat_value'] == o['stat_value'], 'ci/seed',
                          lambda: f'{key}: same seed gave [{lo},{hi}] and [{a["stat_btcl"]},{a["stat_btcu"]}]', monitor='ci')
                v = wide.iloc[pos]
                if not is_missing(v['stat_btcl']):
                    ck.expect(lo - 1e-9 <= v['stat_btcl'] and v['stat_btcu'] <= hi + 1e-9, 'ci/alpha', lambda: f'{key}: alpha .5 gave '
                              f'[{v["stat_btcl"]},{v["stat_btcu"]}], alpha {par["alpha"]} [{lo},{hi}]', monitor='ci')
            ck.expect(o['fcst_var'] == axes[axis[pos]][0], 'variable', lambda: f'{key}: variable {o["fcst_var"]}', monitor='value')
        ck.sample({'series': sv, 'statistics': stats, 'iterations': it, 'objects': len(tables)})

    # many resamples: the bounds are the percentiles of the exact distribution over all resamples of the cases
    for rng, i in ck.cases('percentiles', 14, 150):
        d = os.path.join(tmp, f'p{i}')
        os.makedirs(d)
        n, B, alpha = int(rng.integers(3, 7)), 1000, float(rng.choice([.1, .2, .5]))
        stat = str(rng.choice(['RATIO_', 'AREARAT_'])) + str(rng.choice(['FSA_ASA', 'FSM_FSA', 'OSA_ASA']))
        tables = []
        leads = [60000, 120000][:int(rng.integers(1, 3))]
        for m, le, day in itertools.product(['mA', 'mB'], leads, range(n)):
            f = rng.random()
            for k in range(int(rng.integers(4, 12))):
                # every class is met in every case
                flags = [(1, 1, 1), (0, 1, 1), (1, 1, 0)][k] if k < 3 else (int(rng.random() < f), 1, int(rng.random() < f))
                tables.append(dict(zip(('fcst_flag', 'simple_flag', 'matched_flag'), flags), model=m, fcst_lead=le, fcst_var='APCP', object_id=f'F{k}',
                                   fcst_valid=f'2020-01-0{day + 1} 00:00:00', fcst_init='2020-01-01 00:00:00', object_type='2d', area=int(rng.integers(1, 300))))
        pd.DataFrame(tables).to_csv(os.path.join(d, 'in.tsv'), sep='\t', index=False)
        par = {'random_seed': int(rng.integers(1, 1 << 30)), 'indy_var': 'fcst_lead', 'indy_vals': [str(le) for le in leads], 'method': 'perc', 'num_iterations': B,
               'event_equal': 'False', 'agg_stat_input': os.path.join(d, 'in.tsv'), 'agg_stat_output': os.path.join(d, 'out.tsv'),
               'fcst_var_val_1': {'APCP': [stat]}, 'fcst_var_val_2': {}, 'series_val_1': {'model': ['mA', 'mB']}, 'series_val_2': {},
               'list_stat_1': [stat], 'list_stat_2': [], 'num_threads': 1, 'alpha': alpha}
        if alpha == .1 and rng.random() < .6:
            del par['alpha']                          # 0.05 unless stated
            alpha = .05
        ck.case_input = {'params': par, 'input': open(os.path.join(d, 'in.tsv')).read()}
        out = run(par)
        shutil.rmtree(d)
        if isinstance(out, Raised):
            ck.expect(False, 'percentiles/raised', f'{out}', monitor='percentiles')
            continue
        draws = np.array(list(itertools.product(range(n), repeat=n)))
        cnt = np.stack([(draws == k).sum(1) for k in range(n)], 1)
        for o in out.itertuples():
            parts = np.array([value([t for t in tables if t['model'] == o.model and str(t['fcst_lead']) == o.fcst_lead and t['fcst_valid'][9] == str(k + 1)], stat)[2] for k in range(n)], float)
            ok = False
            if is_missing(o.stat_btcl) and is_missing(o.stat_btcu) and np.ptp(parts[:, 0] / parts[:, 1]) < 1e-9:
                ck.skip('every case has the same ratio')
                continue
            # a case drawn twice may count once or twice
            for w in (cnt > 0, cnt):
                r = (w @ parts[:, 0]) / (w @ parts[:, 1])
                good = True
                for b, q in ((o.stat_btcl, alpha / 2), (o.stat_btcu, 1 - alpha / 2)):
                    tol = 5 * np.sqrt(q * (1 - q) / B) + 2 / B
                    good &= (r < b - 1e-6).mean() <= q + tol and (r <= b + 1e-6).mean() >= q - tol
                ok |= bool(good)
            ck.expect(ok, 'percentiles', lambda: f'{stat} of {o.model}, {n} cases, alpha {alpha}: interval [{o.stat_btcl},{o.stat_btcu}], exact '
                      f'quantiles {np.quantile(r, [alpha / 2, 1 - alpha / 2])}', monitor='percentiles')
            ck.nontrivial('percentiles', parts.tolist(), alpha)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(150)


main_guard(main)
