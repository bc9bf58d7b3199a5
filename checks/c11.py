"""C11: event equalization keeps exactly the rows whose event every series has."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from vlib import Check, main_guard, Raised

TIMES = [f'2020-0{m}-{d:02d} {h:02d}:00:00' for m in (1, 2) for d in (1, 2, 3, 9) for h in (0, 12)]


def table(rng, stats=('FBAR',), vars_=('TMP',), valid='fcst_valid_beg', density=None):
    """verification rows: each (model, mask, lead, valid, extra) may or may not be there"""
    models = [f'M{j}' for j in range(int(rng.integers(2, 5)))]
    masks = ['EAST', 'WEST', 'FULL'][:int(rng.integers(1, 4))]
    pnts = [[1, 9, 25], [1, 9, 25], [0.5, 2.5, 0.25], [1, 2.5, 10.25]][int(rng.integers(4))][:int(rng.integers(1, 3))]
    leads = [int(x) for x in rng.choice([0, 30000, 60000, 120000, 240000], int(rng.integers(1, 4)), replace=False)]
    times = list(rng.choice(TIMES, int(rng.integers(1, 6)), replace=False))
    levs = ['Z2', 'P500'][:int(rng.integers(1, 3))]
    p = density if density is not None else float(rng.choice([.5, .75, .9, .97, 1.]))
    rows = []
    for v in vars_:
        for m, k, n, l, t, e in itertools.product(models, masks, pnts, leads, times, levs):
            if rng.random() > p:
                continue
            for s in stats:
                rows.append((m, k, n, l, t, e, v, s))
    df = pd.DataFrame(rows, columns=['model', 'vx_mask', 'interp_pnts', 'fcst_lead', valid, 'fcst_lev', 'fcst_var', 'stat_name'])
    df['fcst_init_beg'] = df[valid]
    if len(df):
        df = df.sample(frac=1, random_state=int(rng.integers(1 << 30))).reset_index(drop=True)
    df['row'] = np.arange(len(df))
    df['stat_value'] = np.round(rng.normal(size=len(df)), 5)
    if rng.random() < .15 and len(df):
        df.loc[df['vx_mask'] == masks[0], 'vx_mask'] = np.nan
        masks = masks[1:] + ['NA']
    elif rng.random() < .15:
        # a name that is a number beside ones that are not
        df['vx_mask'] = df['vx_mask'].replace({'EAST': '7', 'WEST': '-2.5'})
        masks = [{'EAST': '7', 'WEST': '-2.5'}.get(m, m) for m in masks]
        if len(df) and set(df['vx_mask']) <= {'7', '-2.5'}:
            df['vx_mask'] = df['vx_mask'].astype(float)
    return df, dict(model=models, vx_mask=masks, interp_pnts=[str(x) for x in pnts], fcst_lev=levs, fcst_lead=[str(x) for x in leads])


def grouped(rng, vals):
    """sometimes write several values as one group"""
    vals = [str(v) for v in vals]
    if len(vals) > 1 and rng.random() < .25:
        k = int(rng.integers(1, len(vals)))
        return [':'.join(vals[:k + 1])] + vals[k + 1:]
    return vals


def ungroup(vals):
    return [x for v in vals for x in v.split(':')]


def text(col):
    """the values as they are written in a configuration: 2 and not 2.0"""
    return col.map(lambda v: f'{v:g}' if isinstance(v, float) and not np.isnan(v) else str(v))


def match(df, var, val):
    if val == 'NA':
        return df[var].isnull()
    return text(df[var]) == val


def events(df, valid, indy):
    e = df[valid].astype(str) + '|' + df['fcst_lead'].astype(str)
    if indy is not None:
        e = e + '|' + df[indy].astype(str)
    return e


def common(df, ev, needs):
    """events present in every combination of `needs` (variable -> values)"""
    keep = None
    for combo in itertools.product(*needs.values()):
        m = np.ones(len(df), bool)
        for var, val in zip(needs, combo):
            m &= match(df, var, val).to_numpy()
        have = set(ev[m])
        keep = have if keep is None else keep & have
    return keep


EXC = ('', 'fcst_valid_beg', 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD')


def main():
    from metcalcpy.event_equalize import event_equalize
    from metcalcpy.event_equalize_against_values import event_equalize_against_values
    from metcalcpy.util.utils import perform_event_equalization, equalize_axis_data
    from metcalcpy.agg_stat_event_equalize import AggStatEventEqualize
    from metcalcpy.agg_stat_eqz import AggStatEventEqz
    ck = Check('C11', 'random verification tables over models, masks, points, leads, times and levels with 0-50% of the rows '
                      'missing, grouped values, fixed variables, missing masks, one or two axes; oracle = set intersection of '
                      'the events of every combination; non-trivial = some rows removed and some kept; identity = table and '
                      'the requested series')

    def verdict(tag, got, df, want_rows, scope=None):
        if isinstance(got, Raised):
            ck.expect(False, f'{tag}/raised', f'{got}', monitor=tag)
            return False
        g = list(got['row']) if 'row' in got.columns else []
        gs, w = set(g), set(want_rows)
        if scope is not None:
            gs &= scope
            g = [x for x in g if x in scope]
        a = ck.expect(gs <= w, f'{tag}/kept', lambda: f'rows {sorted(gs - w)[:5]} kept although their event is missing from some series',
                      monitor=f'{tag}.soundness')
        b = ck.expect(w <= gs, f'{tag}/lost', lambda: f'rows {sorted(w - gs)[:5]} removed although every series has their event',
                      monitor=f'{tag}.completeness')
        # a row that is in the table twice survives twice
        due = df['row'][df['row'].isin(gs)]
        c = ck.expect(sorted(g) == sorted(due), f'{tag}/duplicated', lambda: f'{len(g)} rows for {len(due)}', monitor=f'{tag}.multiplicity')
        if a and b and c and len(got):
            src = df.drop_duplicates('row').set_index('row')
            h = got[got['row'].isin(gs)].set_index('row')
            cols = [x for x in src.columns if x in h.columns]
            o = src.loc[h.index, cols]
            same = np.allclose(h['stat_value'], o['stat_value'], atol=1e-9) and \
                h[cols].drop(columns='stat_value').apply(text).equals(o.drop(columns='stat_value').apply(text))
            ck.expect(same, f'{tag}/altered',
                      'the surviving rows were altered', monitor=f'{tag}.content')
            ck.expect(set(src.columns) <= set(h.columns), f'{tag}/columns', lambda: f'columns lost: {set(src.columns) - set(h.columns)}',
                      monitor=f'{tag}.content')
        if 0 < len(w) < (len(scope) if scope is not None else len(df)):
            ck.nontrivial(tag, df.astype(str).values.tolist(), sorted(w))
        return a and b and c

    for rng, i in ck.cases('core', 700, 8000):
        valid = 'fcst_valid_beg' if rng.random() < .7 else 'fcst_valid'
        df, dom = table(rng, valid=valid)
        if df.empty:
            continue
        sv = list(rng.choice(['model', 'vx_mask', 'interp_pnts'], int(rng.integers(0, 3)), replace=False))
        fv = [v for v in ('fcst_lev', 'vx_mask') if v not in sv and rng.random() < .4]
        series = {v: grouped(rng, dom[v][:int(rng.integers(1, len(dom[v]) + 1))]) for v in sv}
        if rng.random() < .2:
            series['fcst_lead'] = dom['fcst_lead'][:1]
        if rng.random() < .15:
            series = {k: (v[0] if len(v) == 1 else v) for k, v in series.items()}
        # a column of date-times as the series; groups of date-times contain more than the group separator
        some = TIMES[:2 + i % 2]
        df['obs_valid_beg'] = rng.choice(some, len(df))
        dom['obs_valid_beg'] = some
        if rng.random() < .2:
            series['obs_valid_beg'] = [[TIMES[0]], [TIMES[1]], some, [':'.join(some)]][int(rng.integers(4))]
        # times and leads are part of the event, never something every series must have
        df['fcst_init'] = df['fcst_init_beg']
        if rng.random() < .2:
            v = str(rng.choice(['fcst_init_beg', 'fcst_init', valid]))
            series[v] = [str(df[v].iloc[0])]
        fixed = {v: [str(x) for x in rng.choice(dom[v], int(rng.integers(1, len(dom[v]) + 1)), replace=False)] for v in fv}
        if rng.random() < .2:
            v = str(rng.choice(['fcst_init_beg', 'fcst_lead', valid]))
            fixed[v] = [str(df[v].iloc[0])]
            fv = list(fixed)
        indy = str(rng.choice(['fcst_lead', 'fcst_lev', 'vx_mask', 'interp_pnts', 'fcst_valid_beg', 'fcst_init', 'fcst_init_beg', '']))
        if indy == 'fcst_valid_beg' and valid != indy:
            indy = 'fcst_lead'
        by = bool(rng.random() < .6)
        ck.case_input = {'series': series, 'fixed': fixed, 'indy': indy, 'by_indep': by, 'data': df}
        perm = [fixed[v][0] if len(fixed[v]) == 1 and rng.random() < .5 else fixed[v] for v in fv]
        fvarg = fv[0] if len(fv) == 1 and rng.random() < .3 else fv
        # rows that come with their own event names keep them
        named = rng.random() < .15
        if named:
            df['equalize'] = rng.choice([f'event {k}' for k in range(6)], len(df))
        got = ck.call(event_equalize, df.copy(), indy, series, fvarg, perm, by, bool(rng.random() < .5))
        needs = {v: (some if len(''.join(x)) > 30 else list(x)) if v == 'obs_valid_beg' else
                 ungroup([x] if isinstance(x, str) else x) for v, x in series.items() if v not in EXC}
        needs.update({v: x for v, x in fixed.items() if v not in EXC})
        ev = df['equalize'] if named else events(df, valid, None)
        if by and indy not in EXC:
            ev = ev + '|' + df[indy].astype(str)
        if named:
            df = df.drop(columns='equalize')
        keep = common(df, ev, needs)
        want = df['row'][ev.isin(keep)]
        if verdict('core', got, df, want) and len(got):
            if not named:
                again = ck.call(event_equalize, got.drop(columns=['equalize'], errors='ignore'), indy, series, fvarg, perm, by, False)
            ck.expect(named or not isinstance(again, Raised) and list(again['row']) == list(got['row']), 'core/idempotent',
                      'equalizing the equalized rows removes more', monitor='core.idempotent')
            ck.expect(list(got['row']) == sorted(got['row']), 'core/order', 'the row order changed', monitor='core.content')
        ck.sample({'series': series, 'fixed': fixed, 'indy': indy, 'rows': len(df), 'kept': len(set(want))})

    for rng, i in ck.cases('against', 150, 3000):
        df, dom = table(rng, valid='fcst_valid')
        if df.empty:
            continue
        ev = df['fcst_valid'].astype(str) + ' ' + df['fcst_lead'].astype(str)
        pool = sorted(set(ev))
        cases = [c for c in pool if rng.random() < .6] + (['2031-01-01 00:00:00 0'] if rng.random() < .5 else [])
        arg = cases if rng.random() < .5 else np.array(cases, dtype=object)
        ck.case_input = {'cases': cases, 'data': df}
        got = ck.call(event_equalize_against_values, df.copy(), arg)
        want = df['row'][ev.isin(cases)]
        if isinstance(got, pd.DataFrame) and got.empty:
            ck.expect(len(want) == 0, 'against/lost', f'{len(want)} rows lost', monitor='against')
            continue
        verdict('against', got, df, want)
        if not isinstance(got, Raised):
            ck.expect(list(got.columns) == list(df.columns), 'against/columns', f'columns {list(got.columns)}', monitor='against')
        nov = ck.call(event_equalize_against_values, df.drop(columns='fcst_valid'), arg)
        ck.expect(isinstance(nov, pd.DataFrame) and nov.empty, 'against/novalid', f'{nov!r}'[:200], monitor='against')

    for rng, i in ck.cases('axis', 400, 4000):
        two = rng.random() < .45
        # names may be the start of other names
        first, second = [('ME', 'RMSE'), ('ME', 'ME2'), ('MSESS', 'MSE')][int(rng.integers(3))]
        stats = [first, second][:int(rng.integers(1, 3))]
        df, dom = table(rng, stats=[first, second], density=float(rng.choice([.7, .9, .97])))
        if df.empty:
            continue
        # other statistics and variables in the same file must not matter
        extra = df.sample(frac=.2, random_state=1).assign(fcst_var='HGT')
        full = pd.concat([df, extra], ignore_index=True)
        full['row'] = np.arange(len(full))
        sv = list(rng.choice(['model', 'vx_mask', 'interp_pnts'], int(rng.integers(1, 3)), replace=False))
        if 'vx_mask' in sv and 'NA' in dom['vx_mask']:
            sv.remove('vx_mask')
            sv = sv or ['model']
        s1 = {v: grouped(rng, dom[v][:int(rng.integers(1, len(dom[v]) + 1))]) for v in sv}
        s2 = {}
        if two:
            s2 = {v: (x if k else dom[v][-int(rng.integers(1, len(dom[v]) + 1)):]) for k, (v, x) in enumerate(s1.items())}
            # a variable can be on one axis only
            if len(sv) > 1 and rng.random() < .4:
                del (s1 if rng.random() < .5 else s2)[sv[1]]
        fv = [v for v in ('fcst_lev',) if rng.random() < .5]
        fixed = {v: [str(x) for x in rng.choice(dom[v], int(rng.integers(1, len(dom[v]) + 1)), replace=False)] for v in fv}
        indy = str(rng.choice(['fcst_lead', 'fcst_valid_beg'] + [v for v in ('vx_mask', 'interp_pnts') if v not in sv]))
        form = {v: ({f'{v}_0': x} if rng.random() < .7 else x) if rng.random() < .7 else {f'{v}_{k}': [y] for k, y in enumerate(x)} for v, x in fixed.items()}
        params = {'indy_var': indy, 'fixed_vars_vals_input': form, 'line_type': 'sl1l2' if rng.random() < .8 else 'ssvar',
                  'fcst_var_val_1': {'TMP': stats if not two else [first]}, 'fcst_var_val_2': {'TMP': [second]} if two else {},
                  'series_val_1': s1, 'series_val_2': s2}
        ck.case_input = {'params': params, 'data': full}
        got = ck.call(perform_event_equalization, params, full.copy())
        needs = {v: sorted(set(ungroup(s1.get(v, []) + s2.get(v, [])))) for v in {**s1, **s2}}
        needs.update(fixed)
        dd = full[full['fcst_var'] == 'TMP']
        ev = events(dd, 'fcst_valid_beg', indy if indy not in EXC else None)
        keep = common(dd, ev, needs)
        inn = np.zeros(len(dd), bool)
        for s, st in ((s1, stats if not two else [first]), (s2, [second])):
            if not s:
                continue
            m = dd['stat_name'].isin(st).to_numpy()
            for v, x in s.items():
                m = m & text(dd[v]).isin(ungroup(x)).to_numpy()
            for v, x in fixed.items():
                m = m & text(dd[v]).isin(x).to_numpy()
            inn |= m
        scope = set(dd['row'][inn])
        want = set(dd['row'][inn & ev.isin(keep).to_numpy()])
        verdict('axis', got, full, want, scope)
        if isinstance(got, pd.DataFrame) and 'row' in got.columns:
            ck.expect('equalize' not in got.columns, 'axis/column', 'the helper column is left in the result', monitor='axis')
            ck.expect(not (set(got['fcst_var']) - {'TMP'}), 'axis/foreign', 'rows of another variable', monitor='axis')

    scratch = tempfile.mkdtemp(prefix='verif_c11_')
    try:
        inp, cas, out = (os.path.join(scratch, f) for f in ('in.data', 'cases.data', 'out.data'))
        for rng, i in ck.cases('files', 250, 2500):
            two = rng.random() < .4
            df, dom = table(rng, density=float(rng.choice([.7, .9, .97])))
            if df.empty or 'NA' in dom['vx_mask']:
                continue
            sv = list(rng.choice(['model', 'vx_mask', 'interp_pnts'], int(rng.integers(1, 3)), replace=False))
            s1 = {v: grouped(rng, dom[v][:int(rng.integers(1, len(dom[v]) + 1))]) for v in sv}
            s2 = {}
            if two and len(dom[sv[0]]) > 1:
                # disjoint second axis in the first variable
                k = int(rng.integers(1, len(dom[sv[0]])))
                s1[sv[0]] = grouped(rng, dom[sv[0]][:k])
                s2 = dict(s1)
                # a series may be on both axes
                s2[sv[0]] = dom[sv[0]][k if rng.random() < .6 else int(rng.integers(0, k + 1)):]
                # a variable can be on one axis only
                if len(sv) > 1 and rng.random() < .5:
                    del (s1 if rng.random() < .5 else s2)[sv[1]]
            fv = [v for v in ('fcst_lev', 'interp_pnts') if v not in sv and rng.random() < .5]
            fixed = {v: [str(x) for x in rng.choice(dom[v], int(rng.integers(1, len(dom[v]) + 1)), replace=False)] for v in fv}
            if i % 4 == 0:
                df = pd.concat([df, df.sample(frac=.3, random_state=2)], ignore_index=True)
            df.to_csv(inp, sep='\t', index=False, na_rep='NA')
            raw = open(inp, 'rb').read()
            params = {'agg_stat_input': inp, 'agg_stat_output': out, 'indy_var': 'fcst_lead', 'series_val_1': s1, 'series_val_2': s2,
                      'fixed_vars_vals_input': {v: {f'{v}_0': x} if rng.random() < .6 else {f'{v}_{k}': [y] for k, y in enumerate(x)} for v, x in fixed.items()}}
            ck.case_input = {'params': params, 'data': df}
            r = ck.call(lambda: AggStatEventEqualize(params).calculate_values())
            ev = events(df, 'fcst_valid_beg', None)
            needs = {v: sorted(set(ungroup(s1.get(v, []) + s2.get(v, [])))) for v in {**s1, **s2}}
            needs.update(fixed)
            keep = common(df, ev, needs)
            inn = np.zeros(len(df), bool)
            for s in (s1, s2):
                if s:
                    m = np.ones(len(df), bool)
                    for v, x in s.items():
                        m &= text(df[v]).isin(ungroup(x)).to_numpy()
                    inn |= m
            want = set(df['row'][inn & ev.isin(keep).to_numpy()])
            got = r if isinstance(r, Raised) else pd.read_csv(out, sep='\t')
            verdict('files', got, df, want)
            ck.expect(open(inp, 'rb').read() == raw, 'files/input', 'the input file was modified', monitor='files')

        for rng, i in ck.cases('cases', 250, 2500):
            df, dom = table(rng, valid='fcst_valid', vars_=['TMP', 'HGT'][:int(rng.integers(1, 3))])
            if df.empty or 'NA' in dom['vx_mask']:
                continue
            prev = df[rng.random(len(df)) < .5].copy()
            if prev.empty:
                continue
            prev['equalize'] = prev['fcst_valid'].astype(str) + ' ' + prev['fcst_lead'].astype(str)
            sv = list(rng.choice(['model', 'vx_mask', 'interp_pnts'], int(rng.integers(1, 3)), replace=False))
            s1 = {v: grouped(rng, dom[v][:int(rng.integers(1, len(dom[v]) + 1))]) for v in sv}
            s2 = {}
            if rng.random() < .3 and len(dom[sv[0]]) > 1:
                k = int(rng.integers(1, len(dom[sv[0]])))
                s1[sv[0]] = grouped(rng, dom[sv[0]][:k])
                s2 = dict(s1)
                # a series may be on both axes
                s2[sv[0]] = dom[sv[0]][k if rng.random() < .6 else int(rng.integers(0, k + 1)):]
            if i % 4 == 0:
                df = pd.concat([df, df.sample(frac=.3, random_state=2)], ignore_index=True)
            fvars = {v: ['ME'] for v in sorted(set(df['fcst_var']))}
            df.to_csv(inp, sep='\t', index=False, na_rep='NA')
            prev.to_csv(cas, sep='\t', index=False, na_rep='NA')
            ee = str(rng.choice(['True', 'True', 'False']))
            params = {'agg_stat_input': inp, 'agg_stat_input_ee': cas, 'agg_stat_output': out, 'event_equal': ee,
                      'series_val_1': s1, 'series_val_2': s2, 'fcst_var_val_1': fvars, 'fcst_var_val_2': fvars}
            ck.case_input = {'params': params, 'data': df, 'prev': prev}
            r = ck.call(lambda: AggStatEventEqz(params).calculate_values())
            if isinstance(r, Raised):
                ck.expect(False, 'cases/raised', f'{r}', monitor='cases')
                continue
            try:
                got = pd.read_csv(out, sep='\t')
            except pd.errors.EmptyDataError:
                got = pd.DataFrame(columns=df.columns)
            if ee == 'False':
                verdict('cases', got, df, set(df['row']))
                continue
            want = set()
            for fvn, s in itertools.product(fvars, [s1, s2] if s2 else [s1]):
                a, b = df[df['fcst_var'] == fvn], prev[prev['fcst_var'] == fvn]
                for v, x in s.items():
                    a, b = a[text(a[v]).isin(ungroup(x))], b[text(b[v]).isin(ungroup(x))]
                e = a['fcst_valid'].astype(str) + ' ' + a['fcst_lead'].astype(str)
                want |= set(a['row'][e.isin(set(b['equalize']))])
            verdict('cases', got, df, want)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.finish(1000)


if __name__ == '__main__':
    main_guard(main)
