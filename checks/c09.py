"""C09: economic value curves follow the cost/loss decision model on the pooled table."""
import os
import shutil
import tempfile
from fractions import Fraction as Fr

import numpy as np
import pandas as pd

import gen
from refs import percentiles_ok, resamples
from vlib import Check, close, is_missing, main_guard, Raised


def curve(a, b, c, d, cls):
    """a hits, b false alarms, c misses, d correct negatives; value relative to climatology (clim expense minus
    forecast expense over clim expense minus perfect expense), each expense per unit loss"""
    n = a + b + c + d
    if a + c == 0 or b + d == 0:
        return None
    s = Fr(a + c, n)
    res = []
    for x in cls:
        al = Fr(float(x))
        clim = min(al, s)
        perfect = s * al
        fc = Fr(a + b, n) * al + Fr(c, n)
        res.append(float((clim - fc) / (clim - perfect)))
    return {'V': res, 's': float(s), 'H': float(Fr(a, a + c)), 'F': float(Fr(b, b + d)),
            'vmax': float(Fr(a, a + c) - Fr(b, b + d)), 'n': n}


def judge(ck, got, counts, cls, base, tag):
    a, b, c, d = [int(x) for x in counts]
    n = a + b + c + d
    pts = sorted([float(x) for x in cls] + ([(a + c) / n] if base and n else []))
    want = curve(a, b, c, d, pts) if n else None
    if isinstance(got, Raised):
        ck.expect(False, f'{tag}/raised', f'{got} on {counts}', monitor=tag)
        return
    if want is None:
        ck.expect(got is None, f'{tag}/undefined', lambda: f'a curve {got} from a table without events or non-events {counts}',
                  monitor=tag)
        return
    if not ck.expect(isinstance(got, dict), f'{tag}/missing', lambda: f'{got!r} for a valid table {counts}', monitor=tag):
        return
    cl = np.asarray(got['cl'], float)
    ck.expect(len(cl) == len(pts) and np.allclose(cl, pts, rtol=0, atol=1e-12), f'{tag}/cl',
              lambda: f'cost/loss ratios {cl[:6]} instead of {pts[:6]} (base rate {base})', monitor=tag)
    for name in ('s', 'H', 'F', 'vmax', 'n'):
        ck.expect(close(got[name], want[name]), f'{tag}/{name}', lambda: f'{name}={got[name]} instead of {want[name]} for {counts}',
                  monitor=tag)
    v = np.asarray(got['V'], float)
    if len(v) == len(pts):
        w = np.array(want['V'])
        bad = np.where(np.abs(v - w) > 1e-7 + 1e-8 * np.abs(w))[0]
        ck.expect(len(bad) == 0, f'{tag}/V', lambda: f'V at cost/loss {pts[bad[0]]:.4f} is {v[bad[0]]}, the decision model '
                  f'gives {w[bad[0]]}, counts {counts}', monitor=tag)
        ck.expect(np.all(v <= got['vmax'] + 1e-6), f'{tag}/max', lambda: f'value {v.max()} above the maximum {got["vmax"]}',
                  monitor=tag)
    else:
        ck.expect(False, f'{tag}/V', f'{len(v)} values for {len(pts)} ratios', monitor=tag)


def ratios(rng):
    k = rng.integers(0, 3)
    if k == 0:
        st = float(rng.choice([.05, .1, .02, .25]))
        return np.arange(st, .999, st)
    m = int(rng.integers(1, 12))
    x = rng.uniform(.01, .99, m)
    if k == 1:
        x.sort()
    return x if rng.random() < .7 else list(x)


def main():
    from metcalcpy.util import ctc_statistics as ctc, eclv_statistics as ec
    from metcalcpy.agg_eclv import AggEclv
    ck = Check('C09', '2x2 and probability tables of 1-40 rows with zero patterns and any cost/loss ratios; the oracle prices '
                      'the forecast, climatology and perfect decisions in exact arithmetic; driver runs compare the written '
                      'curve of every series and check that a larger alpha nests the interval; non-trivial = table with both '
                      'events and non-events; identity = counts and ratios')

    for rng, i in ck.cases('value', 1500, 30000):
        c = gen.ctc_rows(rng, 1)[0]
        vals = np.array([c[0], c[1], c[2], c[3]])
        if rng.random() < .3:
            vals = vals.astype(float)
        cls = ratios(rng)
        keep = np.array(cls, float).copy()
        base = bool(rng.random() < .4)
        ck.case_input = {'counts': vals, 'ratios': cls, 'base': base}
        got = ck.call(ctc.calculate_economic_value, vals, cls, base)
        judge(ck, got, c, cls, base, 'value')
        ck.expect(np.array_equal(np.array(cls, float), keep), 'value/mutated', 'the list of ratios was modified', monitor='purity')
        if (c[0] + c[2]) * (c[1] + c[3]):
            ck.nontrivial('value', tuple(c), tuple(np.round(keep, 6)), base)

    for rng, i in ck.cases('ctc', 500, 10000):
        rows = gen.ctc_rows(rng)
        data, names, mode = gen.as_table(rng, ['fy_oy', 'fy_on', 'fn_oy', 'fn_on', 'total'],
                                         [rows[:, 0], rows[:, 1], rows[:, 2], rows[:, 3], rows.sum(1)])
        cls = ratios(rng)
        base = int(rng.random() < .4)
        ck.case_input = {'rows': rows, 'ratios': cls, 'base': base}
        got = ck.call(ec.calculate_eclv, data, names, None if rng.random() < .5 else 0, 'ctc', cls, base)
        judge(ck, got, rows.sum(0), cls, base, 'ctc')
        if len(rows) > 1:
            ck.nontrivial('ctc', rows.tolist())
        ck.sample({'rows': rows[:5], 'ratios': len(cls)})

    for rng, i in ck.cases('pct', 500, 10000):
        k = int(rng.integers(1, 11))
        th = np.round(np.sort(rng.uniform(0, 1, k)), 3) if rng.random() < .6 else np.round(np.linspace(0, .9, k), 2)
        reps = int(rng.choice([1, 1, 2, 5]))
        t = np.tile(th, reps)
        big = int(rng.choice([2, 10, 500]))
        oy, on = rng.integers(0, big + 1, len(t)), rng.integers(0, big + 1, len(t))
        if rng.random() < .1:
            oy[:] = 0
        p = rng.permutation(len(t))
        t, oy, on = t[p], oy[p], on[p]
        gone = {k: rng.random(len(t)) < (.25 if i % 4 == 0 and k == int(rng.integers(2)) else 0) for k in (0, 1)}
        oy[gone[0]], on[gone[1]] = 0, 0               # a count that is missing adds nothing
        order = rng.permutation(3)
        names = np.array(['thresh_i', 'oy_i', 'on_i'])[order]
        data = np.column_stack([t, np.where(gone[0], np.nan, oy), np.where(gone[1], np.nan, on)])[:, order]
        if rng.random() < .3:
            data = data.astype(object)
        cut = float(rng.choice(th)) if rng.random() < .8 else float(rng.uniform(0, 1))
        cls = ratios(rng)
        base = int(rng.random() < .3)
        ck.case_input = {'t': t, 'oy': oy, 'on': on, 'cut': cut, 'ratios': cls}
        got = ck.call(ec.calculate_eclv, data, names, cut, 'pct', cls, base)
        yes = t > cut
        judge(ck, got, (oy[yes].sum(), on[yes].sum(), oy[~yes].sum(), on[~yes].sum()), cls, base, 'pct')
        ck.nontrivial('pct', t.tolist(), oy.tolist(), cut)

    for rng, i in ck.cases('badtype', 20, 100):
        got = ck.call(ec.calculate_eclv, np.ones((2, 4)), np.array(['fy_oy', 'fy_on', 'fn_oy', 'fn_on']), 0,
                      str(rng.choice(['sl1l2', 'mctc', 'CTC', ''])), [.5], 0)
        ck.expect(got is None, 'badtype', lambda: f'{got!r} for an unsupported line type', monitor='badtype')
        got = ck.call(ec.calculate_eclv, np.ones((2, 3)), np.array(['thresh_i', 'oy_i', 'on_i']), None, 'pct', [.5], 0)
        ck.expect(got is None, 'badtype', lambda: f'{got!r} for a missing threshold', monitor='badtype')

    scratch = tempfile.mkdtemp(prefix='verif_c09_')
    try:
        for rng, i in ck.cases('driver', 60, 700):
            driver(ck, rng, AggEclv, scratch)
        for rng, i in ck.cases('percentiles', 24, 200):
            percentiles(ck, rng, AggEclv, scratch)
        for rng, i in ck.cases('equalized', 40, 400):
            equalized(ck, rng, AggEclv, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.finish(1000)


def driver(ck, rng, AggEclv, scratch):
    lt = 'ctc' if rng.random() < .6 else 'pct'
    models = [f'M{j}' for j in range(int(rng.integers(1, 4)))]
    levs = [str(x) for x in rng.choice(['Z2', 'P500', 'P850-700', '3', '2.5', '2.25'], int(rng.integers(1, 3)), replace=False)]
    if {'3', '2.5', '2.25'} & set(levs) and rng.random() < .5:      # a column of numbers, or numbers beside names
        levs = [x for x in levs if x in ('3', '2.5', '2.25')]
    mask = bool(rng.random() < .3)                     # a third series variable; other masks are in the file too
    recs = []
    th = np.round(np.linspace(0, .9, int(rng.choice([2, 3, 4, 5, 8, 10]))), 2)
    truth = {}
    for m in models:
        for lv in levs:
            if rng.random() < .08:
                truth[m, lv] = None
                continue
            n = int(rng.choice([1, 3, 9, 20]))
            if lt == 'ctc':
                rows = gen.ctc_rows(rng, n)
                if rng.random() < .8:
                    rows = rows + 1
                for r in rows:
                    recs.append({'model': m, 'fcst_lev': lv, 'total': r.sum(), 'fy_oy': r[0], 'fy_on': r[1], 'fn_oy': r[2],
                                 'fn_on': r[3]})
                truth[m, lv] = rows
            else:
                own = th if rng.random() < .7 else th[:-1] if rng.random() < .5 else np.round(th + .05, 2)      # series with other bins
                rows = [(float(t), int(rng.integers(0, 40)), int(rng.integers(0, 40))) for _ in range(n) for t in own]
                for t, y, o in rows:
                    recs.append({'model': m, 'fcst_lev': lv, 'thresh_i': t, 'oy_i': y, 'on_i': o})
                truth[m, lv] = rows
    if not recs:
        return
    if mask:
        recs = [dict(r, vx_mask=k) for r in recs for k in (['EAST', 'WEST'] if rng.random() < .5 else ['EAST'])]
    df = pd.DataFrame(recs).sample(frac=1, random_state=int(rng.integers(1 << 30)))
    inp, out = os.path.join(scratch, 'in.data'), os.path.join(scratch, 'out.data')
    df.to_csv(inp, sep='\t', index=False)
    before = open(inp, 'rb').read()
    step = float(rng.choice([.05, .1, .25, .125]))
    iters = int(rng.choice([1, 1, 1, 7, 30, 30]))
    params = {'random_seed': int(rng.integers(1, 1000)), 'indy_var': '', 'method': str(rng.choice(['perc', 'perc', 'pivotal'])),
              'num_iterations': iters, 'event_equal': 'False', 'agg_stat_input': inp, 'agg_stat_output': out,
              'fixed_vars_vals_input': {}, 'series_val_1': {'model': models, 'fcst_lev': levs, **({'vx_mask': ['EAST']} if mask else {})}, 'alpha': .05,
              'line_type': lt, 'num_threads': 1, 'indy_vals': [], 'agg_stat1': ['ECLV'],
              'circular_block_bootstrap': bool(rng.random() < .5), 'equalize_by_indep': 'True', 'cl_step': step}
    ck.case_input = {'params': params, 'data': df}

    def run(**kw):
        if os.path.exists(out):
            os.remove(out)
        p = dict(params)
        p.update(kw)
        r = ck.call(lambda: AggEclv(p).calculate_stats_and_ci())
        return r if isinstance(r, Raised) else pd.read_csv(out, sep='\t', dtype={'fcst_lev': str})

    got = run()
    degenerate = iters > 1 and any(v is None or (lt == 'ctc' and not unshakeable(v)) for v in truth.values()) or \
        (iters > 1 and lt == 'pct' and any(len(v) < 60 for v in truth.values() if v is not None))
    if isinstance(got, Raised):
        if degenerate:
            ck.skip('driver: resamples of a tiny table may all be undefined')
        else:
            ck.expect(False, 'driver/raised', f'{got}', monitor='driver')
        return
    ck.expect(open(inp, 'rb').read() == before, 'driver/input', 'the input file was modified', monitor='driver')
    steps = np.arange(step, 1, step)
    total = 0
    for (m, lv), rows in truth.items():
        sub = got[(got['model'] == m) & (got['fcst_lev'] == lv)]
        if rows is None:
            ck.expect(sub['y_pnt_i'].isna().all(), 'driver/empty', lambda: f'values {sub} for a series without data', monitor='driver')
            total += len(sub)
            continue
        parts = [(0, np.asarray(rows).sum(0))] if lt == 'ctc' else []
        if lt == 'pct':
            a = np.array(rows)
            for t in sorted(set(a[:, 0])):
                y = a[:, 0] > t
                parts.append((t, (a[y, 1].sum(), a[y, 2].sum(), a[~y, 1].sum(), a[~y, 2].sum())))
        total += len(parts) * len(steps)
        for t, counts in parts:
            s2 = sub[np.isclose(sub['thresh_i'].astype(float), t)]
            if not ck.expect(len(s2) == len(steps), 'driver/points', lambda: f'{len(s2)} points for {m} {lv} threshold {t}, '
                             f'expected {len(steps)}', monitor='driver'):
                continue
            want = curve(*[int(x) for x in counts], steps)
            ck.expect(np.allclose(s2['x_pnt_i'].astype(float), steps, atol=6e-8), 'driver/x', lambda: f'ratios {list(s2["x_pnt_i"])}',
                      monitor='driver')
            y = s2['y_pnt_i'].astype(float).to_numpy()
            if want is None:
                ck.expect(np.isnan(y).all(), 'driver/undefined', lambda: f'values {y} for counts {counts}', monitor='driver')
            else:
                w = np.array(want['V'])
                ck.expect(np.all(np.abs(y - w) <= 2e-7 + 1e-8 * np.abs(w)), 'driver/y',
                          lambda: f'{m} {lv} threshold {t}: curve {y[:5]} instead of {w[:5]} for counts {counts}', monitor='driver')
                ck.nontrivial('driver', lt, m, lv, t, tuple(int(x) for x in counts))
            ck.expect((s2['nstats'] == len(rows)).all(), 'driver/nstats', lambda: f'nstats {set(s2["nstats"])} for {len(rows)} rows',
                      monitor='driver')
            if iters == 1:
                ck.expect(s2['stat_btcl'].isna().all() and s2['stat_btcu'].isna().all(), 'driver/noci',
                          'intervals without a bootstrap', monitor='driver')
    ck.expect(len(got) == total, 'driver/rows', lambda: f'{len(got)} rows, expected {total}', monitor='driver')
    if iters > 1 and not degenerate:
        again = run()
        ck.expect(not isinstance(again, Raised) and again.equals(got), 'driver/seed', 'the same seed gave other intervals',
                  monitor='interval')
        wide, narrow = run(alpha=.02), run(alpha=.4)
        if isinstance(wide, Raised) or isinstance(narrow, Raised):
            ck.expect(False, 'driver/raised', f'{wide} {narrow}', monitor='interval')
            return
        lo, hi = [x['stat_btcl'].astype(float).to_numpy() for x in (wide, got, narrow)], \
                 [x['stat_btcu'].astype(float).to_numpy() for x in (wide, got, narrow)]
        tol = 2e-7
        ok = all(np.all(~((lo[j] > lo[j + 1] + tol) | (hi[j] < hi[j + 1] - tol))) for j in (0, 1))
        ck.expect(ok, 'driver/nested', 'a larger alpha does not give an interval inside that of a smaller alpha', monitor='interval')
        have = hi[0] - lo[0] > 1e-5                   # not only rounding
        varied = any(len(v) >= 9 and len(set(map(tuple, np.asarray(v).tolist()))) > 5 for v in truth.values() if v is not None)
        if varied:
            ck.expect(np.isfinite(lo[1]).any() and np.isfinite(hi[1]).any(), 'driver/nointerval', f'no interval from {iters} resamples', monitor='interval')
        if have.sum() >= 5 and varied and iters >= 30:
            ck.expect(np.any(lo[0][have] + hi[2][have] != lo[2][have] + hi[0][have]) and
                      np.any((hi[0] - lo[0])[have] > (hi[2] - lo[2])[have] + tol), 'driver/alpha',
                      'alpha 0.02 and alpha 0.4 give the same intervals', monitor='interval')
        ck.expect(np.all(~(lo[1] > hi[1] + tol)), 'driver/order', 'lower bound above upper bound', monitor='interval')


def percentiles(ck, rng, AggEclv, scratch):
    """many resamples of few rows: the bounds at each ratio are the percentiles over all possible resamples"""
    lt = str(rng.choice(['ctc', 'pct']))
    n, B, alpha, step = int(rng.integers(3, 7)), 800, float(rng.choice([.1, .2, .5])), float(rng.choice([.1, .2, .3]))
    if lt == 'ctc':
        rows = rng.integers(1, 60, (n, 4))
        df = pd.DataFrame(rows, columns=['fy_oy', 'fy_on', 'fn_oy', 'fn_on'])
        df['total'] = rows.sum(1)
        cut = 0
    else:
        df = pd.DataFrame({'thresh_i': rng.choice([0., .25, .5], n), 'oy_i': rng.integers(1, 40, n), 'on_i': rng.integers(1, 40, n)})
    df.insert(0, 'model', 'MA')
    inp, out = os.path.join(scratch, 'in.data'), os.path.join(scratch, 'out.data')
    df.to_csv(inp, sep='\t', index=False)
    p = {'random_seed': int(rng.integers(1, 1000)), 'indy_var': '', 'method': str(rng.choice(['perc', 'pivotal'])), 'num_iterations': B, 'event_equal': 'False',
         'agg_stat_input': inp, 'agg_stat_output': out, 'fixed_vars_vals_input': {}, 'series_val_1': {'model': ['MA']}, 'alpha': alpha, 'line_type': lt,
         'num_threads': 1, 'indy_vals': [], 'agg_stat1': ['ECLV'], 'equalize_by_indep': 'True', 'cl_step': step}
    z = int(rng.integers(4))                          # block resampling unless switched off
    if z:
        p['circular_block_bootstrap'] = [True, 'True', 'False'][z - 1]
    if rng.random() < .15:
        del p['alpha']                                # 0.05 unless stated
        alpha = .05
    ck.case_input = {'params': p, 'data': df}
    r = ck.call(lambda: AggEclv(p).calculate_stats_and_ci())
    if isinstance(r, Raised):
        ck.expect(False, 'percentiles/raised', f'{r}', monitor='percentiles')
        return
    got = pd.read_csv(out, sep='\t')
    dist = resamples(n, int(np.sqrt(n)) if z < 3 else 1)
    prob = [q for _, q in dist]
    steps = np.arange(step, 1, step)
    for cut in ([0] if lt == 'ctc' else sorted(set(df['thresh_i']))):
        sub = got[np.isclose(got['thresh_i'], cut)]
        if not ck.expect(len(sub) == len(steps), 'percentiles/points', lambda: f'{len(sub)} points for {len(steps)} ratios', monitor='percentiles'):
            continue
        if lt == 'ctc':
            tables = rows
        else:
            yes = (df['thresh_i'] > cut).to_numpy()
            oy, on = df['oy_i'].to_numpy(), df['on_i'].to_numpy()
            tables = np.column_stack([oy * yes, on * yes, oy * ~yes, on * ~yes])
        curves = np.array([curve(*[int(x) for x in np.asarray(cnt) @ tables], steps)['V'] for cnt, _ in dist])
        full = np.array(curve(*[int(x) for x in tables.sum(0)], steps)['V'])
        for k in range(len(steps)):
            lo, hi = sub['stat_btcl'].iloc[k], sub['stat_btcu'].iloc[k]
            if np.ptp(curves[:, k]) < 1e-6:
                continue
            if np.isnan(lo) and np.isnan(hi):
                common = max(sum(q for v, q in zip(curves[:, k], prob) if abs(v - u) < 1e-9) for u in set(curves[:, k]))
                if common ** B > 1e-9:
                    ck.skip('percentiles: the resamples drawn may all be equal')
                    continue
            if p['method'] == 'pivotal':
                lo, hi = 2 * full[k] - hi, 2 * full[k] - lo
            ck.expect(percentiles_ok(curves[:, k], prob, lo, hi, alpha, B, 1e-6 * (1 + abs(curves[:, k]).max())), f'percentiles/{p["method"]}',
                      lambda: f'{lt} rows {n}, ratio {steps[k]:.2f}, alpha {alpha}: [{sub["stat_btcl"].iloc[k]}, {sub["stat_btcu"].iloc[k]}], resamples from '
                      f'{curves[:, k].min()} to {curves[:, k].max()}', monitor='percentiles')
        ck.nontrivial('percentiles', lt, tables.tolist(), alpha, z)


def equalized(ck, rng, AggEclv, scratch):
    """with event equalization only the events every series has are used"""
    models = ['MA', 'MB', 'MC'][:int(rng.integers(2, 4))]
    masks = ['EAST', 'WEST']
    leads, days = [3, 6][:int(rng.integers(1, 3))], range(int(rng.integers(2, 6)))
    fixed = bool(rng.random() < .5)
    p_keep = float(rng.choice([.6, .8, .95, 1.]))
    recs = []
    for m in models:
        for k in masks if fixed else masks[:1]:
            for le in leads:
                for day in days:
                    if rng.random() < p_keep:
                        r = rng.integers(1, 60, 4)
                        recs.append({'model': m, 'vx_mask': k, 'fcst_lead': le, 'fcst_valid_beg': f'2020-01-{day + 1:02d} 00:00:00', 'fcst_var': 'TMP',
                                     'stat_name': 'ECLV', 'total': r.sum(), 'fy_oy': r[0], 'fy_on': r[1], 'fn_oy': r[2], 'fn_on': r[3]})
    if len({x['model'] for x in recs}) < len(models):
        return
    df = pd.DataFrame(recs).sample(frac=1, random_state=int(rng.integers(1 << 30)))
    inp, out = os.path.join(scratch, 'in.data'), os.path.join(scratch, 'out.data')
    df.to_csv(inp, sep='\t', index=False)
    p = {'random_seed': rng.choice(np.array([1, None, 'None'], object)), 'indy_var': '', 'method': 'perc', 'num_iterations': 1, 'event_equal': [True, 'True'][int(rng.integers(2))],
         'agg_stat_input': inp, 'agg_stat_output': out, 'fixed_vars_vals_input': {'vx_mask': {'vx_mask_0': masks}} if fixed else {}, 'series_val_1': {'model': models},
         'alpha': .05, 'line_type': 'ctc', 'num_threads': 1, 'indy_vals': [], 'agg_stat1': ['ECLV'], 'equalize_by_indep': str(bool(rng.random() < .5)), 'cl_step': .25}
    ck.case_input = {'params': p, 'data': df}
    ev = {}
    for x in recs:
        ev.setdefault((x['model'], x['vx_mask']), set()).add((x['fcst_valid_beg'], x['fcst_lead']))
    common = set.intersection(*[ev.get((m, k), set()) for m in models for k in (masks if fixed else masks[:1])])
    r = ck.call(lambda: AggEclv(p).calculate_stats_and_ci())
    if isinstance(r, Raised):
        ck.expect(False, 'equalized/raised', f'{r}', monitor='equalized')
        return
    text = open(out).read()
    if not common:
        ck.expect(not any(c.strip().isdigit() for c in text), 'equalized/none', lambda: f'values without a common event: {text[:200]}', monitor='equalized')
        return
    got = pd.read_csv(out, sep='\t')
    steps = np.arange(.25, 1, .25)
    for m in models:
        t = np.array([[x['fy_oy'], x['fy_on'], x['fn_oy'], x['fn_on']] for x in recs if x['model'] == m and (x['fcst_valid_beg'], x['fcst_lead']) in common])
        sub = got[got['model'] == m]
        w = curve(*[int(x) for x in t.sum(0)], steps)['V']
        ck.expect(len(sub) == len(steps) and np.allclose(sub['y_pnt_i'], w, rtol=1e-7, atol=2e-7) and (sub['nstats'] == len(t)).all(), 'equalized',
                  lambda: f'{m}: {list(sub["y_pnt_i"])} from {set(sub["nstats"])} rows instead of {w} from {len(t)}', monitor='equalized')
    if len(common) < len({(x['fcst_valid_beg'], x['fcst_lead']) for x in recs}):
        ck.nontrivial('equalized', df['fy_oy'].tolist())


def unshakeable(rows):
    """every row alone has events and non-events, so every resample is defined"""
    r = np.asarray(rows)
    return bool(((r[:, 0] + r[:, 2]) > 0).all() and ((r[:, 1] + r[:, 3]) > 0).all()) and len(r) >= 3


if __name__ == '__main__':
    main_guard(main)
