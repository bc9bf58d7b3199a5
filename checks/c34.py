"""C34: the batch programs started from the command line, their files, and runs one after the other."""
import contextlib
import copy
import io
import itertools
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd
import yaml

import families
from vlib import REPO, Check, Raised, main_guard

VALID0 = pd.Timestamp('2020-01-01')


def key_of(m, k, le, day):
    valid = VALID0 + pd.Timedelta(days=day)
    return {'model': m, 'vx_mask': k, 'fcst_lead': le, 'fcst_valid_beg': str(valid), 'fcst_init_beg': str(valid - pd.Timedelta(hours=le)),
            'fcst_var': 'TMP', 'fcst_lev': 'Z2'}


def line_rows(rng, names, lt):
    fam = {'sl1l2': families.Sl1l2, 'ctc': families.Ctc, 'ecnt': families.Ecnt}[lt]()
    fam.start(rng)
    return [{**key_of(m, k, le, day), 'stat_name': s, **fam.row(fam.draw(rng, int(rng.integers(5, 25)))), 'stat_value': 0.}
            for m, k, le, day in itertools.product(['mA', 'mB'], ['EAST', 'WEST'], [3, 6], range(int(rng.integers(2, 5))))
            for s in names if rng.random() < .95]


def agg_stat(rng, d):
    lt = str(rng.choice(['sl1l2', 'ctc', 'ecnt']))
    names = {'sl1l2': ['ME', 'RMSE'], 'ctc': ['CSI', 'ACC'], 'ecnt': ['ECNT_RMSE']}[lt]
    p = {'random_seed': int(rng.integers(1, 999)), 'indy_var': 'fcst_lead', 'method': 'perc', 'num_iterations': int(rng.choice([1, 15])),
         'event_equal': str(bool(rng.random() < .4)), 'derived_series_1': [], 'derived_series_2': [], 'agg_stat_input': f'{d}/in.tsv',
         'fcst_var_val_1': {'TMP': names}, 'fcst_var_val_2': {}, 'agg_stat_output': f'{d}/out.tsv', 'fixed_vars_vals_input': {},
         'series_val_1': {'model': ['mA', 'mB'], 'vx_mask': ['EAST', 'WEST']}, 'series_val_2': {}, 'alpha': .05, 'line_type': lt, 'num_threads': 1,
         'indy_vals': ['3', '6'], 'list_stat_1': names, 'list_stat_2': [], 'circular_block_bootstrap': str(bool(rng.random() < .5))}
    return p, line_rows(rng, names, lt), 'agg_stat_input', 'agg_stat_output'


def agg_eclv(rng, d):
    rows = [{**key_of(m, 'FULL', 3, day), 'stat_name': 'ECLV', **dict(zip(('fy_oy', 'fy_on', 'fn_oy', 'fn_on'), (int(x) for x in rng.integers(1, 50, 4))))}
            for m, day in itertools.product(['mA', 'mB'], range(int(rng.integers(3, 6))))]
    if rng.random() < .5:                          # a model without events: a curve of missing values
        for r in rows:
            if r['model'] == 'mB':
                r['fy_oy'] = r['fn_oy'] = 0
    for r in rows:
        r['total'] = r['fy_oy'] + r['fy_on'] + r['fn_oy'] + r['fn_on']
    p = {'random_seed': int(rng.integers(1, 999)), 'indy_var': '', 'method': 'perc', 'num_iterations': int(rng.choice([1, 15])), 'event_equal': 'False',
         'agg_stat_input': f'{d}/in.tsv', 'agg_stat_output': f'{d}/out.tsv', 'fixed_vars_vals_input': {}, 'series_val_1': {'model': ['mA', 'mB']},
         'alpha': .05, 'line_type': 'ctc', 'num_threads': 1, 'indy_vals': [], 'agg_stat1': ['ECLV'], 'equalize_by_indep': 'True',
         'cl_step': float(rng.choice([.1, .25]))}
    return p, rows, 'agg_stat_input', 'agg_stat_output'


def agg_stat_bootstrap(rng, d):
    rows = [{'model': m, 'fcst_lead': le, 'fcst_valid': str(VALID0 + pd.Timedelta(days=day)), 'fcst_init': str(VALID0), 'fcst_var': 'APCP',
             'object_id': f'F{k}', 'object_type': '2d', 'fcst_flag': int(rng.random() < .5), 'simple_flag': 1, 'matched_flag': int(rng.random() < .5),
             'area': int(rng.integers(1, 99))} for m, le, day, k in itertools.product(['mA', 'mB'], [30000, 60000], range(3), range(5))]
    st = ['RATIO_FSA_ASA', 'AREARAT_OSA_ASA'][:int(rng.integers(1, 3))]
    p = {'random_seed': int(rng.integers(1, 99)), 'indy_var': 'fcst_lead', 'indy_vals': ['30000', '60000'], 'method': 'perc', 'num_iterations': int(rng.choice([1, 15])),
         'event_equal': 'False', 'agg_stat_input': f'{d}/in.tsv', 'agg_stat_output': f'{d}/out.tsv', 'fcst_var_val_1': {'APCP': st}, 'fcst_var_val_2': {},
         'series_val_1': {'model': ['mA', 'mB']}, 'series_val_2': {}, 'list_stat_1': st, 'list_stat_2': [], 'num_threads': 1, 'alpha': .1}
    return p, rows, 'agg_stat_input', 'agg_stat_output'


def agg_stat_event_equalize(rng, d):
    rows = [r for r in line_rows(rng, ['ME'], 'sl1l2') if rng.random() < .9]
    p = {'agg_stat_input': f'{d}/in.tsv', 'agg_stat_output': f'{d}/out.tsv', 'indy_var': 'fcst_lead', 'series_val_1': {'model': ['mA', 'mB']}, 'series_val_2': {},
         'fixed_vars_vals_input': {'vx_mask': {'vx_mask_0': ['EAST', 'WEST']}}}
    return p, rows, 'agg_stat_input', 'agg_stat_output'


def agg_stat_eqz(rng, d):
    rows = [r for r in line_rows(rng, ['ME'], 'sl1l2') if rng.random() < .9]
    for r in rows:
        r['fcst_valid'] = r.pop('fcst_valid_beg')
    prev = pd.DataFrame([r for r in rows if rng.random() < .6] or rows[:1])
    prev['equalize'] = prev['fcst_valid'] + ' ' + prev['fcst_lead'].astype(str)
    prev.to_csv(f'{d}/ee.tsv', sep='\t', index=False)
    p = {'agg_stat_input': f'{d}/in.tsv', 'agg_stat_output': f'{d}/out.tsv', 'agg_stat_input_ee': f'{d}/ee.tsv', 'event_equal': 'True', 'series_val_1': {'model': ['mA', 'mB']},
         'series_val_2': {}, 'fcst_var_val_1': {'TMP': ['ME']}}
    return p, rows, 'agg_stat_input', 'agg_stat_output'


def sum_stat(rng, d):
    lt = str(rng.choice(['sl1l2', 'ctc', 'ecnt']))
    names = {'sl1l2': ['ME', 'RMSE'], 'ctc': ['CSI', 'ACC'], 'ecnt': ['ECNT_RMSE']}[lt]
    p = {'sum_stat_input': f'{d}/in.tsv', 'sum_stat_output': f'{d}/out.tsv', 'line_type': lt, 'event_equal': str(bool(rng.random() < .4)), 'indy_var': 'fcst_lead',
         'indy_vals': ['3', '6'], 'series_val_1': {'model': ['mA', 'mB']}, 'series_val_2': {}, 'fcst_var_val_1': {'TMP': names}, 'fcst_var_val_2': {},
         'fixed_vars_vals_input': {}}
    return p, line_rows(rng, names, lt), 'sum_stat_input', 'sum_stat_output'


def scorecard(rng, d):
    rows = [{**key_of(m, k, le, day), 'stat_name': 'RMSE', 'stat_value': round(float(rng.random()), 5), 'stat_ncl': 'NA', 'stat_ncu': 'NA', 'stat_bcl': 'NA', 'stat_bcu': 'NA'}
            for m, k, le, day in itertools.product(['mA', 'mB'], ['EAST', 'WEST'], [3, 6], range(8))]
    derived = [['Z2 mA 3 TMP RMSE', 'Z2 mB 3 TMP RMSE', op] for op in ('DIFF', 'SINGLE', 'DIFF_SIG')[:int(rng.integers(1, 4))]]
    p = {'append_to_file': False, 'derived_series_1': derived, 'equalize_by_indep': True, 'event_equal': False, 'fcst_var_val_1': {'TMP': ['RMSE']}, 'fix_val_list_eq': [],
         'fixed_vars_vals_input': {}, 'indy_plot_val': [], 'indy_vals': ['EAST', 'WEST'], 'indy_var': 'vx_mask', 'line_type': 'sl1l2', 'list_stat_1': ['RMSE'], 'ndays': 8,
         'series_val_1': {'fcst_lev': ['Z2'], 'model': ['mA', 'mB'], 'fcst_lead': ['3', '6']}, 'stat_flag': 'NCAR', 'sum_stat_input': f'{d}/in.tsv', 'sum_stat_output': f'{d}/out.tsv'}
    return p, rows, 'sum_stat_input', 'sum_stat_output'


PROGRAMS = {'agg_stat': (agg_stat, 'AggStat', 'calculate_stats_and_ci'), 'agg_eclv': (agg_eclv, 'AggEclv', 'calculate_stats_and_ci'),
            'agg_stat_bootstrap': (agg_stat_bootstrap, 'AggStatBootstrap', 'calculate_values'),
            'agg_stat_event_equalize': (agg_stat_event_equalize, 'AggStatEventEqualize', 'calculate_values'),
            'agg_stat_eqz': (agg_stat_eqz, 'AggStatEventEqz', 'calculate_values'), 'sum_stat': (sum_stat, 'SumStat', 'calculate_stats'),
            'scorecard': (scorecard, 'Scorecard', 'calculate_scorecard_data')}


def snapshot(d):
    return {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))}


def main():
    import importlib
    ck = Check('C34', 'random inputs for the seven batch programs, each run through its class, through its command line (in this process and as a new '
                      'process), twice, after other runs, over an existing output and with append; oracle = equality of the written bytes and of the files '
                      'around them; non-trivial = an output with at least one data row; identity = program and output')
    tmp = tempfile.mkdtemp(prefix='verif_c34_')

    def cli(name, args):
        """run the program as __main__ in this process"""
        old = sys.argv
        sys.argv = [f'{name}.py'] + args
        try:
            return ck.call(lambda: runpy.run_path(os.path.join(REPO, 'metcalcpy', f'{name}.py'), run_name='__main__'))
        finally:
            sys.argv = old

    def cls(name, p):
        mod = importlib.import_module(f'metcalcpy.{name}')
        return ck.call(lambda: getattr(getattr(mod, PROGRAMS[name][1])(copy.deepcopy(p)), PROGRAMS[name][2])())

    def make(rng, name, d):
        os.makedirs(d)
        p, rows, inp, out = PROGRAMS[name][0](rng, d)
        df = pd.DataFrame(rows)
        df.iloc[rng.permutation(len(df))].to_csv(p[inp], sep='\t', index=False, na_rep='NA')
        with open(f'{d}/p.yaml', 'w') as f:
            yaml.safe_dump(p, f)
        return p, inp, out

    def read(path):
        return open(path, 'rb').read() if os.path.exists(path) else None

    def good(r):
        return not isinstance(r, Raised) or r.type == 'SystemExit' and r.exc.code in (None, 0)

    first = {}
    for rng, i in ck.cases('programs', 56, 560):
        name = list(PROGRAMS)[i % len(PROGRAMS)]
        d = os.path.join(tmp, f'a{i}')
        p, inp, out = make(rng, name, d)
        before = snapshot(d)
        ck.case_input = {'program': name, 'params': p, 'input': before['in.tsv'].decode()}
        r = cls(name, p)
        ref = read(p[out])
        if not ck.expect(good(r) and ref is not None, f'{name}/class', lambda: f'{r}, output {ref is not None}', monitor='class'):
            shutil.rmtree(d)
            continue
        after = snapshot(d)
        after.pop('out.tsv')
        ck.expect(after == before, f'{name}/files', lambda: f'files changed or created: {[f for f in set(after) | set(before) if after.get(f) != before.get(f)]}',
                  monitor='files')
        # command line, over an existing output
        with open(p[out], 'w') as f:
            f.write('left over\tfrom\tan earlier run\n' * int(rng.integers(1, 400)))
        r = cli(name, [f'{d}/p.yaml'])
        got = read(p[out])
        ck.expect(good(r) and got == ref, f'{name}/cli', lambda: f'{r}: the command line wrote something else than the class', monitor='cli')
        after = snapshot(d)
        after.pop('out.tsv', None)
        ck.expect(after == before, f'{name}/cli-files', lambda: f'files changed or created: {[f for f in set(after) | set(before) if after.get(f) != before.get(f)]}',
                  monitor='files')
        # in between other programs ran; the same parameters still give the same bytes
        os.remove(p[out])
        r = cls(name, p)
        ck.expect(good(r) and read(p[out]) == ref, f'{name}/again', lambda: f'{r}: the same parameters wrote something else the second time', monitor='again')
        # a new process
        if name not in first or rng.random() < .05:
            first[name] = True
            os.remove(p[out])
            pr = subprocess.run([sys.executable, os.path.join(REPO, 'metcalcpy', f'{name}.py'), f'{d}/p.yaml'], capture_output=True, text=True, timeout=300,
                                env={**os.environ, 'PYTHONPATH': REPO}, cwd=tmp)
            ck.expect(pr.returncode == 0 and read(p[out]) == ref, f'{name}/process', lambda: f'exit {pr.returncode}, {pr.stderr[-300:]}', monitor='process')
        # the table itself
        text = ref.decode()
        tab = pd.read_csv(io.StringIO(text), sep='\t', keep_default_na=False, dtype=str)
        ck.expect(len({line.count('\t') for line in text.splitlines()}) == 1 and not (tab == '').any().any() and not tab.isin(['nan', 'None', 'NaN']).any().any(),
                  f'{name}/table', 'rows of different width or missing values not written as NA', monitor='table')
        if len(tab):
            ck.nontrivial(name, text)
        # append
        if name in ('agg_stat', 'agg_eclv', 'scorecard'):
            head, body = text.split('\n', 1)
            r = cls(name, {**p, 'append_to_file': 'True'})
            ck.expect(good(r) and read(p[out]) == ref + body.encode(), f'{name}/append', lambda: f'{r}: appending gave {len(read(p[out]) or b"")} bytes from {len(ref)}',
                      monitor='append')
        ck.sample({'program': name, 'output': text[:300]})
        shutil.rmtree(d)

    # unusable arguments: an error, and no output
    for rng, i in ck.cases('unusable', 28, 140):
        name = list(PROGRAMS)[i % len(PROGRAMS)]
        d = os.path.join(tmp, f'u{i}')
        p, inp, out = make(rng, name, d)
        kind = ['no file', 'no data', 'no key', 'no argument'][(i // len(PROGRAMS)) % 4]
        args = [f'{d}/p.yaml']
        if kind == 'no file':
            args = [f'{d}/other.yaml']
        elif kind == 'no argument':
            args = []
        elif kind == 'no data':
            os.remove(p[inp])
        else:
            q = {k: v for k, v in p.items() if k != inp}
            with open(args[0], 'w') as f:
                yaml.safe_dump(q, f)
        ck.case_input = {'program': name, 'kind': kind, 'params': p}
        r = cli(name, args)
        ck.expect(not good(r) and not os.path.exists(p[out]), f'{name}/{kind.replace(" ", "-")}', lambda: f'{kind}: {r}, output {os.path.exists(p[out])}', monitor='unusable')
        ck.nontrivial('unusable', name, kind)
        shutil.rmtree(d)

    # the image program says whether the images agree
    import cv2
    for rng, i in ck.cases('images', 10, 60):
        d = os.path.join(tmp, f'i{i}')
        os.makedirs(d)
        a = rng.integers(0, 255, (40, 50, 3)).astype(np.uint8)
        b = a.copy()
        same = bool(rng.random() < .5)
        if not same:
            y, x = int(rng.integers(0, 30)), int(rng.integers(0, 40))
            b[y:y + 8, x:x + 8] = 255 - b[y:y + 8, x:x + 8]
        cv2.imwrite(f'{d}/a.png', a)
        cv2.imwrite(f'{d}/b.png', b)
        shown = []
        keep = cv2.imshow, cv2.waitKey
        cv2.imshow, cv2.waitKey = (lambda *x: shown.append(x)), (lambda *x: -1)
        buf = io.StringIO()
        old = sys.argv
        sys.argv = ['compare_images.py', '-f', f'{d}/a.png', '-s', f'{d}/b.png']
        try:
            with contextlib.redirect_stdout(buf):
                try:
                    runpy.run_path(os.path.join(REPO, 'metcalcpy', 'compare_images.py'), run_name='__main__')
                    r = None
                except BaseException as e:
                    r = Raised(e)
        finally:
            sys.argv = old
            cv2.imshow, cv2.waitKey = keep
        ck.case_input = {'same': same}
        said = buf.getvalue()
        ck.expect(good(r) and ('identical' in said) == same and ('different' in said) != same and bool(shown) != same, 'images', lambda: f'{r} said {said!r}, '
                  f'{len(shown)} windows, same {same}', monitor='images')
        ck.nontrivial('images', a.tolist()[0][:3], same)
        shutil.rmtree(d)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(40)


main_guard(main)
