"""C25: shared helpers: longitudes, combinations, columns, rounding, names, wind vectors."""
import itertools
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from vlib import Check, Raised, close, is_missing, main_guard


def values(rng, n):
    return list(dict.fromkeys(str(rng.choice(['A', 'B', 'C', 'D', 'GFS', 'x y', '12', '0.5'])) + str(k) for k in range(n)))


def main():
    from metcalcpy.util import utils as ut
    from metcalcpy.util import met_stats as ms
    ck = Check('C25', 'shared helpers against their definitions')

    for rng, i in ck.cases('longitudes', 120, 4000):
        n = int(rng.integers(1, 40))
        kind = str(rng.choice(['int', 'float', 'grid', 'grid']))
        if kind == 'int':
            lon = rng.integers(0, 361, n)
        elif kind == 'float':
            lon = rng.uniform(0, 360, n)
        else:
            step = float(rng.choice([1., 2.5, .5, 45.]))
            lon = (np.arange(int(360 / step)) * step)
            lon = np.roll(lon, int(rng.integers(0, len(lon))))
        ck.case_input = {'longitudes': lon}
        got = ck.call(ut.convert_lon_360_to_180, lon.tolist() if i % 3 == 0 else lon)
        want = sorted(float(v) if v < 180 else float(v) - 360 for v in lon)
        ck.expect(not isinstance(got, Raised) and len(got) == len(lon) and np.allclose(got, want, atol=1e-9), 'longitudes/180', lambda: f'{got}, expected {want}',
                  monitor='longitudes')
        ck.expect(isinstance(got, Raised) or np.asarray(got).dtype.kind == np.asarray(lon).dtype.kind, 'longitudes/type', lambda: f'{np.asarray(got).dtype}',
                  monitor='longitudes')
        lo = int(rng.choice([-180, 0, -90, -30]))
        keep = lon.copy()
        res = ck.call(ut.convert_lons_indices, lon, lo, 360)
        if isinstance(res, Raised):
            ck.expect(False, 'longitudes/indices', f'{res}', monitor='longitudes')
            continue
        new, idx = res
        ck.expect(np.array_equal(keep, lon) and sorted(idx) == list(range(len(lon))), 'longitudes/indices', lambda: f'order {idx}', monitor='longitudes')
        ck.expect(all(lo <= v < lo + 360 for v in new) and all(a <= b for a, b in zip(new, new[1:])), 'longitudes/range', lambda: f'{new} from {lo}',
                  monitor='longitudes')
        ck.expect(all(abs(((a - lon[k]) + 180) % 360 - 180) < 1e-9 for a, k in zip(new, idx)), 'longitudes/same', lambda: f'{new} are not {lon} in order {idx}',
                  monitor='longitudes')
        ck.nontrivial('lon', kind, len(lon), lo)

    for rng, i in ck.cases('combinations', 120, 4000):
        lists = [values(rng, int(rng.integers(1, 5))) for _ in range(int(rng.integers(1, 5)))]
        ck.case_input = {'lists': lists}
        want = sorted(itertools.product(*lists))
        got = ck.call(ut.create_permutations, lists)
        ck.expect(not isinstance(got, Raised) and [tuple(g) for g in got] == list(itertools.product(*lists)), 'combinations/product',
                  lambda: f'{got}', monitor='combinations')
        # flatten: a single list gives its values themselves
        as_rows = lambda rows: [(g,) if isinstance(g, str) else tuple(g) for g in rows]
        mv = ck.call(ut.create_permutations_mv, lists, 0)
        first_fastest = [tuple(reversed(p)) for p in itertools.product(*reversed(lists))]
        ck.expect(not isinstance(mv, Raised) and as_rows(mv) == first_fastest, 'combinations/list', lambda: f'{mv}, expected {first_fastest}', monitor='combinations')
        named = {f'f{k}': v for k, v in enumerate(lists)}
        at = int(rng.integers(0, len(lists) + 1))
        items = list(named.items())
        items.insert(at, ('none', []))
        mv = ck.call(ut.create_permutations_mv, dict(items), 0)
        ck.expect(not isinstance(mv, Raised) and as_rows(mv) == first_fastest, 'combinations/dict', lambda: f'{mv}, expected {first_fastest}', monitor='combinations')
        ck.expect(len(set(want)) == len(want), 'combinations/once', 'generator', monitor='combinations')
        ck.expect(ck.call(ut.create_permutations_mv, {}, 0) == [] and ck.call(ut.create_permutations_mv, {'a': []}, 0) == [], 'combinations/none',
                  'combinations without values', monitor='combinations')
        ck.nontrivial('comb', len(want), tuple(len(v) for v in lists))

    for rng, i in ck.cases('columns', 150, 5000):
        n, names = int(rng.integers(1, 12)) if i % 50 else int(rng.integers(1001, 3000)), ['total', 'fbar', 'count', 'flag']
        perm = [names[k] for k in rng.permutation(4)]
        table = {c: [float(v) for v in np.round(rng.normal(size=n) * 10. ** float(rng.integers(-3, 6)), 4)] for c in names[:3]}
        table['flag'] = [str(rng.choice(['2d', '3d'])) if i % 2 else float(rng.integers(0, 2)) for _ in range(n)]
        miss = rng.random(n) < (.3 if rng.random() < .6 else 1.)
        if rng.random() < .5:
            for k in range(n):
                if miss[k]:
                    table['fbar'][k] = math.nan if i % 4 else None
        data = np.array([[table[c][k] for c in perm] for k in range(n)], dtype=object if i % 2 or rng.random() < .4 or None in table['fbar'] else float)
        cols = np.array(perm)
        ck.case_input = {'data': data, 'columns': perm}
        for c in names[:3]:
            x = [math.nan if v is None else v for v in table[c]]
            ok = [v for v in x if not math.isnan(v)]
            tol = 1e-9 * (1 + sum(abs(v) for v in ok))
            got = ck.call(ut.sum_column_data_by_name, data, cols, c)
            ck.expect(is_missing(got) if not ok else (not isinstance(got, Raised) and not is_missing(got) and abs(got - math.fsum(ok)) < tol), 'columns/sum',
                      lambda: f'sum of {c} {got}, expected {math.fsum(ok)} of {len(ok)}', monitor='columns')
            got = ck.call(ut.sum_column_data_by_name, data, cols, c, False)
            ck.expect(is_missing(got) if len(ok) < n else (not isinstance(got, Raised) and not is_missing(got) and abs(got - math.fsum(ok)) < tol), 'columns/strict',
                      lambda: f'strict sum of {c} {got}', monitor='columns')
            got = ck.call(ut.column_data_by_name, data, cols, c)
            ck.expect(not isinstance(got, Raised) and np.array_equal(np.asarray(got, float), np.array(x), equal_nan=True), 'columns/values', lambda: f'{got}',
                      monitor='columns')
            got = ck.call(ut.column_data_by_name, data, cols, c, True)
            ck.expect(not isinstance(got, Raised) and list(got) == ok, 'columns/valid', lambda: f'{got}, expected {ok}', monitor='columns')
        ck.expect(is_missing(ck.call(ut.sum_column_data_by_name, data, cols, 'absent')) and ck.call(ut.column_data_by_name, data, cols, 'absent') is None,
                  'columns/absent', 'absent column', monitor='columns')
        want_flag = '3d' if i % 2 else 1.
        rows = [k for k in range(n) if table['flag'][k] == want_flag]
        got = ck.call(ut.column_data_by_name_value, data, cols, {'flag': want_flag})
        ck.expect(not isinstance(got, Raised) and len(got) == len(rows) and all(list(g)[perm.index('count')] == table['count'][k] for g, k in zip(got, rows)),
                  'columns/filter', lambda: f'{got}, expected rows {rows}', monitor='columns')
        got = ck.call(ut.nrow_column_data_by_name_value, data, cols, {'flag': want_flag, 'total': table['total'][0]})
        w = sum(1 for k in rows if table['total'][k] == table['total'][0])
        ck.expect(got == w, 'columns/rows', lambda: f'{got} rows, expected {w}', monitor='columns')
        got = ck.call(ut.get_total_values, data, cols, False)
        ck.expect(got == 1, 'columns/total', lambda: f'{got} without aggregation', monitor='columns')
        got = ck.call(ut.get_total_values, data, cols, True)
        ck.expect(not isinstance(got, Raised) and abs(got - math.fsum(table['total'])) < 1e-9 * (1 + sum(map(abs, table['total']))), 'columns/total',
                  lambda: f'total {got}', monitor='columns')
        for c in names:
            ck.expect(ck.call(ms.get_column_index_by_name, cols, c) == perm.index(c), 'columns/index', f'index of {c}', monitor='columns')
        ck.expect(ck.call(ms.get_column_index_by_name, cols, 'absent') is None, 'columns/index', 'index of an absent column', monitor='columns')
        ck.nontrivial('col', i)

    for rng, i in ck.cases('numbers', 150, 6000):
        d = int(rng.integers(0, 6))
        v = float(rng.normal() * 10. ** float(rng.integers(-2, 5)))
        if i % 3 == 0:
            # an exact tie
            v = float(rng.integers(-2000, 2000)) / 2
            d = 0
        got = ck.call(ut.round_half_up, v, d)
        scaled = Fraction(v) * 10 ** d
        w = math.floor(scaled + Fraction(1, 2)) / 10 ** d
        if abs((scaled % 1) - Fraction(1, 2)) < Fraction(1, 10 ** 6) and i % 3:
            ck.skip('within rounding of a tie')
        else:
            ck.expect(not isinstance(got, Raised) and abs(got - w) < 1e-9 * (1 + abs(w)), 'numbers/round', lambda: f'{v} to {d} decimals: {got}, expected {w}',
                      monitor='rounding')
        k = int(rng.integers(-10 ** 6, 10 ** 6))
        f = f'{k // 100}.{abs(k) % 100}'
        texts = {str(k): (True, False), f: (False, True), f'a{k}': (False, False), '': (False, False), f + '.1': (False, False), '1e5': (False, False)}
        for text, (is_int, is_float) in texts.items():
            ck.expect(ck.call(ut.is_string_integer, text) is is_int, 'numbers/integer', lambda: f'{text!r}', monitor='number texts')
            ck.expect(bool(ck.call(ut.is_string_strictly_float, text)) is is_float, 'numbers/float', lambda: f'{text!r}', monitor='number texts')
        ck.nontrivial('num', v, d)

    for rng, i in ck.cases('lists', 100, 3000):
        a = [str(v) for v in rng.choice(list('abcdefgh'), int(rng.integers(0, 8)))]
        b = [str(v) for v in rng.choice(list('abcdefgh'), int(rng.integers(0, 8)))]
        got = ck.call(ut.unique, a)
        ck.expect(got is None if not a else sorted(got) == sorted(set(a)), 'lists/unique', lambda: f'{got} of {a}', monitor='lists')
        got = ck.call(ut.intersection, a, b)
        ck.expect(got == [v for v in a if v in b], 'lists/both', lambda: f'{got} of {a} and {b}', monitor='lists')
        ck.expect(ck.call(ut.intersection, None, b) is None and ck.call(ut.intersection, a, None) is None, 'lists/none', 'intersection with nothing', monitor='lists')
        op = str(rng.choice(['DIFF', 'RATIO', 'SS', 'SINGLE', 'ETB', 'DIFF_SIG']))
        s1, s2 = 'GFS RMSE', 'NAM ' + str(rng.choice(['ME', 'DIFFER', 'SSVAR']))
        name = ck.call(ut.get_derived_curve_name, [s1, s2, op])
        sign = {'DIFF': '-', 'RATIO': '/', 'SS': ' and ', 'DIFF_SIG': '-', 'SINGLE': '-', 'ETB': ' and '}[op]
        ck.expect(name == f'{op}({s1}{sign}{s2})', 'lists/name', lambda: f'{name}', monitor='derived names')
        ck.expect(ck.call(ut.get_derived_curve_name, [s1, s2]) == f'DIFF({s1}-{s2})', 'lists/name', 'name without operation', monitor='derived names')
        if isinstance(name, str):
            at = int(rng.integers(0, 3))
            point = [s1, s2, 'x']
            ck.expect(ck.call(ut.is_derived_point, tuple(point)) is False, 'lists/plain', lambda: f'{point}', monitor='derived names')
            # an operation is named at the beginning of a component
            point[at] = f'my{name}'
            ck.expect(ck.call(ut.is_derived_point, tuple(point)) is False, 'lists/plain', lambda: f'{point}', monitor='derived names')
            point[at] = name.replace('(', ' (', 1) if rng.random() < .3 else name
            ck.expect(ck.call(ut.is_derived_point, tuple(point)) is True, 'lists/derived', lambda: f'{point}', monitor='derived names')
        ck.expect(ck.call(ut.is_derived_point, None) is False, 'lists/plain', 'no point', monitor='derived names')
        for text, w in {'True': True, 'False': False, 'true': 'true', 'x': 'x'}.items():
            ck.expect(ck.call(ut.parse_bool, text) == w, 'lists/bool', f'{text}', monitor='booleans')

    for rng, i in ck.cases('order', 60, 1500):
        n = int(rng.integers(2, 14))
        key = str(rng.choice(['fcst_valid_beg', 'fcst_init_beg', 'fcst_valid', 'fcst_init']))
        df = pd.DataFrame({key: [f'2020-01-{int(v):02d} 00:00:00' for v in rng.integers(1, 6, n)], 'fcst_lead': rng.choice([60000, 120000, 240000], n),
                           'stat_name': rng.choice(['ME', 'RMSE'], n), 'v': np.arange(n)}, index=rng.permutation(n))
        if i % 3 == 0:
            df = df.drop(columns='stat_name')
        if key == 'fcst_valid_beg' and i % 2:
            df['fcst_init_beg'] = [f'2020-01-{int(v):02d} 00:00:00' for v in rng.integers(1, 6, n)]
        ck.case_input = {'frame': df.to_dict('list')}
        keep = df.copy()
        got = ck.call(ut.sort_data, df)
        if isinstance(got, Raised):
            ck.expect(False, 'order', f'{got}', monitor='order')
            continue
        ck.expect(df.equals(keep), 'order/input', 'the table was changed', monitor='order')
        keys = [tuple(r) for r in got[[c for c in (key, 'fcst_lead', 'stat_name') if c in got]].itertuples(index=False)]
        ck.expect(keys == sorted(keys), 'order/sorted', lambda: f'{keys}', monitor='order')
        ck.expect(sorted(map(tuple, got.astype(str).values.tolist())) == sorted(map(tuple, df.astype(str).values.tolist())), 'order/rows', 'rows changed', monitor='order')

    for rng, i in ck.cases('wind', 120, 4000):
        u, v = (float(x) for x in rng.normal(size=2) * 10. ** float(rng.integers(-1, 2)))
        if i % 5 == 0:
            u, v = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.), (0., 0.), (1e-6, -1e-6), (3., 4.)][int(rng.integers(7))]
        sp, di = ck.call(ms.calc_speed, u, v), ck.call(ms.calc_direction, u, v)
        ck.expect(close(sp, math.hypot(u, v), 1e-12, 1e-9), 'wind/speed', lambda: f'{u},{v}: {sp}', monitor='wind')
        if abs(u) < 1e-5 and abs(v) < 1e-5:
            ck.expect(di is None, 'wind/calm', lambda: f'direction {di} without wind', monitor='wind')
        else:
            ck.expect(not isinstance(di, Raised) and di is not None and 0 <= di <= 360 and abs(math.sin(math.radians(di)) * math.hypot(u, v) - u) < 1e-6
                      and abs(math.cos(math.radians(di)) * math.hypot(u, v) - v) < 1e-6, 'wind/direction', lambda: f'{u},{v}: {di}', monitor='wind')
        ck.nontrivial('wind', u, v)
    ck.finish(1500)


main_guard(main)
