"""C08: MODE/MTD object ratios count (or weigh) exactly the objects their names stand for."""
import numpy as np

from objects import RATIOS, member
from vlib import Check, close, is_missing, main_guard

def main():
    from metcalcpy.util import (mode_ratio_statistics as r1, mode_arearat_statistics as a1, mode_2d_ratio_statistics as r2,
                                mode_2d_arearat_statistics as a2, mode_3d_ratio_statistics as r3,
                                mode_3d_volrat_statistics as v3)
    ck = Check('C08', 'random object tables (0-120 objects, all 8 flag classes, skewed and empty classes, 2d/3d mixtures, '
                      'shuffled columns); oracle partitions the objects by the letters of the statistic name and counts '
                      'or weighs them with integers; non-trivial = a defined value; identity = class counts and areas')
    # module, name prefix, weight column (None = count), object type filter
    flavours = [(r1, 'ratio_', 'obj', None, None), (a1, 'arearat_', 'obja', 'area', None),
                (r2, '2d_ratio_', '2d_obj', None, '2d'), (a2, '2d_arearat_', '2d_obja', 'area', '2d'),
                (r3, '3d_ratio_', '3d_obj', None, '3d'), (v3, '3d_volrat_', '3d_objv', 'volume', '3d')]
    seen = set()
    for rng, i in ck.cases('objects', 500, 8000):
        n = int(rng.choice([0, 1, 2, 5, 12, 40, 120])) if i % 60 != 7 else 1100
        p = rng.choice([0, .1, .5, .5, .9, 1], 3)
        objs = [{'fcst_flag': int(rng.random() < p[0]), 'simple_flag': int(rng.random() < p[1]),
                 'matched_flag': int(rng.random() < p[2]), 'area': int(rng.integers(1, 500)),
                 'volume': int(rng.integers(1, 5000)), 'object_type': str(rng.choice(['2d', '3d']))} for _ in range(n)]
        cols = ['fcst_flag', 'simple_flag', 'matched_flag', 'area', 'volume', 'object_type', 'object_id', 'model']
        cols = [cols[j] for j in rng.permutation(len(cols))]
        data = np.empty((n, len(cols)), dtype=object)
        asfloat = rng.random() < .3
        for j, o in enumerate(objs):
            row = dict(o, object_id=f'F{j}', model='m')
            data[j] = [float(row[c]) if asfloat and isinstance(row[c], int) else row[c] for c in cols]
        names = np.array(cols) if rng.random() < .5 else np.array(cols, dtype=object)
        ck.case_input = {'columns': cols, 'rows': data.tolist()}
        # a table holds either the 2d areas or the 3d volumes
        novol = [j for j, c in enumerate(cols) if c != 'volume']
        noarea = [j for j, c in enumerate(cols) if c != 'area']
        full, fullnames = data, names
        for mod, pre, opre, w, typ in flavours:
            keep = noarea if mod is v3 else novol
            data, names = full[:, keep], fullnames[keep]
            use = [o for o in objs if typ is None or o['object_type'] == typ]

            def size(cls):
                return sum((o[w] if w else 1) for o in use if member(cls, o))

            def empty(cls):
                return not any(member(cls, o) for o in use)
            todo = {}
            for r in RATIOS:
                a, b = r.split('_')
                todo[f'calculate_{pre}{r}'] = (size(a), size(b), w and (empty(a) or empty(b)))
            asm, asu, fsu, osu = size('asm'), size('asu'), size('fsu'), size('osu')
            blank = {c: bool(w) and empty(c) for c in ('asm', 'asu', 'fsu', 'osu')}
            todo[f'calculate_{opre}hits'] = (asm, 2, blank['asm'])
            todo[f'calculate_{opre}misses'] = (osu, 1, blank['osu'])
            todo[f'calculate_{opre}fas'] = (fsu, 1, blank['fsu'])
            todo[f'calculate_{opre}csi'] = (asm, asm + 2 * asu, blank['asm'] or blank['asu'])
            todo[f'calculate_{opre}pody'] = (asm, asm + 2 * osu, blank['asm'] or blank['osu'])
            todo[f'calculate_{opre}far'] = (2 * fsu, 2 * fsu + asm, blank['fsu'] or blank['asm'])
            for fn, (num, den, lenient) in todo.items():
                f = getattr(mod, fn, None)
                if f is None:
                    continue
                seen.add(fn)
                got = ck.call(f, data, names)
                want = num / den if den else None
                ok = close(got, want, 1e-7)
                if lenient and not ok:
                    # the weight of an empty class is reported as missing
                    ok = is_missing(got)
                ck.expect(ok, fn.replace('calculate_', ''),
                          lambda: f'{fn}: got {got!r}, objects give {num}/{den}', monitor=pre.rstrip('_'))
                if want is not None:
                    ck.nontrivial(fn, num, den)
            ck.expect(bool((full[:, keep] == data).all()) and bool((names == fullnames[keep]).all()), 'mutated',
                      'the caller\'s table or column names were modified', monitor='purity')
        ck.sample({'objects': n, 'classes': {c: sum(member(c, o) for o in objs) for c in ('fsm', 'fsu', 'osm', 'osu',
                                                                                         'fca', 'oca')}})
    if ck.only is None and len(seen) < 190:
        print(f'INCONCLUSIVE: only {len(seen)} statistics found')
        raise SystemExit(3)
    ck.finish(20000)


main_guard(main)
