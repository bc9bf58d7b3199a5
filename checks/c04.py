"""C04: wind vector statistics (VL1L2, VAL1L2, VCNT) equal the statistics of the raw vector samples."""
import math

import numpy as np

from vlib import Check, close, is_missing, main_guard, Raised
import gen
from refs import ref_vector, vector_samples


def main():
    from metcalcpy.util import vl1l2_statistics as vl, val1l2_statistics as va, vcnt_statistics as vc
    from metcalcpy.util.met_stats import calc_speed, calc_direction
    ck = Check('C04', 'random raw forecast/observed wind vectors (8 regimes, n 1-2500) reduced to partial-sum rows '
                      '(1-60 rows of unequal size) in both conventions; non-trivial = at least one statistic decided '
                      'with a number; identity = family, regime, n, row count, layout and the leading values')

    def judge(fam, mod, ref, tab, rng, agg, desc):
        cols, vals = zip(*tab)
        data, names, mode = gen.as_table(rng, cols, vals)
        ck.case_input = {'columns': names.tolist(), 'rows': data.tolist(), 'aggregation': agg, 'layout': mode}
        before = data.copy()
        for k, spec in ref.items():
            if spec is None:
                ck.skip(f'{fam}.{k}: ill-conditioned sample')
                got = ck.call(getattr(mod, f'calculate_{k}'), data, names, *(() if not agg and (len(k) + ck.evaluations) % 2 else (agg,)))
                ck.expect(not isinstance(got, Raised), f'{fam}.{k}/raised', lambda: f'{k} ({desc}): {got}', monitor='no-error')
                continue
            got = ck.call(getattr(mod, f'calculate_{k}'), data, names, *(() if not agg and (len(k) + ck.evaluations) % 2 else (agg,)))
            want, tol = spec[0], spec[1]
            if len(spec) > 2:
                # circular quantity: compare modulo 360 and check the documented range
                ok = not isinstance(got, Raised) and not is_missing(got)
                if ok:
                    d = (float(got) - want + 180) % 360 - 180
                    lo, hi = spec[2]
                    ok = abs(d) <= tol and lo - 1e-6 <= got <= hi + 1e-6
            else:
                ok = close(got, want, tol)
            ck.expect(ok, f'{fam}.{k}/{"agg" if agg else "row"}',
                      lambda: f'{k} ({desc}, rows={len(vals[0])}, aggregation={agg}): got {got!r}, raw samples give '
                              f'{want!r} (tol {tol:.2g})', monitor=fam)
        tf = getattr(mod, f'calculate_{fam}_total', None)
        if tf:
            got = ck.call(tf, data, names)
            want = float(np.sum(vals[cols.index('total')]))
            ck.expect(close(got, want), f'{fam}.total', lambda: f'{fam}_total: got {got!r} want {want}', monitor=fam)
        ck.expect(bool((before == data).all()), 'mutated', 'the caller\'s table was modified', monitor='purity')
        ck.nontrivial(fam, desc, agg, mode, len(vals[0]), repr(vals[1][:3]))
        ck.sample({'family': fam, 'desc': desc, 'aggregation': agg, 'rows': len(vals[0]), 'layout': mode})

    for rng, i in ck.cases('vector', 2500, 30000):
        n = int(rng.choice([1, 2, 3, 5, 10, 40, 150, 400, 2500]))
        kind, uf, vf, uo, vo = vector_samples(rng, n)
        ref, ref2, ref3, ref4 = ref_vector(kind, uf, vf, uo, vo)
        fs, os_ = np.hypot(uf, vf), np.hypot(uo, vo)
        for agg in (True, False):
            cols = [('ufbar', uf), ('vfbar', vf), ('uobar', uo), ('vobar', vo), ('uvfobar', uf * uo + vf * vo),
                    ('uvffbar', uf * uf + vf * vf), ('uvoobar', uo * uo + vo * vo), ('f_speed_bar', fs), ('o_speed_bar', os_)]
            judge('vcnt', vc, ref, gen.partial_rows(rng, n, cols, agg), rng, agg, f'{kind} n={n}')
            judge('vl1l2', vl, ref2, gen.partial_rows(rng, n, cols, agg), rng, agg, f'{kind} n={n}')
            # anomaly sums
            cols = [('ufabar', uf), ('vfabar', vf), ('uoabar', uo), ('voabar', vo), ('uvfoabar', uf * uo + vf * vo),
                    ('uvffabar', fs * fs), ('uvooabar', os_ * os_), ('fa_speed_bar', fs), ('oa_speed_bar', os_)]
            tab = gen.partial_rows(rng, n, cols, agg)
            judge('val1l2', va, ref3, tab, rng, agg, f'{kind} n={n}')
            judge('vcnt', vc, ref4, tab, rng, agg, f'{kind} n={n}')
        # the primitive helpers
        u, v = float(uf[0]), float(vf[0])
        got = ck.call(calc_speed, u, v)
        ck.expect(close(got, math.hypot(u, v)), 'calc_speed', lambda: f'calc_speed({u},{v}) = {got!r}', monitor='helper')
        if max(abs(u), abs(v)) > 1e-4:
            got = ck.call(calc_direction, u, v)
            want = math.degrees(math.atan2(u, v)) % 360
            ok = not isinstance(got, Raised) and got is not None and \
                abs((got - want + 180) % 360 - 180) < 1e-6 and 0 <= got <= 360
            ck.expect(ok, 'calc_direction', lambda: f'calc_direction({u},{v}) = {got!r}, want {want}', monitor='helper')
    ck.finish(20000)


main_guard(main)
