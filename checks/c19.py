"""C19: equivalence test of two paired groups (two one-sided t tests)."""
import math

import numpy as np
from scipy import special

from vlib import Check, Raised, close, main_guard


def upper(t, df):
    """P(T > t) of Student's t through the incomplete beta function"""
    h = .5 * float(special.betainc(df / 2, .5, df / (df + t * t)))
    return h if t > 0 else 1 - h


def quantile(p, df):
    """t with P(T < t) = p"""
    if p < .5:
        return -quantile(1 - p, df)
    q = float(special.betaincinv(df / 2, .5, 2 * (1 - p)))
    return math.sqrt(df * (1 - q) / q)


def main():
    from metcalcpy.util import utils
    from metcalcpy.util import tost_paired as twin
    ck = Check('C19', 'equivalence test against an independent reference and mirrored groups')
    for rng, i in ck.cases('tost', 500, 20000):
        n = int(rng.choice([2, 3, 5, 12, 30, 100, 400]))
        sd1, sd2 = (float(v) for v in rng.uniform(.01, 8, 2))
        if rng.random() < .2:
            sd2 = sd1
        r12 = float(rng.uniform(-1, 1))
        if rng.random() < .15:
            r12 = float(rng.choice([-1., 1., 0.]))
        scale = math.sqrt(max(0., sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2))
        m1 = float(rng.normal()) * 10
        m2 = m1 + scale / math.sqrt(n) * float(rng.normal()) * float(rng.choice([.3, 1, 3, 10, 300]))
        low = -float(rng.uniform(.001, 1.5))
        high = float(rng.uniform(.001, 1.5))
        if rng.random() < .3:
            high = -low
        alpha = [None, .05, .01, .1, .3, .6, .95][int(rng.choice([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5, 6]))]
        al = alpha or .05
        mod = utils if i % 3 else twin
        ck.case_input = {'n': n, 'm1': m1, 'm2': m2, 'sd1': sd1, 'sd2': sd2, 'r12': r12, 'low': low, 'high': high, 'alpha': alpha}
        args = (n, m1, m2, sd1, sd2, r12, low, high)
        args += (alpha,) if alpha is not None or rng.random() < .5 else ()
        if scale < 1e-6:
            # the two groups differ by a constant
            if mod is twin or scale:
                ck.skip('no spread of the differences')
                continue
            got = ck.call(mod.tost_paired, *args)
            ck.expect(not isinstance(got, Raised) and close(got['dif'], m1 - m2, 6e-8) and got['combined_outcome'] == 'none', 'tost/constant',
                      lambda: f'constant difference: {got}', monitor='constant')
            continue
        got = ck.call(mod.tost_paired, *args)
        key = 'tost' if mod is utils else 'tost2'
        if isinstance(got, Raised):
            ck.expect(False, key, f'n={n} sd={sd1},{sd2} r={r12}: {got}', monitor=key)
            continue
        df = n - 1
        se = scale / math.sqrt(n)
        d = m1 - m2
        lo, hi = low * scale, high * scale
        t0, t1, t2 = d / se, (d - lo) / se, (d - hi) / se
        p0 = 2 * upper(abs(t0), df)
        p1, p2 = upper(t1, df), 1 - upper(t2, df)
        pt = max(p1, p2)
        q90, q95 = quantile(1 - al, df), quantile(1 - al / 2, df)
        w90, w95 = (d - q90 * se, d + q90 * se), (d - q95 * se, d + q95 * se)
        wide = max(w90[1] - w90[0], hi - lo) / 10
        tol = 1e-7 * (1 + abs(d) + q95 * se)
        for name, g, w, tl in (('dif', (got['dif'],), (d,), 6e-8), ('p', got['p'], (p1, p2), 2e-7),
                               ('t', got['t'], (t1, t2), 1e-7 * (1 + abs(t1) + abs(t2) + abs(d) / se)), ('ci_tost', got['ci_tost'], w90, tol),
                               ('ci_ttest', got['ci_ttest'], w95, tol), ('eqbound', got['eqbound'], (lo, hi), 1e-7),
                               ('xlim', got['xlim'], (min(w90[0], lo) - wide, max(w90[1], hi) + wide), 2 * tol),
                               ('degrees_of_freedom', (got['degrees_of_freedom'],), (df,), 0)):
            ck.expect(len(g) == len(w) and all(close(u, v, tl, 1e-7) for u, v in zip(g, w)), key + '/' + name,
                      lambda: f'{name} {g}, expected {w}', monitor=key)
        if min(abs(p0 - al), abs(pt - al)) < 1e-6:
            ck.skip('p at the level')
            continue
        comb = ('diff' if p0 < al else 'no_diff') + ('_eqv' if pt < al else '_no_eqv')
        ck.expect(got['combined_outcome'] == comb, key + '/outcome', lambda: f'{got["combined_outcome"]}, p of difference {p0}, of equivalence {pt}, '
                  f'level {al}: {comb}', monitor=key)
        word = {True: 'significant', False: 'non-significant'}
        ck.expect(got['test_outcome'] == word[p0 < al] and got['tost_outcome'] == word[pt < al], key + '/words',
                  lambda: f'{got["test_outcome"]}/{got["tost_outcome"]} with p {p0}/{pt}, level {al}', monitor=key)
        # the groups exchanged and the bounds mirrored
        back = ck.call(mod.tost_paired, n, m2, m1, sd2, sd1, r12, -high, -low, alpha)
        if isinstance(back, Raised):
            ck.expect(False, key + '/mirror', f'mirrored: {back}', monitor=key)
        else:
            ck.expect(all(close(u, -v, 2 * tol, 1e-7) for u, v in zip(back['ci_tost'], got['ci_tost'][::-1])) and
                      back['combined_outcome'] == got['combined_outcome'] and all(close(u, v, 3e-7) for u, v in zip(back['p'], got['p'][::-1])),
                      key + '/mirror', lambda: f'mirrored {back}, direct {got}', monitor=key)
        ck.nontrivial(comb, n, round(d, 9))
        ck.sample({'n': n, 'dif': d, 'p': (p0, p1, p2), 'outcome': comb})

    # two series of paired values: bounds of a thousandth of the standard deviation of the differences
    for rng, i in ck.cases('series', 80, 2000):
        n = int(rng.choice([4, 6, 15, 40, 120]))
        a = rng.normal(rng.normal() * 3, float(rng.uniform(.2, 4)), n)
        b = float(rng.uniform(-.9, .9)) * a + rng.normal(0, float(rng.uniform(.3, 2)), n)
        if rng.random() < .3:
            b = b - b.mean() + a.mean() + float(rng.choice([0., 1e-5, 1e-3, .05]))
        ck.case_input = {'a': a, 'b': b}
        got = ck.call(utils.calc_derived_curve_value, a.tolist(), b.tolist(), 'ETB')
        if not ck.expect(isinstance(got, dict), 'series/raised', lambda: f'{got}', monitor='series'):
            continue
        x = a - b
        d, s = float(x.mean()), float(x.std(ddof=1))
        se, df = s / math.sqrt(n), n - 1
        w = {'dif': (d,), 'p': (upper((d + .001 * s) / se, df), 1 - upper((d - .001 * s) / se, df)), 'eqbound': (-.001 * s, .001 * s),
             'ci_tost': (d - quantile(.95, df) * se, d + quantile(.95, df) * se), 'ci_ttest': (d - quantile(.975, df) * se, d + quantile(.975, df) * se)}
        for name, v in w.items():
            g = got[name] if isinstance(got[name], (tuple, list)) else (got[name],)
            ck.expect(len(g) == len(v) and all(close(p, q, 1e-6, 1e-6) for p, q in zip(g, v)), 'series/' + name, lambda: f'{name} {g}, expected {v}', monitor='series')
        ck.nontrivial('series', n, round(d, 9))
    ck.finish(500)


main_guard(main)
