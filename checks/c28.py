"""C28: dispersion curves of the equatorial wave modes."""
import math

import numpy as np

from vlib import Check, Raised, main_guard

RE, GRAV, OMEGA = 6.371008e6, 9.80665, 7.292e-05


def roots(k, n, he, beta):
    """the angular frequencies of the modes of order n, ascending"""
    gh = GRAV * he
    return sorted(r.real for r in np.roots([1, 0, -gh * (k * k + beta * (2 * n + 1) / math.sqrt(gh)), -k * beta * gh]))


def reference(kind, wn, n, he, lat):
    """cycles per day at a global wave number; None where the mode has none"""
    cos = math.cos(math.radians(abs(lat)))
    k, beta = wn / (RE * cos), 2 * OMEGA * cos / RE
    c = math.sqrt(GRAV * he)
    if (wn <= 0 and kind in ('Kelvin', 'EIG')) or (wn >= 0 and kind in ('MRG', 'ER', 'WIG')):
        return None
    if kind == 'Kelvin':
        w = k * c
    elif kind == 'MRG' or (kind == 'EIG' and n == 0):
        # w^2 - k c w - beta c = 0, positive root
        w = (k * c + math.sqrt(k * k * c * c + 4 * beta * c)) / 2
    elif kind == 'ER':
        w = roots(k, n, he, beta)[1]
    else:
        w = roots(k, n, he, beta)[2]
    return w / (2 * math.pi) * 86400.


def main():
    from metcalcpy.contributed.spacetime import matsuno_plot as mp
    ck = Check('C28', 'every curve against the roots of the dispersion relation found from its polynomial')

    def curve(df, kind, n, he, lat, wn, tag):
        name = f'{kind}(he={he}m)' if kind in ('Kelvin', 'MRG') else f'{kind}(n={n},he={he}m)'
        if isinstance(df, Raised) or name not in df.columns:
            ck.expect(False, f'{tag}/{kind}', f'{name}: {df if isinstance(df, Raised) else list(df.columns)}', monitor=kind)
            return
        got = df[name].values
        if not ck.expect(len(df) == len(wn) and np.allclose(df.index.values, wn), f'{tag}/wavenumbers', lambda: f'{name} has {len(df)} wave numbers from {df.index[0]}',
                         monitor='axis'):
            return
        for w, v in zip(wn, got):
            if w == 0:
                # zero itself is on no side
                ck.expect(np.isnan(v), f'{tag}/{kind}/zero', lambda: f'{name} has {v} at wave number zero', monitor=kind)
                continue
            if abs(w) < 1e-9:
                continue
            want = reference(kind, w, n, he, lat)
            if want is None:
                ck.expect(np.isnan(v), f'{tag}/{kind}/side', lambda: f'{name} has {v} at wave number {w}', monitor=kind)
            else:
                ck.expect(abs(v - want) <= 1e-6 * abs(want), f'{tag}/{kind}', lambda: f'{name} at {w}: {v}, the relation gives {want}', monitor=kind)
        ck.nontrivial(kind, n, he, lat, len(wn))

    for rng, i in ck.cases('mode', 150, 1500):
        he = [12, 25, 50, 8, 90, round(float(rng.uniform(5, 200)), 2)][int(rng.integers(6))]
        lat = [0., 0., 7.5, -15., round(float(rng.uniform(-60, 60)), 1)][int(rng.integers(5))]
        mx, nw = int(rng.integers(3, 50)), int(rng.integers(4, 60))
        n = int(rng.integers(1, 5))
        wn = np.linspace(-mx, mx, nw)
        ck.case_input = {'he': he, 'latitude': lat, 'max_wn': mx, 'n_wn': nw, 'n': n}
        curve(ck.call(mp.kelvin_mode, he, lat, mx, nw), 'Kelvin', 0, he, lat, wn, 'mode')
        curve(ck.call(mp.mrg_mode, he, lat, mx, nw), 'MRG', 0, he, lat, wn, 'mode')
        curve(ck.call(mp.eig_n_0, he, lat, mx, nw), 'EIG', 0, he, lat, wn, 'mode')
        for f, kind in ((mp.er_n, 'ER'), (mp.eig_n, 'EIG'), (mp.wig_n, 'WIG')):
            curve(ck.call(f, he, n, lat, mx, nw), kind, n, he, lat, wn, 'mode')
        got = ck.call(mp.beta_parameters, lat)
        cos = math.cos(math.radians(lat))
        ck.expect(not isinstance(got, Raised) and np.allclose(got, (2 * OMEGA * cos / RE, 2 * math.pi * RE * cos), rtol=1e-12), 'beta', lambda: f'{lat}: {got}', monitor='beta')
        w = float(rng.uniform(1e-7, 1e-4))
        got = ck.call(mp.afreq2freq, np.array([w]))
        ck.expect(not isinstance(got, Raised) and np.allclose([got[0][0], got[1][0]], [2 * math.pi / w / 86400, w * 86400 / 2 / math.pi]), 'frequency', lambda: f'{w}: {got}',
                  monitor='beta')
    for rng, i in ck.cases('table', 40, 300):
        hs = [int(h) for h in rng.choice([8, 12, 25, 50, 90], int(rng.integers(1, 4)), replace=False)]
        ns = [int(v) for v in rng.choice([1, 2, 3, 4], int(rng.integers(1, 4)), replace=False)]
        lat = float(rng.choice([0., 5., -10., 42.5, -35.]))
        mx, nw = int(rng.integers(3, 40)), int(rng.integers(4, 40))
        wn = np.linspace(-mx, mx, nw)
        ck.case_input = {'he': hs, 'n': ns, 'latitude': lat, 'max_wn': mx, 'n_wn': nw}
        res = ck.call(mp.matsuno_modes_wk, hs, ns, lat, mx, nw)
        if isinstance(res, Raised) or list(res) != hs:
            ck.expect(False, 'table', f'{res if isinstance(res, Raised) else list(res)}', monitor='axis')
            continue
        tables = [(h, res[h], 'table') for h in hs] + [(hs[0], ck.call(mp.matsuno_dataframe, hs[0], ns, lat, mx, nw), 'frame')]
        for h, df, tag in tables:
            curve(df, 'Kelvin', 0, h, lat, wn, tag)
            curve(df, 'MRG', 0, h, lat, wn, tag)
            for n in [0] + ns:
                curve(df, 'EIG', n, h, lat, wn, tag)
            for n in ns:
                curve(df, 'ER', n, h, lat, wn, tag)
                curve(df, 'WIG', n, h, lat, wn, tag)
            ck.expect(isinstance(df, Raised) or df.shape[1] == 3 + 3 * len(ns), tag + '/columns', lambda: f'{list(df.columns)}', monitor='axis')
        # the defaults
        if i < 2:
            df = ck.call(mp.matsuno_modes_wk)
            wn = np.linspace(-20, 20, 500)
            if not isinstance(df, Raised):
                for h in (12, 25, 50):
                    curve(df[h], 'Kelvin', 0, h, 0., wn, 'default')
                    curve(df[h], 'ER', 1, h, 0., wn, 'default')
            else:
                ck.expect(False, 'default', str(df), monitor='axis')
            # the single curves reach wave number 50 unless told otherwise
            wn = np.linspace(-50, 50, 500)
            h, n = hs[0], ns[0]
            for f, kind, a in ((mp.kelvin_mode, 'Kelvin', ()), (mp.mrg_mode, 'MRG', ()), (mp.eig_n_0, 'EIG', ()), (mp.er_n, 'ER', (n,)), (mp.eig_n, 'EIG', (n,)),
                               (mp.wig_n, 'WIG', (n,))):
                curve(ck.call(f, h, *a), kind, n if a else 0, h, 0., wn, 'default')
            df = ck.call(mp.matsuno_dataframe, h)
            for kind in ('ER', 'EIG', 'WIG'):
                for n in (1, 2, 3):
                    curve(df, kind, n, h, 0., wn, 'default')
            ck.expect(isinstance(df, Raised) or df.shape[1] == 12, 'default/columns', lambda: f'{list(df.columns)}', monitor='axis')
    ck.finish(2000)


main_guard(main)
