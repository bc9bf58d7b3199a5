"""C29: tropical intraseasonal oscillation indices and the filters they use."""
import math

import numpy as np
import pandas as pd
import xarray as xr

from vlib import Check, Raised, main_guard


def detrended(x):
    t = np.arange(x.shape[0]) - (x.shape[0] - 1) / 2
    b = np.tensordot(t, x, (0, 0)) / (t ** 2).sum()
    return x - x.mean(0) - t.reshape((-1,) + (1,) * (x.ndim - 1)) * b


def prepared(x, dt, pad):
    """trend removed, first ten days tapered, zeros appended"""
    n = int(10 / dt)
    w = np.ones(len(x))
    m = min(n, len(x))
    w[:m] = .5 * (1 - np.cos(np.arange(m) * math.pi / n))
    out = np.zeros((pad,) + x.shape[1:])
    out[:len(x)] = detrended(x) * w[:, None, None]
    return out


def bandpass(x, dt, a, b):
    """only periods from a to b days"""
    p = prepared(x, dt, 2 ** 17)
    f = np.fft.rfft(p, axis=0)
    fr = np.arange(f.shape[0]) / (len(p) * dt)
    f[(fr < 1 / b) | (fr > 1 / a)] = 0
    return np.fft.irfft(f, n=len(p), axis=0)[:len(x)]


def space_time(x, dt, a, b, kmin, kmax):
    """only periods from a to b days and eastward wave numbers from kmin to kmax"""
    nt = len(x) + 1000
    p = prepared(x, dt, nt)
    nl = x.shape[2]
    fr = np.arange(nt // 2 + 1) / (nt * dt)
    out = np.zeros(x.shape)
    t, lon = np.arange(len(x)), np.arange(nl)
    et = np.fft.rfft(p, axis=0)
    pick = np.where((fr >= 1 / b) & (fr <= 1 / a))[0]
    for k in range(-((nl - 1) // 2), nl // 2 + 1):
        if not kmin <= k <= kmax:
            continue
        # amplitude of the wave cos(k x - w t)
        amp = np.tensordot(et[pick], np.exp(2j * np.pi * k * lon / nl), (2, 0)) / (nt * nl)
        wt = np.exp(2j * np.pi * np.outer(t, pick) / nt)
        out += 2 * np.real(np.einsum('tf,fy,l->tyl', wt, amp, np.exp(-2j * np.pi * k * lon / nl)))
    return out


def pcs(v, e1, e2):
    """least squares coefficients from the normal equations"""
    a = np.array([[e1 @ e1, e1 @ e2], [e1 @ e2, e2 @ e2]])
    return np.linalg.solve(a, np.array([e1 @ v, e2 @ v]))


def times(rng, n, dt):
    start = np.datetime64(f'{int(rng.integers(1980, 2024))}-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 29)):02d}')
    return start.astype('datetime64[ns]') + (np.arange(n) * int(dt * 86400)).astype('timedelta64[s]').astype('timedelta64[ns]')


def field(rng, n, dt, shape):
    t = np.arange(n)[:, None, None] * dt
    x = np.arange(shape[-1])[None, None, :] * 2 * np.pi / shape[-1]
    out = rng.normal(size=(n,) + shape) + rng.normal() * 3 * t / n + 200
    for per in (rng.uniform(3, 15), rng.uniform(20, 60), rng.uniform(60, 120)):
        out = out + rng.uniform(1, 4) * np.cos(int(rng.integers(-3, 4)) * x - 2 * np.pi * t / per + rng.uniform(0, 6))
    return out


def off_grid(freqs, n, dt):
    """no limit within rounding of a resolved frequency"""
    return all(abs(f * n * dt - round(f * n * dt)) > 1e-7 for f in freqs)


def main():
    from metcalcpy.contributed.rmm_omi import compute_mjo_indices as m
    ck = Check('C29', 'filters against sums of the waves in the band, indices against least squares on the filtered field')

    for rng, i in ck.cases('bandpass', 6, 60):
        dt = float(rng.choice([1, 1, .5, .25]))
        n, shape = int(rng.integers(40, 300)), (int(rng.integers(1, 3)), int(rng.integers(1, 4)))
        tm = times(rng, n, dt)
        x = field(rng, n, dt, shape)
        a, b = [(20, 96), (2.5, 10), (30.5, 60.5), (5, 1000)][int(rng.integers(4))]
        da = xr.DataArray(x.copy(), dims=('time', 'lat', 'lon'), coords={'time': tm, 'lat': np.arange(shape[0]), 'lon': np.arange(shape[1])})
        ck.case_input = {'x': x, 'spacing': dt, 'limits': (a, b)}
        if not off_grid((1 / a, 1 / b), 2 ** 17, dt):
            ck.skip('a limit on a resolved frequency')
            continue
        got = ck.call(m.bandpass_filter_3D, da, tm, a, b)
        want = bandpass(x, dt, a, b)
        ck.expect(not isinstance(got, Raised) and np.allclose(np.asarray(got), want, atol=1e-7), 'bandpass', lambda: f'periods {a} to {b}, spacing {dt}: {got if isinstance(got, Raised) else abs(np.asarray(got) - want).max()}',
                  monitor='bandpass')
        ck.expect(np.array_equal(da.values, x), 'bandpass/input', 'the data was changed', monitor='inputs')
        ck.nontrivial('bandpass', n, dt, a, round(float(abs(want).max()), 9))

    for rng, i in ck.cases('spacetime', 20, 250):
        dt = float(rng.choice([1, 1, .5]))
        n, shape = int(rng.integers(40, 160)), (int(rng.integers(1, 3)), int(rng.integers(3, 11)))
        tm = times(rng, n, dt)
        x = field(rng, n, dt, shape)
        a, b = [(20, 96), (5.3, 30), (30.5, 60.5)][int(rng.integers(3))]
        top = (shape[1] - 1) // 2
        lims = sorted(int(v) for v in rng.choice(np.arange(-top, top + 2), 2, replace=False))
        kmin, kmax = (-720, 720) if rng.random() < .3 else (lims[0] - .5, lims[1] - .5)
        da = xr.DataArray(x.copy(), dims=('time', 'lat', 'lon'), coords={'time': tm, 'lat': np.arange(shape[0]), 'lon': np.arange(shape[1])})
        ck.case_input = {'x': x, 'spacing': dt, 'limits': (a, b, kmin, kmax)}
        if not off_grid((1 / a, 1 / b), n + 1000, dt):
            ck.skip('a limit on a resolved frequency')
            continue
        got = ck.call(m.perform_3dim_spectral_filtering, da, dt, a, b, kmin, kmax)
        want = space_time(x, dt, a, b, kmin, kmax)
        ok = not isinstance(got, Raised) and np.allclose(np.asarray(got), want, atol=1e-7)
        ck.expect(ok, 'spacetime', lambda: f'{n} times {shape[1]} longitudes, periods {a} to {b}, waves {kmin} to {kmax}: '
                  f'{got if isinstance(got, Raised) else abs(np.asarray(got) - want).max()}', monitor='spacetime')
        ck.expect(np.array_equal(da.values, x), 'spacetime/input', 'the data was changed', monitor='inputs')
        ck.nontrivial('spacetime', n, shape[1], kmin, kmax)

    for rng, i in ck.cases('pieces', 30, 600):
        dt = float(rng.choice([1, .5, 2, 5]))
        n, nl = int(rng.integers(3, 400)), int(rng.integers(1, 5))
        tm = times(rng, n, dt)
        x = rng.normal(size=(n, nl)) + np.linspace(0, 5, n)[:, None]
        if rng.random() < .4:
            x[rng.random((n, nl)) < .1] = np.nan
            x[0] = 1.
        da = xr.DataArray(x.copy(), dims=('time', 'lon'), coords={'time': tm})
        back = int(120 / dt)
        got = ck.call(m.rem_120day_mean, da, tm)
        want = np.array([x[j] - np.nanmean(x[max(0, j - back):j + 1], axis=0) if True else 0 for j in range(n)])
        ck.case_input = {'x': x, 'spacing': dt}
        ck.expect(not isinstance(got, Raised) and np.allclose(np.asarray(got), want, atol=1e-9, equal_nan=True), 'mean120',
                  lambda: f'{n} times every {dt} days: {got if isinstance(got, Raised) else "differs"}', monitor='mean120')
        ck.expect(np.array_equal(da.values, x, equal_nan=True), 'mean120/input', 'the data was changed', monitor='inputs')
        got = ck.call(m.zon_avg_variance, da)
        want = np.mean([np.mean((c[~np.isnan(c)] - c[~np.isnan(c)].mean()) ** 2) for c in x.T])
        ck.expect(not isinstance(got, Raised) and abs(got - want) < 1e-9, 'variance', lambda: f'{got}, expected {want}', monitor='variance')
        k = int(rng.integers(3, 20))
        v, e1, e2 = rng.normal(size=(3, k))
        got = ck.call(m.regress_vector_onto_eofs, v, e1, e2)
        ck.expect(not isinstance(got, Raised) and np.allclose(got, pcs(v, e1, e2), atol=1e-7), 'regress', lambda: f'{got}', monitor='regress')
        ck.nontrivial('pieces', n, dt, nl)

    for rng, i in ck.cases('rmm', 12, 200):
        n, nl = int(rng.integers(5, 200)), int(rng.integers(3, 10))
        spd = int(rng.choice([1, 2]))
        tm = times(rng, n, 1 / spd)
        lon = np.arange(nl) * 2.5
        xs = rng.normal(size=(3, n, nl)) * np.array([15., 2., 5.])[:, None, None] + 3
        e1, e2 = rng.normal(size=(2, 3, nl))
        norm, pn = rng.uniform(1, 15, 3), rng.uniform(2, 9, 2)
        mk = lambda v: xr.DataArray(v.copy(), dims=('time', 'lon'), coords={'time': tm, 'lon': lon})
        das = [mk(v) for v in xs]
        eo = [xr.DataArray(e, dims=('var', 'lon'), coords={'lon': lon}) for e in (e1, e2)]
        ck.case_input = {'fields': xs, 'eofs': [e1, e2], 'norm': norm, 'pc_norm': pn, 'per_day': spd}
        got = ck.call(m.rmm, *das, tm, spd, eo[0], eo[1], norm, pn)
        if isinstance(got, Raised):
            ck.expect(False, 'rmm', str(got), monitor='rmm')
            continue
        back = 120 * spd
        anom = np.array([[x[j] - x[max(0, j - back):j + 1].mean(0) for j in range(n)] for x in xs]) / norm[:, None, None]
        want = np.array([pcs(np.concatenate([anom[v, j] for v in range(3)]), e1.ravel(), e2.ravel()) for j in range(n)]) / pn
        for c in range(2):
            ck.expect(np.allclose(got[c].values, want[:, c], atol=1e-7) and np.array_equal(got[c].time.values, tm), f'rmm/pc{c + 1}',
                      lambda: f'component {c + 1}: {got[c].values[:3]}, expected {want[:3, c]}', monitor='rmm')
        ck.expect(all(np.array_equal(d.values, x) for d, x in zip(das, xs)), 'rmm/inputs', 'an input changed', monitor='inputs')
        ck.nontrivial('rmm', n, nl, spd)
        # one field on another grid
        which = int(rng.integers(3))
        bad = list(das)
        bad[which] = bad[which].assign_coords(lon=lon + [2.5, .5, 180][int(rng.integers(3))]) if rng.random() < .6 else bad[which][:, :-1]
        got = ck.call(m.rmm, *bad, tm, spd, eo[0], eo[1], norm, pn)
        ck.expect(isinstance(got, Raised) and got.type == 'ValueError', 'rmm/grid', lambda: f'longitudes {bad[which].lon.values} of field {which} accepted with {lon}', monitor='grid')

    for rng, i in ck.cases('omi', 8, 80):
        n, shape = int(rng.integers(30, 130)), (int(rng.integers(2, 4)), int(rng.choice([3, 4, 5, 6, 10, 13])))
        tm = times(rng, n, 1.)
        if i % 4 == 0:
            # over the last day of a leap year
            tm = tm - tm[0] + np.datetime64(f'{int(rng.choice([1984, 2000, 2020]))}-12-{int(rng.integers(2, 31)):02d}').astype('datetime64[ns]')
        x = field(rng, n, 1., shape)
        lat, lon = np.arange(shape[0]) * 2.5 - 2.5, np.arange(shape[1]) * 360. / shape[1]
        e1, e2 = rng.normal(size=(2, 366) + shape)
        da = xr.DataArray(x.copy(), dims=('time', 'lat', 'lon'), coords={'time': tm, 'lat': lat, 'lon': lon})
        eo = [xr.DataArray(e, dims=('doy', 'lat', 'lon'), coords={'lat': lat, 'lon': lon}) for e in (e1, e2)]
        ck.case_input = {'x': x, 'start': str(tm[0])}
        doy = pd.DatetimeIndex(tm).dayofyear.values - 1
        raw = np.array([pcs(x[j].ravel(), e1[doy[j]].ravel(), e2[doy[j]].ravel()) for j in range(n)])
        got = ck.call(m.regress_3dim_data_onto_eofs, da, tm, *eo)
        ck.expect(not isinstance(got, Raised) and np.allclose(np.array(got).T, raw, atol=1e-6), 'omi/regress', lambda: f'{got}', monitor='regress')
        if not off_grid((1 / 20, 1 / 96), n + 1000, 1.):
            ck.skip('a limit on a resolved frequency')
            continue
        got = ck.call(m.omi, da, tm, 1, *eo)
        if isinstance(got, Raised):
            ck.expect(False, 'omi', str(got), monitor='omi')
            continue
        f = space_time(x, 1., 20, 96, -720, 720)
        raw = np.array([pcs(f[j].ravel(), e1[doy[j]].ravel(), e2[doy[j]].ravel()) for j in range(n)])
        raw = raw / raw[:, 0].std()
        for c in range(2):
            ck.expect(np.allclose(got[c].values, raw[:, c], atol=1e-6) and np.array_equal(got[c].time.values, tm), f'omi/pc{c + 1}',
                      lambda: f'component {c + 1}: {got[c].values[:3]}, expected {raw[:3, c]}', monitor='omi')
        ck.expect(np.array_equal(da.values, x), 'omi/input', 'the data was changed', monitor='inputs')
        ck.nontrivial('omi', n, shape)
        bad = da.assign_coords(lon=lon + 1.) if i % 3 == 0 else da.assign_coords(lat=lat[::-1]) if i % 3 == 1 else da[:, :, :-1]
        got = ck.call(m.omi if i % 2 else m.regress_3dim_data_onto_eofs, bad, tm, *([1] if i % 2 else []), *eo)
        ck.expect(isinstance(got, Raised) and got.type == 'ValueError', 'omi/grid', lambda: f'another grid was accepted', monitor='grid')
    ck.finish(150)


main_guard(main)
