"""C21: zonal and meridional means and the decomposition of fields into zonal waves."""
import cmath
import math

import numpy as np
import xarray as xr

from vlib import Check, Raised, close, main_guard


def field(rng, nlon, dim, dtype=float):
    lat = np.sort(rng.choice(np.arange(-90, 91, 2.5), int(rng.integers(1, 7)), replace=False))
    if rng.random() < .5:
        lat = lat[::-1]
    lon = float(rng.choice([0., -180., 2.5])) + np.arange(nlon) * 360. / nlon
    dims = ['time', 'lat', dim]
    if rng.random() < .6:
        dims = [dims[k] for k in rng.permutation(3)]
    coords = {'time': np.arange(int(rng.integers(1, 4))), 'lat': lat, dim: lon}
    shape = tuple(len(coords[d]) for d in dims)
    v = rng.normal(size=shape) * float(10. ** rng.integers(-2, 3)) + float(rng.integers(-5, 6))
    return xr.DataArray(v.astype(dtype), dims=dims, coords=coords, attrs={'units': 'm'})


def coefs(x):
    """discrete Fourier coefficients of a ring, by the definition"""
    n = len(x)
    return [sum(v * cmath.exp(-2j * math.pi * j * k / n) for j, v in enumerate(x)) for k in range(n // 2 + 1)]


def factor(k, n):
    return 1 if k == 0 or 2 * k == n else 2


def rows(da, dim):
    for t in da['time'].values:
        for la in da['lat'].values:
            yield {'time': t, 'lat': la}, da.sel(time=t, lat=la)


def main():
    from metcalcpy.pre_processing import directional_means as dm
    from metcalcpy.pre_processing import waves as wv
    ck = Check('C21', 'means and waves against their definitions')

    for rng, i in ck.cases('mean', 60, 1500):
        nlat = int(rng.integers(3, 20))
        dim = str(rng.choice(['latitude', 'lat', 'y']))
        lat = np.linspace(-90, 90, nlat) if rng.random() < .6 else np.sort(rng.uniform(-89, 89, nlat))
        if rng.random() < .5:
            lat = lat[::-1]
        zdim = str(rng.choice(['longitude', 'lon']))
        lon = np.arange(int(rng.integers(1, 9))) * 10.
        v = rng.normal(size=(nlat, len(lon))) + float(rng.integers(-3, 9))
        if rng.random() < .3:
            v[rng.random(v.shape) < .15] = np.nan
        da = xr.DataArray(v, dims=(dim, zdim), coords={dim: lat, zdim: lon}, name='T')
        if rng.random() < .5:
            da = da.transpose(zdim, dim)
        arg = xr.Dataset({'T': da}) if rng.random() < .3 else da
        lo, hi = sorted(rng.uniform(-90, 90, 2))
        if rng.random() < .4:
            a, b = sorted(rng.choice(nlat, 2, replace=False))
            lo, hi = sorted((float(lat[a]), float(lat[b])))
        inside = [k for k in range(nlat) if lo <= lat[k] <= hi]
        ck.case_input = {'lat': lat, 'limits': (lo, hi), 'values': v}
        kw = {} if dim == 'latitude' and rng.random() < .5 else {'dimvar': dim}
        if inside:
            got = ck.call(dm.meridional_mean, arg, lo, hi, **kw)
            if isinstance(got, Raised):
                ck.expect(False, 'meridional', f'{lo}..{hi}: {got}', monitor='meridional')
            else:
                got = got['T'] if isinstance(got, xr.Dataset) else got
                for j, x in enumerate(lon):
                    ok = [k for k in inside if not math.isnan(v[k, j])]
                    ws = [math.cos(math.radians(lat[k])) for k in ok]
                    g = float(got.sel({zdim: x}))
                    if not ok or sum(ws) < 1e-9:
                        ck.skip('no value in the band')
                        continue
                    want = sum(w * v[k, j] for k, w in zip(ok, ws)) / sum(ws)
                    ck.expect(close(g, want, 1e-9), 'meridional', lambda: f'mean of {lo}..{hi}: {g}, expected {want}', monitor='meridional')
                    ck.nontrivial('meridional', round(want, 12))
        bad = ck.call(dm.meridional_mean, arg, hi, lo, dimvar=dim)
        ck.expect(isinstance(bad, Raised) and bad.type == 'ValueError', 'meridional/order', lambda: f'limits {hi}..{lo} accepted', monitor='limits')
        bad = ck.call(dm.meridional_mean, arg, lo, np.float64(lo), dimvar=dim)
        ck.expect(isinstance(bad, Raised) and bad.type == 'ValueError', 'meridional/equal', lambda: f'limits {lo}..{lo} accepted', monitor='limits')
        kw = {} if zdim == 'longitude' and rng.random() < .5 else {'dimvar': zdim}
        got = ck.call(dm.zonal_mean, arg, **kw)
        if isinstance(got, Raised):
            ck.expect(False, 'zonal', f'zonal mean: {got}', monitor='zonal')
        else:
            got = got['T'] if isinstance(got, xr.Dataset) else got
            for k in range(nlat):
                x = [w for w in v[k] if not math.isnan(w)]
                g = float(got.sel({dim: lat[k]}))
                want = math.fsum(x) / len(x) if x else math.nan
                ck.expect(math.isnan(g) if not x else close(g, want, 1e-9), 'zonal', lambda: f'zonal mean {g}, expected {want}', monitor='zonal')

    for rng, i in ck.cases('waves', 70, 1500):
        n = int(rng.choice([3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 24]))
        dim = str(rng.choice(['longitude', 'longitude', 'lon']))
        da = field(rng, n, dim)
        if rng.random() < .2:
            da.values[tuple(int(rng.integers(s)) for s in da.shape)] = np.nan     # one circle is not complete
        pkg = str(rng.choice(['scipy', 'xrft']))
        kw = {'fftpkg': pkg} if pkg == 'xrft' or rng.random() < .5 else {}
        if dim != 'longitude' or rng.random() < .5:
            kw['dimvar'] = dim
        waves = None
        if rng.random() < .5:
            waves = sorted(int(v) for v in rng.choice(n // 2 + 1, int(rng.integers(1, n // 2 + 2)), replace=False))
            if rng.random() < .3:
                waves = waves[::-1]
            kw['waves'] = waves
        ks = waves if waves is not None else list(range(n // 2 + 1))
        ck.case_input = {'n': n, 'dims': da.dims, 'kw': kw, 'values': da.values}
        scale = float(np.nanmax(np.abs(da.values)))
        keep = da.values.copy()
        fc = ck.call(wv.zonal_wave_coeffs, da, **kw)
        ap = ck.call(wv.zonal_wave_ampl_phase, da, **({'phase_deg': bool(i % 2)} if i % 4 else {}), **kw)
        co = ck.call(wv.zonal_wave_contributions, da, **kw)
        other = field(rng, n, dim)
        other = xr.DataArray(rng.normal(size=da.shape) * 3 + 1, dims=da.dims, coords=da.coords)
        k2 = {k: v for k, v in kw.items() if k != 'dimvar'}
        cv = ck.call(wv.zonal_wave_covariance, da, other, dimvar1=dim, dimvar2=dim, **k2)
        bad = [x for x in (fc, ap, co, cv) if isinstance(x, Raised)]
        if bad:
            ck.expect(False, 'waves', f'{n} longitudes {pkg} waves {waves}: {bad[0]}', monitor='waves')
            continue
        ck.expect(np.array_equal(keep, da.values, equal_nan=True), 'waves/input', 'the field was changed', monitor='inputs')
        ck.expect(all(list(x['lon_wavenum'].values) == list(ks) for x in (fc, ap[0], co, cv)), 'waves/labels',
                  lambda: f'wavenumbers {[list(x["lon_wavenum"].values) for x in (fc, ap[0], co, cv)]}, asked for {ks}', monitor='labels')
        phase = ap[1] if isinstance(ap[1], xr.DataArray) else xr.DataArray(ap[1], dims=fc.dims, coords=fc.coords)
        for at, row in rows(da, dim):
            x = row.values.tolist()
            if any(math.isnan(w) for w in x):
                ck.expect(all(np.isnan(z.sel(at).values).all() for z in (fc, ap[0], co, cv)), 'waves/missing', lambda: f'waves of a circle with a missing value: '
                          f'{fc.sel(at).values}', monitor='missing')
                continue
            y = other.sel(at).values.tolist()
            fx, fy = coefs(x), coefs(y)
            tol = 1e-9 * n * (scale + 1)
            for k in ks:
                sel = dict(at, lon_wavenum=k)
                g = complex(fc.sel(sel).values)
                ck.expect(abs(g - fx[k]) < tol, 'waves/coefficient', lambda: f'wave {k}: {g}, definition {fx[k]}', monitor='coefficients')
                a = factor(k, n) * abs(fx[k]) / n
                g = float(ap[0].sel(sel))
                ck.expect(abs(g - a) < tol, 'waves/amplitude', lambda: f'wave {k} of {n}: amplitude {g}, expected {a}', monitor='amplitude')
                if abs(fx[k]) > 1e-6 * scale:
                    g = float(phase.sel(sel))
                    g = math.radians(g) if i % 2 else g
                    ck.expect(abs(cmath.exp(1j * g) - fx[k] / abs(fx[k])) < 1e-6, 'waves/phase', lambda: f'wave {k}: phase {g}, expected '
                              f'{cmath.phase(fx[k])}', monitor='phase')
                c = factor(k, n) * (fx[k] * fy[k].conjugate()).real / n ** 2
                g = float(cv.sel(sel))
                ck.expect(abs(g - c) < tol * 20, 'waves/covariance', lambda: f'wave {k} of {n}: covariance {g}, expected {c}', monitor='covariance')
                w = [factor(k, n) * (fx[k] * cmath.exp(2j * math.pi * j * k / n)).real / n for j in range(n)]
                g = co.sel(sel).values.tolist()
                ck.expect(len(g) == n and all(abs(u - v) < tol for u, v in zip(g, w)), 'waves/contribution',
                          lambda: f'wave {k} of {n}: {g}, expected {w}', monitor='contribution')
            if waves is None:
                # all waves together give the field and the mean product back
                tot = co.sel(at).sum('lon_wavenum').values
                ck.expect(np.allclose(tot, x, atol=tol), 'waves/sum', lambda: f'sum of the waves {tot}, field {x}', monitor='sum')
                m = math.fsum(u * v for u, v in zip(x, y)) / n
                g = float(cv.sel(at).sum('lon_wavenum'))
                ck.expect(abs(g - m) < 20 * tol, 'waves/parseval', lambda: f'sum of the covariances {g}, mean product {m}', monitor='sum')
            ck.nontrivial('waves', n, pkg, round(abs(fx[-1]), 9))
        bad = ck.call(wv.zonal_wave_coeffs, da, dimvar=dim, fftpkg='numpy')
        ck.expect(isinstance(bad, Raised) and bad.type == 'ValueError', 'waves/package', lambda: f'unknown package: {bad}', monitor='package')
        ck.sample({'n': n, 'dims': list(da.dims), 'package': pkg, 'waves': waves})
    ck.finish(1000)


main_guard(main)
