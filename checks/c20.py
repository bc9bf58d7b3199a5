"""C20: heights of pressure levels and interpolation of fields to height levels."""
import math
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd
import xarray as xr
import yaml

from vlib import Check, Raised, close, is_missing, main_guard

G, RD, EPSILON = 9.80665, 287.04749097718457, .6219569100577033
# a unit that is not known is taken for the unit of the levels
METRES = {'meter': 1., 'kilometer': 1000., 'foot': .3048, 'm': 1., 'km': 1000.}
UNKNOWN = ['gpm', 'geopotential_meter']
PASCAL = {'Pa': 1., 'hPa': 100., 'millibar': 100.}


def interp(z, f, eta):
    """linear in z, constant beyond the ends; None when undecided"""
    ok = [k for k in range(len(z)) if not math.isnan(z[k])]
    if not ok:
        return math.nan
    first = ok[0]
    tol = 1e-9 * max(1, abs(eta))
    if eta < z[first] - tol:
        return f[first] if first == 0 else math.nan
    if abs(eta - z[first]) <= tol:
        return f[first] if first == 0 or eta == z[first] else None
    for k in range(first + 1, len(z)):
        if eta <= z[k]:
            w = (eta - z[k - 1]) / (z[k] - z[k - 1])
            if w == 1 or w == 0:
                return f[k] if w else f[k - 1]
            return (1 - w) * f[k - 1] + w * f[k]
    return f[-1]


def grid(rng):
    nlat, nlon = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    return np.linspace(-40., 50, nlat) if nlat > 1 else np.array([10.]), np.arange(nlon) * 20.


def array(values, dims, coords, units):
    return xr.DataArray(values, dims=dims, coords=coords, attrs={'units': units})


def field_case(rng):
    lat, lon = grid(rng)
    nlev = int(rng.integers(2, 8))
    lev = np.sort(rng.choice(np.arange(100, 1001, 25), nlev, replace=False))[::-1].astype(float)
    order = [('lev', 'lat', 'lon'), ('lat', 'lev', 'lon'), ('lat', 'lon', 'lev')][int(rng.integers(0, 3))]
    name = str(rng.choice(['lev', 'isobaricInhPa']))
    order = tuple(name if d == 'lev' else d for d in order)
    coords = {name: lev, 'lat': lat, 'lon': lon}
    shape = tuple(len(coords[d]) for d in order)
    return name, lev, lat, lon, order, coords, shape


def esat(t):
    return 611.2 * math.exp(17.67 * (t - 273.15) / (t - 29.65))


def heights(ps, phis, lev, tk, rh, wmo):
    """hypsometric heights of one column (pressures in Pa, bottom first)"""
    z, prev_p, prev_z = [], ps, phis / G
    for p, t, r in zip(lev, tk, rh):
        if p >= ps:
            z.append(math.nan)
            continue
        e = esat(t)
        ws = EPSILON * e / (p - e)
        # relative humidity as ratio of mixing ratios (WMO) or of vapour pressures
        w = r * ws if wmo else EPSILON * ws * r / (EPSILON + ws * (1 - r))
        tv = t * (w + EPSILON) / (EPSILON * (1 + w))
        prev_z += RD / G * tv * math.log(prev_p / p)
        prev_p = p
        z.append(prev_z)
    return z


def main():
    from metcalcpy.vertical_interp import height_from_pressure, vertical_interp
    import metpy.constants as mc
    ck = Check('C20', 'vertical interpolation and heights against an independent reference')
    for rng, i in ck.cases('interp', 60, 900):
        name, lev, lat, lon, order, coords, shape = field_case(rng)
        ax = order.index(name)
        unit = str(rng.choice(list(METRES)))
        lev_unit = unit if rng.random() < .5 else str(rng.choice(list(METRES)))
        if rng.random() < .15:
            unit = lev_unit = str(rng.choice(list(METRES)))
        z = np.moveaxis(np.cumsum(rng.uniform(50, 3000, (len(lev), len(lat), len(lon))), axis=0), 0, ax)
        if rng.random() < .4:
            # the lowest surfaces are below the ground in places
            cut = rng.integers(0, len(lev), (len(lat), len(lon)))
            idx = np.moveaxis(np.broadcast_to(np.arange(len(lev))[:, None, None], (len(lev), len(lat), len(lon))), 0, ax)
            z = np.where(idx < np.expand_dims(cut, ax), np.nan, z)
        f = rng.normal(size=shape) * float(10. ** rng.integers(-4, 3)) + float(rng.integers(-3, 4))
        if rng.random() < .4:
            # a missing value counts only where it is needed
            f = np.where(np.isnan(z) | (rng.random(shape) < .1), np.nan, f)
        levels = sorted(float(v) for v in rng.uniform(0, 1.1 * np.nanmax(z), int(rng.integers(1, 6)))) if np.any(np.isfinite(z)) else [100.]
        if unit == lev_unit and rng.random() < .5:
            # a level exactly on a surface
            v = z[np.isfinite(z)]
            if v.size:
                levels.append(float(rng.choice(v)))
        ratio = METRES[unit] / METRES[lev_unit]
        cfg = {'vertical_dim_name': name, 'vertical_levels': [v * ratio if unit != lev_unit else v for v in levels],
               'vertical_level_units': lev_unit}
        F = array(f, order, coords, 'K')
        Z = array(z, order, coords, str(rng.choice(UNKNOWN)) if unit == lev_unit and rng.random() < .3 else unit)
        keep = f.copy(), z.copy()
        ck.case_input = {'config': cfg, 'unit': unit, 'shape': shape, 'order': order}
        got = ck.call(vertical_interp, 'T', cfg, Z, F)
        if isinstance(got, Raised):
            ck.expect(False, 'interp', f'{order} {unit}->{lev_unit}: {got}', monitor='interp')
            continue
        out = got[0]
        want_dims = tuple('lev' if d == name else d for d in order)
        ck.expect(out.dims == want_dims and out.sizes['lev'] == len(levels) and np.allclose(out['lev'].values, cfg['vertical_levels']),
                  'interp/shape', lambda: f'dims {out.dims} of {want_dims}', monitor='interp.shape')
        ck.expect(np.array_equal(F.values, keep[0], equal_nan=True) and np.array_equal(Z.values, keep[1], equal_nan=True), 'interp/inputs',
                  'an input array was changed', monitor='interp.inputs')
        for a in range(len(lat)):
            for b in range(len(lon)):
                col = {'lat': lat[a], 'lon': lon[b]}
                zc = Z.sel(col).values.tolist()
                fc = F.sel(col).values.tolist()
                for k, eta in enumerate(levels):
                    w = interp(zc, fc, eta)
                    g = float(out.isel(lev=k).sel(col).values)
                    if w is None or (unit != lev_unit and any(abs(v - eta) < 1e-6 * abs(eta) for v in zc)):
                        ck.skip('level at the lowest surface')
                        continue
                    ck.expect(is_missing(g) if math.isnan(w) else close(g, w, 1e-9 * (1 + np.nanmax(np.abs([0.] + fc))), 1e-7), 'interp/value',
                              lambda: f'{eta} {unit} in surfaces {zc} of {fc}: {g}, expected {w}', monitor='interp')
                    if not math.isnan(w) and zc[0] < eta < zc[-1]:
                        ck.nontrivial('interp', round(w, 12))
        ck.sample({'order': order, 'levels': levels, 'surface unit': unit, 'level unit': lev_unit})

    g_ref = float(mc.earth_gravity.to_base_units().magnitude)
    rd_ref = float(mc.dry_air_gas_constant.to_base_units().magnitude)
    if abs(g_ref - G) > 1e-3 or abs(rd_ref - RD) > .05:
        ck.skip('other constants')
    tmp = tempfile.mkdtemp(prefix='c20_')

    def column_case(rng):
        name, lev, lat, lon, order, coords, shape = field_case(rng)
        if lev[0] - lev[-1] < 60:
            lev[-1] = 50.
        u_lev, u_ps = str(rng.choice(list(PASCAL))), str(rng.choice(list(PASCAL)))
        ax = order.index(name)
        tk = np.moveaxis(300. - np.cumsum(rng.uniform(0, 12, (len(lev), len(lat), len(lon))), axis=0), 0, ax)
        rh = rng.uniform(0, 1, shape)
        ps = rng.uniform(55000., 104000., (len(lat), len(lon)))
        if rng.random() < .5:
            # the surface exactly on a level
            ps[int(rng.integers(len(lat))), int(rng.integers(len(lon)))] = 100 * float(rng.choice(lev))
        phis = rng.uniform(0, 30000, ps.shape)
        lv = xr.DataArray(lev * 100 / PASCAL[u_lev], dims=(name,), attrs={'units': u_lev})
        co = {name: lv, 'lat': lat, 'lon': lon}
        c2 = {'lat': lat, 'lon': lon}
        return name, lev, lat, lon, order, tk, rh, ps, phis, array(tk, order, co, 'K'), array(rh, order, co, 'dimensionless'), \
            array(ps / PASCAL[u_ps], ('lat', 'lon'), c2, u_ps), array(phis, ('lat', 'lon'), c2, 'm**2 s**-2'), (u_lev, u_ps)

    for rng, i in ck.cases('height', 40, 600):
        name, lev, lat, lon, order, tk, rh, ps, phis, T, RH, PS, PH, u = column_case(rng)
        ck.case_input = {'lev': lev, 'ps': ps, 'order': order, 'units': u}
        got = ck.call(height_from_pressure, {'vertical_dim_name': name}, PH, PS, T, RH)
        if isinstance(got, Raised):
            ck.expect(False, 'height', f'{order} {u}: {got}', monitor='height')
            continue
        ax = order.index(name)
        tt, rr = np.moveaxis(tk, ax, 0), np.moveaxis(rh, ax, 0)
        for a in range(len(lat)):
            for b in range(len(lon)):
                if u[0] != u[1] and np.any(np.abs(lev * 100 - ps[a, b]) < 1e-6):
                    ck.skip('surface on a level in other units')
                    continue
                want, other = (heights(float(ps[a, b]), float(phis[a, b]), [float(v) * 100 for v in lev], tt[:, a, b], rr[:, a, b], k)
                               for k in (True, False))
                col = got.sel({'lat': lat[a], 'lon': lon[b]}).values
                ck.expect(any(all(is_missing(g) if math.isnan(w) else abs(g - w) < .01 + 1e-6 * abs(w) for g, w in zip(col, ref))
                              for ref in (want, other)), 'height/value',
                          lambda: f'surface {ps[a, b]} Pa, levels {lev}: heights {col}, expected {want}', monitor='height')
                ck.nontrivial('height', round(float(ps[a, b]), 6))
        ck.sample({'levels': lev.tolist(), 'units': u})

    # the program as a whole: heights computed or read, several times, created time dimensions
    for rng, i in ck.cases('program', 5, 30):
        d = os.path.join(tmp, str(i))
        os.makedirs(d)
        name, lev, lat, lon, order, tk, rh, ps, phis, T, RH, PS, PH, u = column_case(rng)
        mode = ['plain', 'times', 'read', 'created', 'reference'][i % 5]
        Q = T.copy(data=rng.normal(size=T.shape) + 3)
        Q.attrs['units'] = 'kg kg**-1'
        src = xr.Dataset({'T': T, 'RH': RH, 'PS': PS, 'PHIS': PH, 'Q': Q}, attrs={'title': f'case {i}'})
        src['ZG'] = T.copy(data=np.moveaxis(np.cumsum(rng.uniform(50, 3000, (len(lev), len(lat), len(lon))), axis=0), 0, order.index(name)))
        src['ZG'].attrs['units'] = 'm'
        start = np.datetime64('2019-01-30T00', 'ns') + np.timedelta64(int(rng.integers(0, 24)), 'h')
        ahead = np.cumsum(np.array([0] + [int(v) for v in rng.integers(6, 60, 2)])) * 3600
        if mode == 'times':
            # every time has its own columns
            parts = []
            for s in ahead:
                x = src.copy(deep=True)
                x['PS'] = PS.copy(data=PS.values * rng.uniform(.8, 1., PS.shape))
                x['T'] = T.copy(data=T.values + rng.normal(0, 3, T.shape))
                parts.append(x.expand_dims(time=[start + np.timedelta64(int(s), 's')]))
            src = xr.concat(parts, 'time')
        elif mode == 'created':
            src['time'], src['valid_time'] = start, start + np.timedelta64(int(ahead[2]), 's')
        for v in src.variables.values():
            v.encoding = {}
        src.to_netcdf(os.path.join(d, 'in.nc'), format='NETCDF4')
        zero = bool(rng.random() < .4)
        cfg = {'height_from_pressure': mode != 'read', 'zero_surface_geopotential': zero, 'surface_geopotential_name': 'PHIS', 'surface_pressure_name': 'PS',
               'temperature_name': 'T', 'relative_humidity_name': 'RH', 'geopotential_height_name': 'ZG', 'fields': ['T', 'Q'], 'vertical_coord_type_in': 'pressure',
               'vertical_coord_type_out': 'height', 'vertical_dim_name': name,
               'vertical_levels': sorted(float(v) for v in rng.integers(0, 9000, 4)), 'vertical_level_units': 'meter'}
        with open(os.path.join(d, 'c.yaml'), 'w') as fh:
            yaml.safe_dump(cfg, fh)
        import metcalcpy.vertical_interp as module
        stamp = pd.Timestamp(start).strftime('%Y%m%d%H')
        name_out = f'out.{stamp}.nc' if mode == 'reference' else 'out.nc'
        p = subprocess.run([sys.executable, '-W', 'ignore', module.__file__, '--datadir', d, '--input', 'in.nc', '--config',
                            os.path.join(d, 'c.yaml'), '--output', name_out] + {'created': ['--create_time_dim'], 'reference': ['--ref_time_from_filename']}.get(mode, []),
                           capture_output=True, text=True, cwd=d, env=dict(os.environ, TZ='UTC'))
        ck.case_input = {'config': cfg, 'mode': mode}
        path = os.path.join(d, name_out)
        if p.returncode or not os.path.exists(path):
            ck.expect(False, 'program', f'{mode}: no output: {p.stderr[-300:]}', monitor='program')
            continue
        with xr.open_dataset(path, decode_times=False) as ds:
            out = ds.load()
        with xr.open_dataset(os.path.join(d, 'in.nc')) as ds:
            src = ds.load()
        if mode == 'read':
            h = src['ZG']
        else:
            z0 = xr.zeros_like(src['PHIS']) if zero else src['PHIS']
            h = ck.call(height_from_pressure, cfg, z0, src['PS'], src['T'], src['RH'])
        for f in ('T', 'Q'):
            w = ck.call(vertical_interp, f, cfg, h, src[f])
            ok = not isinstance(w, Raised) and f in out
            g = out[f].values if ok else None
            if ok and mode == 'created':
                ok = out[f].dims[0] == 'valid_time' and len(g) == 1
                g = g[0]
            ck.expect(ok and g.shape == w[0].shape and np.allclose(g, w[0].values, rtol=1e-5, atol=1e-5, equal_nan=True), 'program/' + f,
                      lambda: f'{mode}: {f} in the output differs from the interpolated field', monitor='program')
            ck.expect(f in out and out[f].attrs.get('units') == src[f].attrs['units'], 'program/units', lambda: f'{mode}: {f} lost its units', monitor='program')
        ck.expect(out.attrs.get('title') == f'case {i}', 'program/title', lambda: f'{mode}: attributes {out.attrs}', monitor='program')
        ck.expect(np.allclose(out['lat'], lat) and np.allclose(out['lon'], lon) and np.allclose(out['lev'], cfg['vertical_levels']), 'program/coords',
                  'coordinates of the output', monitor='program')
        if mode == 'times':
            ck.expect('time' in out and np.array_equal(out['time'].values, ahead), 'program/times', lambda: f'{list(out.get("time", []))} seconds of {ahead}', monitor='program')
        elif mode == 'created':
            ck.expect(out['valid_time'].values.tolist() == [float(ahead[2])] and str(pd.Timestamp(start)) in out['valid_time'].attrs.get('units', ''), 'program/valid',
                      lambda: f'{out["valid_time"]} for {ahead[2]} seconds after {start}', monitor='program')
        elif mode == 'reference':
            want = (start - np.datetime64('1970-01-01', 'ns')) / np.timedelta64(1, 's')
            ck.expect('forecast_reference_time' in out and out['forecast_reference_time'].values.tolist() == [float(want)], 'program/reference',
                      lambda: f'{out.get("forecast_reference_time")} of {want}', monitor='program')
        ck.nontrivial('program', mode, i)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(300)


main_guard(main)
