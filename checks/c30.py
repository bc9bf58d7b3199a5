"""C30: activity and skill of convectively coupled equatorial waves."""
import math
import os
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from vlib import Check, Raised, main_guard

NAMES = {'Kelvin': ('EOF_1-4_130-270E_-15S-15N_persiann_cdr_{}_nlat{}_fillmiss8314_1983-2016_Kelvinband_', 4),
         'ER': ('EOF_1-4_60-220E_-21S-21N_persiann_cdr_{}_nlat{}_fillmiss8314_1983-2016_ERband_', 4),
         'MJO': ('EOF_1-4_30-240E_-21S-21N_persiann_cdr_{}_nlat{}_fillmiss8314_1983-2016_MJOband_', 4),
         'MRG': ('EOF_1-2_150-210E_-21S-21N_precip.trmm.8x.1deg.lats{1}.v7a.fillmiss.comp.1998-201806_MRGband_', 2)}


def stub_plotting():
    """the exporter of figures is not installed; nothing here draws"""
    for name in ('plotly', 'plotly.graph_objects', 'kaleido', 'kaleido.scopes', 'kaleido.scopes.plotly'):
        try:
            __import__(name)
        except ImportError:
            sys.modules[name] = types.ModuleType(name)
    if not hasattr(sys.modules['kaleido.scopes.plotly'], 'PlotlyScope'):
        sys.modules['kaleido.scopes.plotly'].PlotlyScope = object


def cycle_removed(x, tm):
    day = pd.DatetimeIndex(tm).strftime('%m-%d').values
    out = np.empty_like(x)
    for d in set(day):
        out[day == d] = x[day == d] - np.nanmean(x[day == d], 0)
    return out


def projected(x, tm, lat, lon, eofs, elat, elon):
    """sum over the points of both grids"""
    mon = pd.DatetimeIndex(tm).month.values
    iy = [(np.where(lat == v)[0][0], j) for j, v in enumerate(elat) if v in lat]
    ix = [(np.where(lon == v)[0][0], j) for j, v in enumerate(elon) if v in lon]
    out = np.zeros((eofs.shape[1], len(tm)))
    for t in range(len(tm)):
        e = eofs[0 if len(eofs) == 1 else mon[t] - 1]
        for n in range(len(e)):
            out[n, t] = math.fsum(e[n, b, d] * x[t, a, c] for a, b in iy for c, d in ix)
    return out


def setting(rng):
    lat, lon = np.arange(-int(rng.integers(2, 4)), int(rng.integers(3, 5))) * 2., np.arange(0, int(rng.integers(5, 9))) * 3.
    y0, y1 = sorted(int(v) for v in rng.choice(len(lat) + 1, 2, replace=False))
    x0, x1 = sorted(int(v) for v in rng.choice(len(lon) + 1, 2, replace=False))
    spd = int(rng.choice([1, 1, 2]))
    kind = rng.random()
    if kind < .2:
        # one day of the year twice, the rest once
        one = pd.date_range(f'2001-{int(rng.integers(2, 12)):02d}-{int(rng.integers(10, 25)):02d}', periods=int(rng.integers(2, 9)) * spd, freq=f'{24 // spd}H')
        n = int(rng.integers(1, 6))
        again = one[:spd] - pd.Timedelta(days=n - 1) if rng.random() < .5 else one[-spd:]
        more = pd.date_range(again[0] + pd.DateOffset(years=1), periods=n * spd, freq=f'{24 // spd}H')
        tm = np.concatenate([one.values, more.values])
    elif kind < .6:
        # several years of the same days
        y, k = int(rng.integers(2001, 2005)), int(rng.integers(1, 4))
        date = '02-25' if rng.random() < .3 else f'{int(rng.integers(1, 12)):02d}-{int(rng.integers(1, 25)):02d}'
        days = int(rng.integers(2, 9))
        tm = np.concatenate([pd.date_range(f'{y + j}-{date}', periods=days * spd, freq=f'{24 // spd}H').values for j in range(k)])
    else:
        tm = pd.date_range(f'2003-{int(rng.integers(1, 12)):02d}-20', periods=int(rng.integers(3, 30)) * spd, freq=f'{24 // spd}H').values
    x = rng.normal(size=(len(tm), len(lat), len(lon))) + 3
    if rng.random() < .3:
        x[rng.random(x.shape) < .05] = np.nan         # points without a value
    return lat, lon, lat[y0:y1], lon[x0:x1], spd, tm, x


def main():
    stub_plotting()
    warnings.simplefilter('ignore')
    from metcalcpy.contributed.tropical_diagnostics import ccew_activity as cc
    ck = Check('C30', 'anomalies by calendar day, sums of products with pattern files written for the run, correlations')
    tmp = tempfile.mkdtemp(prefix='c30_')

    for rng, i in ck.cases('anomaly', 25, 400):
        lat, lon, elat, elon, spd, tm, x = setting(rng)
        da = xr.DataArray(x.copy(), dims=('time', 'lat', 'lon'), coords={'time': tm, 'lat': lat, 'lon': lon})
        ck.case_input = {'times': [str(t) for t in tm], 'x': x}
        for f, want, tag in ((cc.rem_seas_cyc, cycle_removed(x, tm), 'cycle'), (cc.rem_seas_mean, x - np.nanmean(x, 0), 'mean')):
            if tag == 'cycle' and len(set(pd.DatetimeIndex(tm).strftime('%m-%d'))) == len(tm):
                # no day has a climatology of its own
                continue
            got = ck.call(f, da)
            ok = not isinstance(got, Raised) and got.dims == da.dims and np.allclose(got.values, want, atol=1e-9, equal_nan=True) and np.array_equal(got.time.values, tm) and \
                np.array_equal(got.lat.values, lat) and np.array_equal(got.lon.values, lon)
            ck.expect(ok, 'anomaly/' + tag, lambda: f'{len(tm)} times: {got if isinstance(got, Raised) else abs(got.values - want).max()}', monitor=tag)
        ck.expect(np.array_equal(da.values, x, equal_nan=True), 'anomaly/input', 'the data was changed', monitor='inputs')
        eofs = rng.normal(size=(int(rng.choice([1, 12])), int(rng.integers(1, 4)), len(elat), len(elon)))
        ea = xr.DataArray(eofs, dims=('month', 'eofnum', 'lat', 'lon'), coords={'eofnum': np.arange(eofs.shape[1]) + 1, 'lat': elat, 'lon': elon})
        got = ck.call(cc.waveproj, da, ea)
        want = projected(x, tm, lat, lon, eofs, elat, elon)
        ok = not isinstance(got, Raised) and got.dims == ('eofnum', 'time') and np.allclose(got.values, want, atol=1e-9, equal_nan=True)
        ck.expect(ok, 'projection', lambda: f'{eofs.shape} patterns: {got if isinstance(got, Raised) else abs(got.values - want).max()}', monitor='projection')
        ck.nontrivial('anomaly', len(tm), eofs.shape, len(set(pd.DatetimeIndex(tm).month)))
        got = ck.call(cc.get_timestr, da['time'])
        want = [pd.Timestamp(t).strftime('%Y-%m-%d %H:%M') for t in tm]
        ck.expect(not isinstance(got, Raised) and list(got) == want, 'label', lambda: f'{got if isinstance(got, Raised) else list(got)[:3]}, expected {want[:3]}', monitor='label')

    for rng, i in ck.cases('activity', 16, 250):
        lat, lon, elat, elon, spd, tm, x = setting(rng)
        wave = list(NAMES)[i % 4]
        name, ne = NAMES[wave]
        tres = 'monthly' if rng.random() < .5 else 'annual'
        eofs = rng.normal(size=(12 if tres == 'monthly' else 1, ne, len(elat), len(elon)))
        res, nlat = str(rng.choice(['1p0', '2p5'])), int(rng.choice([180, 181]))
        d = tempfile.mkdtemp(dir=tmp)
        for k in range(len(eofs)):
            xr.Dataset({'eof': (('eofnum', 'lat', 'lon'), eofs[k])}, coords={'eofnum': np.arange(ne) + 1, 'lat': elat, 'lon': elon}).to_netcdf(
                os.path.join(d, name.format(res, nlat) + ('annual' if tres == 'annual' else f'{k + 1:02d}') + '.nc'))
        da = xr.DataArray(x.copy(), dims=('time', 'lat', 'lon'), coords={'time': tm, 'lat': lat, 'lon': lon})
        if rng.random() < .5:
            da.attrs['units'] = 'mm/day'
        ck.case_input = {'wave': wave, 'patterns': tres, 'times': [str(t) for t in tm], 'x': x, 'per_day': spd}
        got = ck.call(cc.waveact, da, wave if rng.random() < .5 else wave.lower(), d + '/', spd, res, nlat, tres)
        doy = pd.DatetimeIndex(tm).dayofyear.values[::spd]
        repeated = len(set(doy)) < len(doy)
        anom = cycle_removed(x, tm) if repeated else x - np.nanmean(x, 0)
        want = np.sqrt((projected(anom, tm, lat, lon, eofs, elat, elon) ** 2).sum(0))
        ok = not isinstance(got, Raised) and np.allclose(got.values, want, atol=1e-9, equal_nan=True) and np.array_equal(got.time.values, tm)
        ck.expect(ok, 'activity', lambda: f'{wave} {tres} days {"repeated" if repeated else "once"}: {got if isinstance(got, Raised) else abs(got.values - want).max()}',
                  monitor='activity')
        if not isinstance(got, Raised):
            ck.expect(got.attrs.get('units') == da.attrs.get('units'), 'activity/units', lambda: f'{got.attrs}', monitor='activity')
        ck.expect(np.array_equal(da.values, x, equal_nan=True), 'activity/input', 'the data was changed', monitor='inputs')
        ck.nontrivial('activity', wave, tres, repeated, len(tm))
        shutil.rmtree(d)

    for rng, i in ck.cases('skill', 80, 2000):
        nf, nl, nt = int(rng.integers(1, 5)), int(rng.integers(2, 5)), int(rng.integers(3, 20))
        act = rng.normal(size=(nf, nl, nt))
        act[:, 1:] += rng.normal(size=(nf, nl - 1, 1)) * act[:, :1]
        arg = act.copy() if i % 2 else xr.DataArray(act.copy(), dims=('fchrs', 'line', 'time'))
        ck.case_input = {'activity': act}
        got = ck.call(cc.wave_skill, arg)
        a = act - act.mean(2, keepdims=True)
        want = (a[:, 1:] * a[:, :1]).sum(2) / np.sqrt((a[:, 1:] ** 2).sum(2) * (a[:, :1] ** 2).sum(2))
        ck.expect(not isinstance(got, Raised) and np.shape(got) == want.shape and np.allclose(np.asarray(got), want, atol=1e-9), 'skill',
                  lambda: f'{act.shape}: {got if isinstance(got, Raised) else np.asarray(got)}, expected {want}', monitor='skill')
        ck.expect(np.array_equal(np.asarray(arg), act), 'skill/input', 'the activity was changed', monitor='inputs')
        ck.nontrivial('skill', nf, nl, round(float(want[0, 0]), 9))

    for rng, i in ck.cases('patterns', 40, 800):
        nd = int(rng.integers(2, 4))
        shape = tuple(int(v) for v in rng.integers(3, 7, nd))
        dim = int(rng.integers(nd))
        shape = shape[:dim] + (int(rng.integers(4, 9)),) + shape[dim + 1:]
        n, p = shape[dim], int(np.prod(shape)) // shape[dim]
        x = np.moveaxis(rng.normal(size=shape), dim, 0).reshape(n, p) * rng.uniform(.5, 4, p)
        x -= x.mean(0)
        cov = bool(rng.random() < .5)
        red = tuple(s for k, s in enumerate(shape) if k != dim)
        da = xr.DataArray(np.moveaxis(x.reshape((n,) + red), 0, dim).copy(), dims=[f'd{k}' for k in range(nd)])
        ne = int(rng.integers(1, min(n - 1, p) + 1))
        ck.case_input = {'x': da.values, 'dim': dim, 'covariance': cov, 'patterns': ne}
        keep = da.values.copy()
        got = ck.call(cc.eof_comp, da, ne, cc.opt_eof(cov), dim)
        if isinstance(got, Raised):
            ck.expect(False, 'patterns', f'dimension {dim} of {shape}: {got}', monitor='patterns')
            continue
        a = x if cov else x / x.std(0)
        ts, var, eof = (np.asarray(v) for v in got)
        val, vec = np.linalg.eigh(a.T @ a)
        val, vec = val[::-1][:ne], vec[:, ::-1][:, :ne]
        ck.expect(ts.shape == (n, ne) and var.shape == (ne,) and eof.shape == (ne,) + red, 'patterns/shape', lambda: f'{ts.shape} {var.shape} {eof.shape}', monitor='patterns')
        ck.expect(np.allclose(var, val / (a ** 2).sum(), atol=1e-8), 'patterns/variance', lambda: f'{var}, expected {val / (a ** 2).sum()}', monitor='patterns')
        flat = eof.reshape(ne, p)
        for k in range(ne):
            gap = min([abs(val[k] - v) for j, v in enumerate(val) if j != k] + [np.inf])
            if val[k] < 1e-6 * val[0] or gap < 1e-3 * val[0] or k == ne - 1 and ne < min(n - 1, p):
                ck.skip('patterns of nearly equal variance')
                continue
            ck.expect(abs(abs(flat[k] @ vec[:, k]) - 1) < 1e-6, 'patterns/pattern', lambda: f'pattern {k} of {shape} is not a principal direction', monitor='patterns')
            score = a @ flat[k] / math.sqrt(val[k])
            ck.expect(np.allclose(ts[:, k], score, atol=1e-6), 'patterns/series', lambda: f'series {k} is not the projection on its pattern', monitor='patterns')
        ck.expect(np.array_equal(da.values, keep), 'patterns/input', 'the data was changed', monitor='inputs')
        ck.nontrivial('patterns', shape, dim, cov, ne)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(250)


main_guard(main)
