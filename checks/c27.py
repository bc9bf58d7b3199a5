"""C27: space-time spectra, equatorial wave filter, longitude flip."""
import math
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import xarray as xr
from netCDF4 import Dataset

from vlib import Check, Raised, close, main_guard

RE, GRAV, OMEGA = 6.371008e6, 9.80665, 7.292e-05
BETA = 2 * OMEGA / RE


def dft(x, freqs, waves):
    """coefficients at frequency f and eastward wave number k, for every latitude: [f, lat, k]"""
    nt, _, nl = x.shape
    et = np.exp(-2j * np.pi * np.outer(freqs, np.arange(nt)) / nt)
    ex = np.exp(2j * np.pi * np.outer(np.arange(nl), waves) / nl)
    return np.einsum('ft,tyl,lk->fyk', et, x, ex) / (nt * nl)


def spectra(x, y, freqs, waves):
    fx, fy = dft(x, freqs, waves), dft(y, freqs, waves)
    cross = (np.conj(fx) * fy).mean(1)
    return np.array([(abs(fx) ** 2).mean(1), (abs(fy) ** 2).mean(1), cross.real, cross.imag])


def wave_numbers(nl):
    return np.arange(-(nl // 2), nl // 2 + 1)


def smooth(x):
    """1-2-1 along the first axis, the end takes its own value for the missing neighbour"""
    before, after = np.concatenate([x[:1], x[:-1]]), np.concatenate([x[1:], x[-1:]])
    return (before + 2 * x + after) / 4


def detrended(x):
    t = np.arange(x.shape[0]) - (x.shape[0] - 1) / 2
    b = np.tensordot(t, x, (0, 0)) / (t ** 2).sum()
    return x - x.mean(0) - t[:, None, None] * b


def bell(n, pct):
    m = max(int((pct * n + .5) / 2), 1)
    w = np.ones(n)
    for i in range(m):
        w[i] *= (1 - math.cos(math.pi * (i + .5) / m)) / 2
        w[n - 1 - i] *= (1 - math.cos(math.pi * (i + .5) / m)) / 2
    return w


def waves_field(rng, nt, nlat, nl):
    t, x = np.arange(nt)[:, None, None], np.arange(nl)[None, None, :]
    out = rng.normal(size=(nt, nlat, nl)) * .3 + rng.normal() * t / nt
    for _ in range(int(rng.integers(1, 4))):
        k, f, a, p = int(rng.integers(-3, 4)), int(rng.integers(1, max(2, nt // 4))), rng.uniform(.5, 2), rng.uniform(0, 6)
        out = out + a * np.cos(2 * np.pi * (k * x / nl - f * t / nt) + p)
    return out


def dispersion(name, k, c):
    """angular frequency of the equatorial mode at wave number k [1/m] and gravity wave speed c"""
    if name == 'KELVIN':
        return k * c
    if name == 'ER':
        return -BETA * k / (k * k + 3 * BETA / c)
    if name in ('MRG', 'IG0'):
        if k == 0:
            return math.sqrt(BETA * c)
        root = math.sqrt(1 + 4 * BETA / (k * k * c))
        return k * c * (.5 + .5 * root) if k > 0 else k * c * (.5 - .5 * root)
    return math.sqrt({'IG1': 3, 'IG2': 5}[name] * BETA * c + k * k * c * c)


def filtered(parts, nt, nl, spd, tmin, tmax, kmin, kmax, hmin, hmax, name):
    """sum of the components inside the region; None when a limit is too close to call"""
    t, x = np.arange(nt)[:, None], np.arange(nl)[None, :]
    out = np.zeros((nt, nl))
    lims = [nt / (tmax * spd), nt / (tmin * spd)]
    if any(abs(v % 1 - .5) < 1e-6 for v in lims):
        return None, 0
    lo, hi = round(lims[0]), round(lims[1])
    kept = 0
    for k, f, a, p in parts:
        keep = lo <= f <= hi and kmin <= k <= kmax
        if keep and name in ('KELVIN', 'ER', 'MRG', 'IG0', 'IG1', 'IG2'):
            cyc = 86400. / (2 * math.pi * spd) * nt
            for h, low in ((hmin, True), (hmax, False)):
                if h == -9999:
                    continue
                edge = dispersion(name, k / RE, math.sqrt(GRAV * h)) * cyc
                if abs(edge - round(edge)) < 1e-6 and abs(edge) > 1e-9:
                    return None, 0
                keep = keep and (f >= math.floor(edge) if low else f <= math.ceil(edge))
        if keep:
            kept += 1
            out = out + a * np.cos(2 * np.pi * (k * x / nl - f * t / nt) + p)
    return out, kept


def averaged(x, y, seg, over):
    """the four spectra of detrended fields, averaged over tapered segments, without the zero frequency"""
    nt, _, nl = x.shape
    fr, wv = np.arange(seg // 2 + 1), wave_numbers(nl)
    dx, dy, w = detrended(x), detrended(y), bell(seg, .1)[:, None, None]
    starts, s = [], 0
    while s + seg <= nt:
        starts.append(s)
        s += seg + over
    tot = np.zeros((4, len(fr) - 1, len(wv)))
    for s in starts:
        sp = spectra(dx[s:s + seg] * w, dy[s:s + seg] * w, fr[1:], wv)
        tot += np.array([smooth(v) for v in sp])
    return fr, wv, starts, tot / len(starts)


def main():
    import metcalcpy
    from metcalcpy.contributed.spacetime import spacetime as st
    from metcalcpy.contributed.spacetime import spacetime_utils as su
    from metcalcpy.contributed.tropical_diagnostics import utils as tu
    ck = Check('C27', 'spectra against the definition of the transform, filter against known components')
    tmp = tempfile.mkdtemp(prefix='c27_')

    for rng, i in ck.cases('pieces', 60, 1500):
        n = int(rng.integers(2, 30))
        pct = float(rng.choice([.1, .1, .2, .5, 1.]))
        got = ck.call(st.window_cosbell, n, pct)
        ck.expect(not isinstance(got, Raised) and np.allclose(got, bell(n, pct), atol=1e-12), 'window', lambda: f'window {n} {pct}: {got}', monitor='window')
        x = rng.normal(size=n)
        keep = x.copy()
        got = ck.call(st.smooth121_1D, x)
        ck.expect(not isinstance(got, Raised) and np.allclose(got, smooth(x), atol=1e-12) and np.array_equal(x, keep), 'smooth', lambda: f'{x}: {got}', monitor='smooth')
        ck.expect(isinstance(got, Raised) or abs(got.sum() - x.sum()) < 1e-9, 'smooth/sum', lambda: f'sum {got.sum()} of {x.sum()}', monitor='smooth')
        # runs between missing values are smoothed on their own
        x = rng.normal(size=n)
        x[rng.random(n) < .25] = np.nan
        got = ck.call(st.smooth121_1D, x)
        want = np.full(n, np.nan)
        k = 0
        while k < n:
            e = k
            while e < n and not np.isnan(x[e]):
                e += 1
            if e > k:
                want[k:e] = smooth(x[k:e])
            k = e + 1
        ck.expect(not isinstance(got, Raised) and np.allclose(got, want, atol=1e-12, equal_nan=True), 'smooth/missing', lambda: f'{x}: {got}, expected {want}',
                  monitor='smooth')
        ck.nontrivial('pieces', n, pct)

    for rng, i in ck.cases('segment', 80, 1500):
        nt, nlat, nl = int(rng.integers(3, 14)), int(rng.integers(1, 4)), int(rng.integers(3, 12))
        x, y = waves_field(rng, nt, nlat, nl), waves_field(rng, nt, nlat, nl)
        kx, ky = x.copy(), y.copy()
        ck.case_input = {'shape': x.shape, 'x': x, 'y': y}
        wv = wave_numbers(nl)
        for name, fr in (('realfft', np.arange(nt // 2 + 1)), ('full', np.arange(-(nt // 2), nt // 2 + 1))):
            f = st.mjo_cross_segment_realfft if name == 'realfft' else st.mjo_cross_segment
            got = ck.call(f, x, y)
            want = spectra(x, y, fr, wv)
            if isinstance(got, Raised) or got.shape != (8, len(fr), len(wv)):
                ck.expect(False, f'segment/{name}/shape', f'{nt} times {nl} longitudes: {got if isinstance(got, Raised) else got.shape}', monitor='segment')
                continue
            for v, what in enumerate(('power of x', 'power of y', 'co-spectrum')):
                ck.expect(np.allclose(got[v], want[v], atol=1e-9), f'segment/{name}/{v}', lambda: f'{what} of {nt}x{nl} differs', monitor='segment')
            q = [want[3]] if name == 'realfft' else [want[3], -want[3]]
            ck.expect(any(np.allclose(got[3], w, atol=1e-9) for w in q), f'segment/{name}/3', lambda: f'quadrature of {nt}x{nl} differs', monitor='segment')
        ck.expect(np.array_equal(x, kx) and np.array_equal(y, ky), 'segment/inputs', 'an input changed', monitor='inputs')
        ck.nontrivial('segment', nt, nl, nlat)

    for rng, i in ck.cases('cross', 100, 1500):
        seg = int(rng.integers(6, 28))
        nlat, nl = int(rng.integers(1, 4)), int(rng.integers(3, 10))
        over = int(rng.integers(-seg // 2, 4))
        nt = seg * int(rng.integers(1, 5)) + int(rng.choice([0, 0, 1, 3]))
        x, y = waves_field(rng, nt, nlat, nl), waves_field(rng, nt, nlat, nl)
        if i % 3 == 0:
            y = .7 * np.roll(x, int(rng.integers(0, 4)), axis=0) + .1 * y
        kx, ky = x.copy(), y.copy()
        ck.case_input = {'times': nt, 'segment': seg, 'overlap': over, 'x': x, 'y': y}
        arg = (xr.DataArray(x, dims=('time', 'lat', 'lon')), xr.DataArray(y, dims=('time', 'lat', 'lon'))) if i % 2 else (x, y)
        got = ck.call(st.mjo_cross, arg[0], arg[1], seg, over)
        if isinstance(got, Raised):
            ck.expect(False, 'cross', f'{nt} times in segments of {seg}, {over}: {got}', monitor='cross')
            continue
        fr, wv, starts, tot = averaged(x, y, seg, over)
        stc = got['STC']
        ck.expect(got['nseg'] == len(starts), 'cross/segments', lambda: f'{got["nseg"]} segments of {seg} in {nt} times ({over}), expected {len(starts)}', monitor='segments')
        ok = stc.shape == (8, len(fr), len(wv)) and len(got['freq']) == len(fr) and np.allclose(got['freq'], fr / seg) and np.array_equal(got['wave'], wv)
        ck.expect(ok, 'cross/axes', lambda: f'segment of {seg}: {stc.shape}, frequencies {np.asarray(got["freq"])[:3]}.., expected {fr[:3] / seg}..', monitor='axes')
        ck.expect(close(got['dof'], 2.667 * len(starts), 1e-9), 'cross/dof', lambda: f'degrees of freedom {got["dof"]}', monitor='segments')
        ck.expect(np.array_equal(x, kx) and np.array_equal(y, ky), 'cross/inputs', 'an input changed', monitor='inputs')
        if not ok:
            continue
        px, py, c, q = tot
        scale = max(px.max(), py.max())
        for v in range(4):
            ck.expect(np.allclose(stc[v, 1:], tot[v], atol=1e-9 * scale + 1e-15, rtol=1e-7), f'cross/{v}', lambda: f'spectrum {v} differs by {abs(stc[v, 1:] - tot[v]).max()}',
                      monitor='cross')
        big = (px > 1e-6 * scale) & (py > 1e-6 * scale) & (c ** 2 + q ** 2 > 1e-12 * scale ** 2)
        amp = np.sqrt(c ** 2 + q ** 2)
        for v, want in ((4, amp ** 2 / (px * py)), (6, -q / amp), (7, c / amp)):
            ck.expect(np.allclose(stc[v, 1:][big], want[big], atol=1e-5), f'cross/{v}', lambda: f'entry {v} differs', monitor='coherence')
        ck.expect(np.allclose(np.exp(1j * stc[5, 1:][big]), ((c + 1j * q) / amp)[big], atol=1e-5), 'cross/5', 'phase differs', monitor='coherence')
        ck.expect(bool(np.all(stc[4, 1:][big] <= 1 + 1e-9)), 'cross/coherence', 'coherence above one', monitor='coherence')
        ck.nontrivial('cross', nt, seg, over, nl)
        ck.sample({'times': nt, 'segment': seg, 'overlap': over, 'segments': len(starts)})
        # written and read back
        if i % 5 == 0:
            stc[:, -1, :2] = 0                        # zero is a value
            res = ck.call((su if i % 2 else tu).save_Spectra, stc, got['freq'], got['wave'], 'spec', tmp + '/')
            path = os.path.join(tmp, 'spec.nc')
            if isinstance(res, Raised) or not os.path.exists(path):
                ck.expect(False, 'file', f'{res}', monitor='file')
                continue
            with Dataset(path) as nc:
                same = np.allclose(np.ma.filled(nc['STC'][:], np.nan), stc, rtol=1e-12, atol=0, equal_nan=True) and np.allclose(nc['freq'][:], got['freq'], rtol=1e-12, atol=1e-15) and \
                    np.array_equal(nc['wnum'][:], wv) and np.array_equal(nc['var'][:], np.arange(8))
            ck.expect(same, 'file', 'the file does not hold the spectra', monitor='file')
            os.unlink(path)

    for rng, i in ck.cases('symmetry', 60, 1500):
        half = int(rng.integers(1, 5))
        step = float(rng.choice([1., 2.5]))
        lat = np.arange(1, half + 1) * step - (step / 2 if i % 2 else 0)
        lat = np.concatenate([-lat[::-1], [] if i % 2 else [0.], lat])
        if rng.random() < .4:
            lat = lat[::-1].copy()
        nt, nl = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        x = rng.normal(size=(nt, len(lat), nl))
        keep = x.copy()
        for opt, sign, sel in (('symm', 1, lat >= 0), ('asymm', -1, lat > 0)):
            if rng.random() < .5:
                da = xr.DataArray(x, dims=('time', 'lat', 'lon'), coords={'lat': lat})
                got = ck.call(st.get_symmasymm, da, da.lat, opt)
            else:
                got = ck.call(st.get_symmasymm, x, lat, opt)
            ck.case_input = {'lat': lat, 'x': x, 'opt': opt}
            want = (.5 * (x + sign * x[:, ::-1]))[:, sel]
            ck.expect(not isinstance(got, Raised) and np.shape(got) == want.shape and np.allclose(got, want, atol=1e-12), f'symmetry/{opt}',
                      lambda: f'{opt} part of {lat}: {np.asarray(got)[0, :, 0] if not isinstance(got, Raised) else got}, expected {want[0, :, 0]}', monitor='symmetry')
            ck.expect(np.array_equal(x, keep), 'symmetry/input', 'the field was changed', monitor='inputs')
        ck.nontrivial('symm', i)

    for rng, i in ck.cases('filter', 500, 8000):
        nl = int(rng.choice([12, 16, 24, 15, 32]))
        spd = int(rng.choice([1, 2, 4]))
        nt = 2 * int(rng.integers(20, 60)) * spd
        kmaxr = nl // 2 - 1
        parts = [(int(rng.integers(-kmaxr, kmaxr + 1)), int(rng.integers(1, nt // 2)), float(rng.uniform(.5, 2)), float(rng.uniform(0, 6)))
                 for _ in range(int(rng.integers(3, 25)))]
        # mostly slow components, where the modes are
        parts += [(int(rng.integers(-kmaxr, kmaxr + 1)), int(rng.integers(1, max(2, nt // spd // 3))), float(rng.uniform(.5, 2)), float(rng.uniform(0, 6)))
                  for _ in range(20)]
        t, x = np.arange(nt)[:, None], np.arange(nl)[None, :]
        data = sum(a * np.cos(2 * np.pi * (k * x / nl - f * t / nt) + p) for k, f, a, p in parts)
        name = str(rng.choice(['KELVIN', 'ER', 'MRG', 'IG0', 'IG1', 'IG2', 'none']))
        tmin, tmax = float(rng.uniform(1.5, 6)), float(rng.uniform(7, 40))
        if name[:2] == 'IG' and spd > 1:
            # the fast modes, whose slope shows at the short waves
            tmin = float(rng.uniform(1., 1.5))
            parts += [(int(rng.choice([-1, 1])) * int(rng.integers(kmaxr // 2, kmaxr + 1)), int(rng.integers(nt // spd // 4, nt // spd)), float(rng.uniform(.5, 2)), float(rng.uniform(0, 6)))
                      for _ in range(30)]
            data = sum(a * np.cos(2 * np.pi * (k * x / nl - f * t / nt) + p) for k, f, a, p in parts)
        kmin, kmax = sorted(int(v) for v in rng.integers(-kmaxr, kmaxr + 1, 2))
        if name[:2] == 'IG' and spd > 1 and rng.random() < .6:
            kmin, kmax = -kmaxr, kmaxr
        elif rng.random() < .2:
            kmin = kmax
        hmin, hmax = float(rng.uniform(3, 20)), float(rng.uniform(21, 120))
        if name == 'none' or rng.random() < .15:
            hmin = -9999
        if name == 'none' or rng.random() < .15:
            hmax = -9999
        want, kept = filtered(parts, nt, nl, spd, tmin, tmax, kmin, kmax, hmin, hmax, name)
        if want is None:
            ck.skip('limit too close to a resolved frequency')
            continue
        spell = {'KELVIN': ['Kelvin', 'kelvin', 'KELVIN'], 'none': ['MJO']}.get(name, [name, name.lower()])
        ck.case_input = {'components': parts, 'limits': (spd, tmin, tmax, kmin, kmax, hmin, hmax), 'wave': name}
        keep = data.copy()
        got = ck.call(st.kf_filter, data, spd, tmin, tmax, kmin, kmax, hmin, hmax, str(rng.choice(spell)))
        ok = not isinstance(got, Raised) and got.shape == want.shape and np.allclose(got, want, atol=1e-8)
        ck.expect(ok, 'filter/' + ('region' if name == 'none' else 'wave'), lambda: f'{name} waves {kmin}..{kmax} periods {tmin:.2f}..{tmax:.2f} depths {hmin}..{hmax}: '
                  f'{got if isinstance(got, Raised) else abs(got - want).max()}', monitor='filter')
        ck.expect(np.array_equal(keep, data), 'filter/input', 'the data was changed', monitor='inputs')
        if kept:
            ck.nontrivial('filter', name, kept, round(float(np.abs(want).max()), 9))
    for rng, i in ck.cases('all', 20, 200):
        nt, nl = int(rng.integers(8, 30)), int(rng.integers(4, 16))
        data = rng.normal(size=(nt, nl))
        got = ck.call(st.kf_filter, data, 1, .5, 1e6, -(nl // 2), nl // 2, -9999, -9999, 'none')
        ck.expect(not isinstance(got, Raised) and got.shape == data.shape and np.allclose(got, data, atol=1e-9), 'filter/all',
                  lambda: f'{nt} times {nl} longitudes with all periods and waves: {got if isinstance(got, Raised) else got.shape}', monitor='filter')

    for rng, i in ck.cases('flip', 60, 1500):
        mod = su if i % 2 else tu
        step = float(rng.choice([30., 45., 20.]))
        lon = np.arange(0, 360, step) if rng.random() < .5 else np.arange(-180, 180, step)
        if rng.random() < .5:
            a, b = sorted(int(v) for v in rng.choice(len(lon) + 1, 2, replace=False))
            lon = lon[a:b]
        west = lon.min() < 0
        da = xr.DataArray(rng.normal(size=(2, 3, len(lon))), dims=('time', 'lat', 'lon'), coords={'time': [0, 1], 'lat': [0., 1, 2], 'lon': lon.copy()})
        keep = da.copy(deep=True)
        ck.case_input = {'lon': lon}
        got = ck.call(mod.lonFlip, da, da.lon)
        if isinstance(got, Raised):
            ck.expect(False, 'flip', f'{lon}: {got}', monitor='flip')
            continue
        ck.expect(np.array_equal(da.lon.values, lon) and da.identical(keep), 'flip/input', lambda: f'longitudes of the input became {da.lon.values}', monitor='inputs')
        new = np.sort(np.where(lon < 0, lon + 360, lon) if west else np.where(lon >= 180, lon - 360, lon))
        ck.expect(np.allclose(got.lon.values, new), 'flip/lon', lambda: f'{lon} became {got.lon.values}, expected {new}', monitor='flip')
        ok = all(np.array_equal(got.values[:, :, j], keep.values[:, :, np.where(abs((lon - v + 180) % 360 - 180) < 1e-9)[0][0]]) for j, v in enumerate(new))
        ck.expect(ok, 'flip/values', lambda: f'values of {lon} moved to other longitudes', monitor='flip')
        ck.nontrivial('flip', tuple(lon))

    # the program: precipitation against the wind of two levels
    script = os.path.join(os.path.dirname(metcalcpy.__file__), 'contributed', 'spacetime', 'cross_spectra.py')
    for rng, i in ck.cases('program', 3, 25):
        spd, per, over = (4 if i % 2 else 2), int(rng.integers(4, 8)), int(rng.choice([-2, -1, 0, 1]))
        days, nl = per * 3 + int(rng.integers(0, 3)), int(rng.integers(3, 8))
        lat = np.arange(-3, 4) * 5. if rng.random() < .5 else np.arange(-3, 3) * 5. + 2.5
        lim = float(rng.choice([7.5, 12.5, 15.]))
        tm = np.datetime64('2014-04-01T00', 'ns') + np.arange((days + 4) * spd) * np.timedelta64(24 // spd, 'h')
        x, u1, u2, z = (waves_field(rng, len(tm), len(lat), nl) for _ in range(4))
        d = tempfile.mkdtemp(dir=tmp)
        co = {'time': tm, 'lat': lat, 'lon': np.arange(nl) * 360. / nl}
        # the verifying precipitation comes twice a day
        every = spd // 2
        for name, var, v, e in (('z', 'precip', z, every), ('x', 'prate', x, 1)):
            xr.Dataset({var: (('time', 'lat', 'lon'), v[::e])}, coords=dict(co, time=tm[::e])).to_netcdf(os.path.join(d, name + '.nc'))
        for name, v in (('u1', u1), ('u2', u2)):
            # wind files have latitudes from the north
            xr.Dataset({'u': (('time', 'latitude', 'lon'), v[:, ::-1])}, coords={'time': tm, 'latitude': lat[::-1], 'lon': co['lon']}).to_netcdf(os.path.join(d, name + '.nc'))
        sym = ['symm', 'asymm', 'latband'][i % 3]
        first, last = tm[2 * spd], tm[2 * spd + days * spd - 1]
        with open(os.path.join(d, 'c.yaml'), 'w') as f:
            f.write(f"pathout: ['{d}/out/']\nmodel: M\nspd: {spd}\nnperseg: {per}\nsegOverLap: {over}\nSymmetry: {sym}\nlatMin: {-lim}\nlatMax: {lim}\n"
                    f"datestrt: '{str(first)[:19]}'\ndatelast: '{str(last)[:19]}'\n")
        env = dict(os.environ, COMP_SPECTRA_YAML_CONFIG_NAME=os.path.join(d, 'c.yaml'),
                   COMP_SPECTRA_INPUT_FILE_NAMES=','.join(os.path.join(d, n + '.nc') for n in ('z', 'x', 'u1', 'u2')))
        ck.case_input = {'days': days, 'segment': per, 'overlap': over, 'symmetry': sym, 'latitudes': lat, 'limit': lim, 'spd': spd}
        run = subprocess.run([sys.executable, script], env=env, cwd=d, capture_output=True, text=True, timeout=200)
        sel = abs(lat) <= lim
        part = lambda v: v[2 * spd:2 * spd + days * spd][:, sel]
        if sym != 'latband':
            sg = 1 if sym == 'symm' else -1
            north = lat[sel] >= 0 if sym == 'symm' else lat[sel] > 0
            cut = lambda v: (.5 * (part(v) + sg * part(v)[:, ::-1]))[:, north]
        else:
            cut = part
        for tag, a, b, name, rate in (('850', x, u1, 'M_P_D850', spd), ('200', x, u2, 'M_P_D200', spd), ('verif', x, z, 'ERAI_M_P', 2)):
            path = os.path.join(d, 'out', f'SpaceTimeSpectra_{name}_{sym}_{rate}spd.nc')
            if not os.path.exists(path):
                ck.expect(False, 'program/' + tag, f'no file {os.path.basename(path)}: {run.stderr[-300:]}', monitor='program')
                continue
            e = every if tag == 'verif' else 1
            fr, wv, starts, tot = averaged(cut(a)[::e], cut(b)[::e], per * spd, over * spd)
            with Dataset(path) as nc:
                stc = np.ma.filled(nc['STC'][:], np.nan)
                ok = np.allclose(nc['freq'][:], fr / (per * spd) * rate) and np.array_equal(nc['wnum'][:], wv)
            ck.expect(ok, 'program/axes', lambda: f'{per} days a segment: axes differ', monitor='program')
            ck.expect(stc.shape[1:] == (len(fr), len(wv)) and np.allclose(stc[:4, 1:], tot, atol=1e-8 * tot.max(), rtol=1e-6), 'program/' + tag,
                      lambda: f'{sym} spectra with {tag} differ', monitor='program')
            ck.nontrivial('program', sym, tag, days, per)
        shutil.rmtree(d)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(300)


main_guard(main)
