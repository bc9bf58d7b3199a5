"""C33: wind power and stress of the Madden-Julian oscillation and its index of the El Nino relation."""
import contextlib
import io
import math

import numpy as np
import pandas as pd
import xarray as xr

from vlib import Check, Raised, main_guard


def quiet(ck, f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return ck.call(f, *a)


def main():
    from metcalcpy.contributed.mjo_enso import compute_mjo_enso as m
    ck = Check('C33', 'indices and power rebuilt from the fields')

    for rng, i in ck.cases('power', 40, 800):
        step = float(rng.choice([.5, 1., 1.5]))
        half = int(rng.integers(4, 16))
        lat = np.arange(-half, half + 1) * step if i % 2 else (np.arange(-half, half) + .5) * step
        if i % 4 > 1:
            lat = lat[:-int(rng.integers(1, 3))] if rng.random() < .5 else lat[int(rng.integers(1, 3)):]
        ny, nx, nt = len(lat), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        u, v, tx, ty = rng.normal(size=(4, nt, ny, nx))
        mk = lambda z: xr.DataArray(z.copy(), dims=('time', 'lat', 'lon'), coords={'time': np.arange(nt), 'lat': lat, 'lon': np.arange(nx) * 2.})
        da = [mk(z) for z in (u, v, tx, ty)]
        ck.case_input = {'lat': lat, 'u': u, 'v': v, 'tx': tx, 'ty': ty}
        got = quiet(ck, m.calc_wpower_MJO, *da)
        if isinstance(got, Raised):
            ck.expect(False, 'power', str(got), monitor='power')
            continue
        # one structure in latitude times the work of both components
        work = u * tx + v * ty
        ratio = (got.values * work).sum((0, 2)) / (work ** 2).sum((0, 2))
        ck.expect(got.dims == ('time', 'lat', 'lon') and np.allclose(got.values, ratio[:, None] * work, atol=1e-9), 'power/work',
                  'not a function of latitude times the product of current and stress', monitor='power')
        ck.expect(lat[0] != -lat[-1] or np.allclose(ratio, ratio[::-1], atol=1e-9), 'power/even', lambda: f'{ratio}', monitor='structure')
        radius = math.sqrt(math.sqrt(9.81e-2 * 90) / 2.28e-11) / 111000
        south, north = lat[0] / radius, lat[-1] / radius
        dy = (north - south) / ny
        y = south + (np.arange(ny) + .5) * dy
        want = np.exp(-y * y / 2) / math.sqrt(math.sqrt(math.pi) * (math.erf(north) - math.erf(south)))
        ck.expect(np.allclose(ratio, want, atol=.02 * want.max()), 'power/structure', lambda: f'{ratio}, expected about {want}', monitor='structure')
        ck.expect(all(np.array_equal(p.values, q) for p, q in zip(da, (u, v, tx, ty))), 'power/inputs', 'an input changed', monitor='inputs')
        ck.nontrivial('power', ny, step)

    for rng, i in ck.cases('stress', 25, 400):
        ny, nx, nt = int(rng.integers(2, 5)), int(rng.integers(2, 5)), int(rng.integers(25, 60))
        f = rng.normal(size=(nt, ny, nx))
        land = rng.random((ny, nx)) < .2
        land[0, 0] = False
        if (~land).sum() < 2:
            land[:] = False
        f[:, land] = np.nan
        sea = np.where(~land.ravel())[0]
        e = rng.normal(size=(4, ny, nx))
        k1, k2 = 2 * int(rng.integers(2, 6)) + 1, 2 * int(rng.integers(1, 4)) + 1
        w1, w2 = rng.random((k1, len(sea))), rng.random((k2, len(sea)))
        w1, w2 = w1 / w1.sum(0), w2 / w2.sum(0)
        co = {'lat': np.arange(ny) * 1., 'lon': np.arange(nx) * 2.}
        da = xr.DataArray(f.copy(), dims=('time', 'lat', 'lon'), coords={'time': pd.date_range('2001-01-01', periods=nt), **co})
        ea = xr.DataArray(e, dims=('time', 'lat', 'lon'), coords={'time': np.arange(4), **co})
        ck.case_input = {'stress': f, 'patterns': e, 'weights': [w1, w2]}
        got = quiet(ck, m.calc_tau_MJO, da, ea, w1, w2)
        if isinstance(got, Raised):
            ck.expect(False, 'stress', str(got), monitor='stress')
            continue
        x = f.reshape(nt, -1)[:, sea].astype('float32').astype(float)
        p = np.empty_like(x)

        def same(a, b):
            """centred moving sum, zeros outside"""
            n = len(b)
            return np.array([sum(b[q] * a[t + (n - 1) // 2 - q] for q in range(n) if 0 <= t + (n - 1) // 2 - q < len(a)) for t in range(len(a))])

        for c in range(len(sea)):
            high = x[:, c] - same(x[:, c], w1[:, c])
            p[:, c] = same(high, w2[:, c])
        coef = p @ e.reshape(4, -1)[:, sea].T / len(sea)
        want = np.zeros_like(p)
        for j in range(4):
            want += np.outer(coef[:, j], p.T @ coef[:, j]) / coef[:, j].std(ddof=1)
        z = got.transpose('time', 'lat', 'lon').values.reshape(nt, -1)
        ck.expect(np.allclose(z[:, sea], want, atol=1e-4 * abs(want).max()), 'stress', lambda: f'differs by {abs(z[:, sea] - want).max()} of {abs(want).max()}', monitor='stress')
        other = np.setdiff1d(np.arange(ny * nx), sea)
        ck.expect(bool(np.all(np.isnan(z[:, other]))), 'stress/land', 'values where the stress is missing', monitor='stress')
        ck.expect(np.array_equal(da.values, f, equal_nan=True), 'stress/input', 'an input changed', monitor='inputs')
        ck.nontrivial('stress', nt, len(sea))

    for rng, i in ck.cases('index', 25, 400):
        nx = int(rng.integers(2, 6))
        first = pd.Timestamp(f'{int(rng.integers(1985, 2020))}-{int(rng.integers(1, 13)):02d}-01')
        # an index value needs the ninety days before it
        time = pd.date_range(first - pd.Timedelta(days=90), first + pd.DateOffset(months=int(rng.integers(5, 16))) + pd.Timedelta(days=int(rng.integers(0, 20))))
        n = len(time)
        sst, wp = np.cumsum(rng.normal(size=(2, n, nx)), axis=1) * .3 + rng.normal(size=(2, n, nx))
        eof = rng.normal(size=(2, 2 * nx))
        mk = lambda z: xr.DataArray(z.copy(), dims=('time', 'lon'), coords={'time': time, 'lon': np.arange(nx) * 2.})
        a, b = mk(sst), mk(wp)
        ck.case_input = {'sst': sst, 'power': wp, 'patterns': eof, 'start': str(time[0])}
        got = quiet(ck, m.make_maki, a, b, xr.DataArray(eof, dims=('mode', 'x')))
        if isinstance(got, Raised):
            ck.expect(False, 'index', f'{n} days: {got}', monitor='index')
            continue
        dat = np.hstack([wp / wp.std(0), sst / sst.std(0)])
        pc = -(dat @ eof.T)
        pc = pc / pc.std(0)
        months = [t for t in time if t.day == 1 and t >= first]
        for g, s, tag in ((got[0], pc[:, 0] + abs(pc[:, 1]), 'make'), (got[1], pc[:, 0] + pc[:, 1], 'maki')):
            low = np.array([s[time.get_loc(t) - 90:time.get_loc(t) + 1].min() for t in months])
            if low.std() < 1e-6:
                ck.skip('all months have the same minimum')
                continue
            want = low / low.std()
            ok = list(pd.DatetimeIndex(g.time.values)) == months and np.allclose(g.values, want, atol=1e-8)
            ck.expect(ok, 'index/' + tag, lambda: f'{tag} {g.values[:4]}, expected {want[:4]}', monitor='index')
        ck.expect(np.array_equal(a.values, sst) and np.array_equal(b.values, wp), 'index/inputs', 'an input changed', monitor='inputs')
        ck.nontrivial('index', n, nx, len(months))
    ck.finish(150)


main_guard(main)
