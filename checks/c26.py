"""C26: radial and tangential wind of tropical cyclone cylinders."""
import argparse
import math
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import xarray as xr

from vlib import Check, Raised, main_guard

ORDERS = [('range', 'azimuth', 'pressure', 'track_point'), ('track_point', 'pressure', 'range', 'azimuth'), ('pressure', 'track_point', 'azimuth', 'range')]


def dataset(rng, order, names=('UGRD', 'VGRD', 'TMP'), small=False):
    na = int(rng.choice([4, 8, 12, 36, 5]))
    size = {'range': int(rng.integers(2, 5)), 'azimuth': na, 'pressure': int(rng.integers(2, 4)), 'track_point': int(rng.integers(1, 4))}
    coords = {'range': np.arange(size['range'], dtype=float) + 1, 'azimuth': np.arange(na) * 360. / na,
              'pressure': np.linspace(1000, 300, size['pressure']), 'track_point': np.arange(size['track_point'])}
    if rng.random() < .4:                          # azimuths that start elsewhere or are not evenly spaced
        coords['azimuth'] = coords['azimuth'] + float(rng.uniform(1, 300)) if rng.random() < .5 else np.sort(rng.choice(720, na, replace=False)) / 2.
    shape = tuple(size[d] for d in order)
    ds = xr.Dataset(coords=coords)
    ds[names[0]] = (order, rng.normal(size=shape) * 15)
    ds[names[1]] = (order, rng.normal(size=shape) * 15)
    ds[names[2]] = (order, rng.uniform(200, 300, shape))
    if rng.random() < .4:
        hit = rng.random(shape) < .1
        ds[names[0]] = ds[names[0]].where(~xr.DataArray(hit, dims=order))
    ds['RMW'] = ('track_point', rng.uniform(10, 40, size['track_point']))
    ds['TrackLines'] = ('track_line', np.arange(3.))
    return ds


def judge(ck, ds, ur, ut, names, what):
    full = ('range', 'azimuth', 'pressure', 'track_point')
    u, v = ds[names[0]].transpose(*full).values, ds[names[1]].transpose(*full).values
    if np.shape(ur) != u.shape or np.shape(ut) != u.shape:
        ck.expect(False, what + '/shape', f'shapes {np.shape(ur)} {np.shape(ut)} of {u.shape}', monitor='components')
        return
    for a, az in enumerate(ds['azimuth'].values):
        th = math.radians(float(az)) + math.pi / 2
        er, et = (math.cos(th), math.sin(th)), (-math.sin(th), math.cos(th))
        for idx in np.ndindex(u.shape[0], u.shape[2], u.shape[3]):
            k = (idx[0], a, idx[1], idx[2])
            x, y = float(u[k]), float(v[k])
            if math.isnan(x):
                ck.expect(math.isnan(ur[k]) and math.isnan(ut[k]), what + '/missing', lambda: f'{ur[k]} {ut[k]} without wind', monitor='missing')
                continue
            tol = 1e-5 * (1 + abs(x) + abs(y))
            ck.expect(abs(ur[k] - (er[0] * x + er[1] * y)) < tol, what + '/radial', lambda: f'azimuth {az}, wind {x},{y}: radial {ur[k]}', monitor='components')
            ck.expect(abs(ut[k] - (et[0] * x + et[1] * y)) < tol, what + '/tangential', lambda: f'azimuth {az}, wind {x},{y}: tangential {ut[k]}', monitor='components')
            ck.nontrivial(what, round(x, 9), round(y, 9))
    ck.expect(np.allclose(ur ** 2 + ut ** 2, u ** 2 + v ** 2, rtol=1e-4, atol=1e-4, equal_nan=True), what + '/speed', 'the speed is not kept', monitor='speed')


def main():
    from metcalcpy.process_tcrmw import compute_wind_components, read_tcrmw
    ck = Check('C26', 'wind components against the rotation of each vector')
    tmp = tempfile.mkdtemp(prefix='c26_')
    for rng, i in ck.cases('components', 30, 400):
        names = ('UGRD', 'VGRD', 'TMP') if i % 2 else ('u', 'v', 't')
        order = ORDERS[int(rng.integers(3))]
        ds = dataset(rng, order, names)
        path = os.path.join(tmp, f'{i}.nc')
        ds.to_netcdf(path)
        ck.case_input = {'order': order, 'sizes': dict(ds.sizes), 'names': names}
        back = ck.call(read_tcrmw, path)
        if isinstance(back, Raised):
            ck.expect(False, 'read', f'{order}: {back}', monitor='read')
            continue
        ck.expect(all(back[n].dims == ('range', 'azimuth', 'pressure', 'track_point') for n in names) and
                  all(np.array_equal(back[n].values, ds[n].transpose(*back[n].dims).values, equal_nan=True) for n in names) and
                  np.array_equal(back['RMW'].values, ds['RMW'].values), 'read', 'fields changed', monitor='read')
        ns = argparse.Namespace(u=names[0], v=names[1], T=names[2])
        res = ck.call(compute_wind_components, ns, back)
        if isinstance(res, Raised):
            ck.expect(False, 'components', f'{order}: {res}', monitor='components')
            continue
        judge(ck, ds, res[0], res[1], names, 'components')
        ck.expect(all(np.array_equal(back[n].values, ds[n].transpose(*back[n].dims).values, equal_nan=True) for n in names), 'components/inputs', 'an input changed',
                  monitor='inputs')
        back.close()
        os.unlink(path)
        ck.sample({'order': order, 'azimuths': ds.sizes['azimuth']})

    import metcalcpy.process_tcrmw as module
    for rng, i in ck.cases('program', 2, 12):
        ds = dataset(rng, ORDERS[i % 3])
        ds.to_netcdf(os.path.join(tmp, 'in.nc'))
        p = subprocess.run([sys.executable, module.__file__, '--datadir', tmp, '--input', 'in.nc', '--output', 'out.nc'], capture_output=True, text=True,
                           env=dict(os.environ, MPLBACKEND='Agg'))
        out = os.path.join(tmp, 'out.nc')
        if not os.path.exists(out):
            ck.expect(False, 'program', f'no output: {p.stderr[-300:]}', monitor='program')
            continue
        with xr.open_dataset(out) as res:
            res = res.transpose('range', 'azimuth', 'pressure', 'track_point', 'track_line')
            judge(ck, ds, res['u_radial'].values, res['u_tangential'].values, ('UGRD', 'VGRD', 'TMP'), 'program')
            ck.expect(np.allclose(res['TMP'].values, ds['TMP'].transpose(*res['TMP'].dims).values), 'program/fields', 'other fields changed', monitor='program')
        os.unlink(out)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(2000)


main_guard(main)
