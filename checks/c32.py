"""C32: atmospheric blocking."""
import contextlib
import io
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
from netCDF4 import Dataset

from vlib import Check, Raised, main_guard


def met_file(path, lat, lon, var, data):
    with Dataset(path, 'w') as nc:
        nc.createDimension('lat', len(lat))
        nc.createDimension('lon', len(lon))
        nc.createVariable('lat', 'f8', ('lat',))[:] = lat
        nc.createVariable('lon', 'f8', ('lon',))[:] = lon
        v = nc.createVariable(var, 'f8', ('lat', 'lon'), fill_value=-9999.)
        v.init_time, v.valid_time = '20000101_000000', '20000102_000000'
        v[:] = data


def groups(ibl, dist, size):
    """circular groups of blocked longitudes, gaps up to dist closed, of at least size longitudes"""
    n = len(ibl)
    on = [int(j) for j in np.where(ibl == 1)[0]]
    out = np.zeros(n)
    if not on:
        return out
    gaps = [((on[(k + 1) % len(on)] - on[k]) % n or n) for k in range(len(on))]
    breaks = [k for k in range(len(on)) if gaps[k] > dist]
    if not breaks:
        return np.ones(n)
    for b, k in enumerate(breaks):
        # the group that ends at position k
        first = (breaks[b - 1] + 1) % len(on)
        span = (on[k] - on[first]) % n + 1
        if span >= size:
            out[(on[first] + np.arange(span)) % n] = 1
    return out


def main():
    warnings.simplefilter('ignore')
    tmp = tempfile.mkdtemp(prefix='c32_')
    os.environ['SCRIPT_OUTPUT_BASE'] = tmp
    from metcalcpy.contributed.blocking_weather_regime.Blocking import BlockingCalculation
    ck = Check('C32', 'central latitudes, reversals, groups and blocks planted in fields or rebuilt from them')
    lon = np.arange(360.)

    def steps(label, **opts):
        for k in [k for k in os.environ if k.startswith(label + '_')]:
            del os.environ[k]
        for k, v in opts.items():
            os.environ[f'{label}_{k}'] = str(v)
        return BlockingCalculation(label)

    for rng, i in ck.cases('central', 15, 100):
        ns, nd = int(rng.integers(1, 4)), int(rng.integers(2, 5))
        lat = np.arange(75., 30., -float(rng.choice([5, 7])))
        x = rng.normal(size=(ns * nd, len(lat), 360)) * (1 + 2 * np.exp(-((lat - rng.uniform(40, 65)) / 8) ** 2))[:, None]
        default = rng.random() < .3
        pts = 9 if default else int(rng.choice([1, 3, 9, 15]))
        d = tempfile.mkdtemp(dir=tmp)
        names = []
        for n in range(ns * nd):
            names.append(os.path.join(d, f'{n}.nc'))
            met_file(names[-1], lat, lon, 'Z500_ANA' if default else 'ANOM', x[n])
        if nd > 2 and rng.random() < .4:
            names[1] = 'missing'
            x[1] = np.nan
        b = steps('FCST', **({} if default else dict(BLOCKING_ANOMALY_VAR='ANOM', SMOOTHING_PTS=pts)))
        ck.case_input = {'lat': lat, 'seasons': ns, 'days': nd, 'points': pts}
        with contextlib.redirect_stdout(io.StringIO()):
            got = ck.call(b.run_CBL, names, ns, nd)
        shutil.rmtree(d)
        if isinstance(got, Raised):
            ck.expect(False, 'central', str(got), monitor='central')
            continue
        a = x.reshape(ns, nd, len(lat), 360)
        mean = np.nanmean(a, axis=1, keepdims=True)
        sd = np.sqrt(np.nanmean((a - mean) ** 2, axis=1)) * np.sqrt(np.cos(np.radians(lat)))[:, None]
        top = lat[sd.argmax(1)]
        h = pts // 2
        want = np.array([[math.trunc(math.fsum(top[y, (j + k) % 360] for k in range(-h, h + 1)) / pts) for j in range(360)] for y in range(ns)])
        ck.expect(np.allclose(np.ma.filled(got[3], np.nan), sd, atol=1e-9), 'central/deviation', 'the weighted deviation differs', monitor='central')
        ck.expect(np.array_equal(got[0], want), 'central/latitude', lambda: f'{pts} points: {got[0][0][:5]}, expected {want[0][:5]}', monitor='central')
        ck.nontrivial('central', ns, nd, pts, int(want.sum()))

    for rng, i in ck.cases('reversal', 15, 150):
        ns, nd = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        lat = np.arange(90., -1., -1.)
        default = rng.random() < .3
        deltas = [-5, 0, 5] if default else [[-5, 0, 5], [0], [-4, 0, 4], [-3, 2]][int(rng.integers(4))]
        lim = 30 if default else int(rng.choice([30, 30, 20]))
        slope = rng.uniform(-1, 1, (ns * nd, 1, 360))
        x = 5000 + 3 * slope * lat[:, None] + rng.normal(size=(ns * nd, 91, 360)) * 20
        if rng.random() < .3:
            # no gradient at all in places
            x[:, :, rng.random(360) < .5] = 5500.
        cbl = rng.integers(42, 62, (int(rng.integers(1, 6)), 360)).astype(float)
        d = tempfile.mkdtemp(dir=tmp)
        names = []
        for n in range(ns * nd):
            names.append(os.path.join(d, f'{n}.nc'))
            met_file(names[-1], lat, lon, 'Z500' if default else 'HGT', x[n])
        b = steps('OBS', **({} if default else dict(BLOCKING_VAR='HGT', LAT_DELTA=','.join(str(v) for v in deltas), NORTH_SOUTH_LIMITS=lim)))
        with contextlib.redirect_stdout(io.StringIO()):
            got = ck.call(b.run_Calc_IBL, cbl, names, ns, nd)
        shutil.rmtree(d)
        ck.case_input = {'central': cbl, 'deltas': deltas, 'limits': lim}
        centre = np.array([math.ceil(v) for v in cbl.mean(0)])
        index = np.full((ns * nd, 360), -np.inf)
        for v in deltas:
            for j in range(360):
                mid = centre[j] + v
                north, south = (lat >= mid) & (lat <= mid + lim // 2), (lat <= mid) & (lat >= mid - lim // 2)
                index[:, j] = np.maximum(index[:, j], x[:, north, j].mean(1) - x[:, south, j].mean(1))
        level = np.ptp(x, axis=1) == 0
        sure = (abs(index) > 1e-6) | level
        index[level] = 0
        want = (index > 0).astype(float).reshape(ns, nd, 360)
        ok = not isinstance(got, Raised) and np.shape(got[0]) == want.shape and np.array_equal(got[0][sure.reshape(want.shape)], want[sure.reshape(want.shape)])
        ck.expect(ok, 'reversal', lambda: f'deltas {deltas} limits {lim}: {got if isinstance(got, Raised) else int((got[0] != want).sum())} longitudes differ', monitor='reversal')
        one = ck.call(b.run_mod_blocking1d, x[:nd], cbl.mean(0), lat, lon, 'PH')
        ck.expect(not isinstance(one, Raised) and np.allclose(one[1], index[:nd], atol=1e-7), 'reversal/index', lambda: f'{one if isinstance(one, Raised) else abs(one[1] - index[:nd]).max()}',
                  monitor='reversal')
        ck.nontrivial('reversal', int(want.sum()), tuple(deltas))

    for rng, i in ck.cases('groups', 200, 1500):
        ns, nd = int(rng.integers(1, 3)), int(rng.integers(1, 5))
        dist, size = (7, 15) if rng.random() < .4 else (int(rng.integers(1, 12)), int(rng.integers(3, 25)))
        ibl = np.zeros((ns, nd, 360))
        for y in range(ns):
            for k in range(nd):
                for _ in range(int(rng.integers(0, 6))):
                    start, w = int(rng.choice([rng.integers(0, 360), rng.integers(340, 375)])), int(rng.integers(1, 30))
                    ibl[y, k, (start + np.arange(w)) % 360] = 1
                ibl[y, k, rng.random(360) < .15] = 0
                if rng.random() < .05:
                    ibl[y, k] = 1
        b = steps('FCST', **({} if (dist, size) == (7, 15) else dict(IBL_DIST=dist, IBL_IN_GIBL=size)))
        keep = ibl.copy()
        got = ck.call(b.run_Calc_GIBL, ibl, lon)
        want = np.array([[groups(ibl[y, k], dist, size) for k in range(nd)] for y in range(ns)])
        ck.case_input = {'blocked': [[np.where(ibl[y, k])[0] for k in range(nd)] for y in range(ns)], 'distance': dist, 'size': size}
        ck.expect(not isinstance(got, Raised) and np.array_equal(got, want), 'groups',
                  lambda: f'distance {dist} size {size}: {got if isinstance(got, Raised) else [np.where(got[p] != want[p])[0][:6] for p in zip(*np.where((got != want).any(2)))][:3]}',
                  monitor='groups')
        ck.expect(np.array_equal(ibl, keep), 'groups/input', 'the input changed', monitor='inputs')
        ck.nontrivial('groups', dist, size, int(want.sum()))

    def lasting(items, overlap, travel):
        """items of one lane (day, start, width): which of them belong to a block; None if a limit is too close to call"""
        left, out = list(range(len(items))), []
        while left:
            chain = [left[0]]
            for j in left[1:]:
                (d0, s0, w0), (d1, s1, w1) = items[chain[-1]], items[j]
                if 1 <= d1 - d0 <= 2 and min(s0 + w0, s1 + w1) - max(s0, s1) > overlap:
                    chain.append(j)
            left = [j for j in left if j not in chain]
            if len(chain) < 5:
                continue
            centre = [items[j][1] + (items[j][2] - 1) / 2 for j in chain]
            far = [abs(v - centre[0]) for v in centre]
            if any(abs(v - travel) <= .6 and items[j][2] % 2 != items[chain[0]][2] % 2 for v, j in zip(far, chain)):
                return None
            n = next((k for k, v in enumerate(far) if v > travel), len(far))
            if n >= 5:
                out += chain[:n]
        return out

    for rng, i in ck.cases('blocks', 250, 4000):
        ns, nd = int(rng.integers(1, 4)), int(rng.integers(8, 40))
        default = rng.random() < .4
        size, travel, overlap = (15, 45, 10) if default else (int(rng.integers(6, 20)), int(rng.integers(10, 60)), int(rng.integers(3, 12)))
        g, want = np.zeros((2, ns, nd, 360))
        kind = rng.random()
        lanes = [(10, 160), (190, 350)] if kind < .4 else [(10, 350)] if kind < .7 else [(320, 400)] if kind < .85 else [(80, 270), (320, 400)]
        log, sure = [], True
        for y in range(ns):
            for lo, hi in lanes:
                items, d, fixed = [], int(rng.integers(0, 6)), hi > 360
                while d < nd:
                    w = int(rng.integers(size, 36))
                    start = int(rng.integers(lo, hi - 36))
                    v = 0 if fixed else int(rng.integers(-4, 7))
                    for _ in range(int(rng.integers(1, 14))):
                        if d >= nd or not (fixed or lo <= start <= hi - 40):
                            break
                        items.append((d, start, w))
                        d += 1 if rng.random() < .85 else 2
                        if not fixed:
                            start += v
                            if rng.random() < .25:
                                w = int(rng.integers(size, 36))
                            if rng.random() < .1:
                                start += int(rng.choice([-1, 1])) * (w - overlap + int(rng.integers(-1, 2)))
                    d += int(rng.integers(0, 7)) if not fixed else int(rng.integers(3, 7))
                days = set()
                items = [t for t in items if not (t[0] in days or days.add(t[0]))]
                log.append((y, items))
                stay = lasting(items, overlap, travel)
                sure &= stay is not None
                for k, (d, start, w) in enumerate(items):
                    at = (start + np.arange(w)) % 360
                    g[y, d, at] = 1
                    if stay and k in stay:
                        want[y, d, at] = 1
        b = steps('OBS', **({} if default else dict(IBL_IN_GIBL=size, BLOCK_TRAVEL=travel, GIBL_OVERLAP=overlap)))
        ck.case_input = {'runs': log, 'size': size, 'travel': travel, 'overlap': overlap}
        if not sure:
            ck.skip('travel')
            continue
        keep = g.copy()
        got = ck.call(b.run_Calc_Blocks, g, g, np.arange(360), None)
        ck.expect(not isinstance(got, Raised) and np.array_equal(got, want), 'blocks',
                  lambda: f'size {size} travel {travel} overlap {overlap} {log}: {got if isinstance(got, Raised) else list(zip(*np.where((got != want).any(2))))[:6]}', monitor='blocks')
        ck.expect(np.array_equal(g, keep), 'blocks/input', 'the input changed', monitor='inputs')
        ck.nontrivial('blocks', str(log))
        ck.nontrivial('lasting', int(want.sum()))

    for rng, i in ck.cases('even', 8, 40):
        n = 2 * int(rng.integers(1, 9))
        ck.case_input = {'points': n}
        got = ck.call(steps, 'FCST', SMOOTHING_PTS=n)
        ck.expect(isinstance(got, Raised), 'even', lambda: f'{n} smoothing points were accepted', monitor='refused')
        ck.expect(not isinstance(ck.call(steps, 'FCST', SMOOTHING_PTS=n + 1), Raised), 'odd', lambda: f'{n + 1} smoothing points were refused', monitor='refused')
        ck.nontrivial('even', n)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(150)


main_guard(main)
