"""C31: weather regime analysis."""
import contextlib
import io
import math
import os
import shutil
import tempfile
import warnings

import numpy as np
from netCDF4 import Dataset

from vlib import Check, Raised, main_guard


def detrended(x):
    """trend over the seasons removed at every day and point"""
    n = len(x)
    if n < 2:
        return x - x.mean(0)
    t = np.arange(n) - (n - 1) / 2
    b = np.tensordot(t, x, (0, 0)) / (t ** 2).sum()
    return x - x.mean(0) - t.reshape((-1,) + (1,) * (x.ndim - 1)) * b


def corr(a, b):
    a, b = a.ravel() - a.mean(), b.ravel() - b.mean()
    return float(a @ b / math.sqrt((a @ a) * (b @ b)))


def days(rng, ns, nd):
    out = []
    for s in range(ns):
        start = np.datetime64(f'{2000 + s}-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 28)):02d}')
        out.append([str(start + d).replace('-', '') + '_' + ['000000', '120000', '063015'][int(rng.integers(3))] for d in range(nd)])
    return np.array(out)


def met_file(path, lat, lon, var, data, init, valid, fill):
    with Dataset(path, 'w') as nc:
        nc.createDimension('lat', len(lat))
        nc.createDimension('lon', len(lon))
        nc.createVariable('lat', 'f8', ('lat',))[:] = lat
        nc.createVariable('lon', 'f8', ('lon',))[:] = lon
        v = nc.createVariable(var, 'f8', ('lat', 'lon'), fill_value=fill)
        v.init_time, v.valid_time = init, valid
        v[:] = data


def main():
    warnings.simplefilter('ignore')
    tmp = tempfile.mkdtemp(prefix='c31_')
    os.environ['SCRIPT_OUTPUT_BASE'] = tmp
    from metcalcpy.contributed.blocking_weather_regime import Blocking_WeatherRegime_util as util
    from metcalcpy.contributed.blocking_weather_regime.WeatherRegime import WeatherRegimeCalculation
    ck = Check('C31', 'regimes planted in the data, least squares and eigenvectors computed apart, files read back')

    def steps(label, **opts):
        for k in [k for k in os.environ if k.startswith(label + '_')]:
            del os.environ[k]
        os.environ.pop('WR_OUTPUT_FILE_DIR', None)
        for k, v in opts.items():
            os.environ[k if k == 'WR_OUTPUT_FILE_DIR' else f'{label}_{k}'] = str(v)
        return WeatherRegimeCalculation(label)

    for rng, i in ck.cases('anomaly', 120, 800):
        ns, nd, ny, nx = (int(v) for v in rng.integers(3, 7, 4))
        x = rng.normal(size=(ns, nd, ny, nx)) * 3 + 500 + rng.normal() * np.arange(ns)[:, None, None, None]
        lat, lon = np.linspace(60, 20, ny), np.arange(nx) * 10.
        keep = x.copy()
        two = rng.random() < .3
        w = steps('OBS')
        ck.case_input = {'x': x, 'lat': lat}
        got = ck.call(w.weights_detrend, np.repeat(lat[:, None], nx, axis=1) if two else lat, lon, x)
        want = detrended(x) * np.cos(np.radians(lat))[:, None]
        ok = not isinstance(got, Raised) and np.allclose(got[0], want, atol=1e-8) and np.shape(got[1]) == (ns * nd, ny * nx) and \
            np.allclose(got[1], want.reshape(ns * nd, -1), atol=1e-8)
        ck.expect(ok, 'anomaly', lambda: f'{x.shape}: {got if isinstance(got, Raised) else abs(got[0] - want).max()}', monitor='anomaly')
        ck.expect(np.array_equal(x, keep), 'anomaly/input', 'the data was changed', monitor='inputs')
        ck.nontrivial('anomaly', x.shape, two)
        # principal patterns
        npc = int(rng.integers(1, max(2, min((ns - 2) * nd, ny * nx) - 1)))
        w = steps('FCST', NUM_PCS=npc, WR_NUMBER=3)
        with contextlib.redirect_stdout(io.StringIO()):
            got = ck.call(w.Calc_EOF, x)
        ck.expect(np.array_equal(x, keep), 'eof/input', 'the data was changed', monitor='inputs')
        x = keep.copy()
        if isinstance(got, Raised):
            ck.expect(False, 'eof', str(got), monitor='eof')
            continue
        eof, pc, num, frac = got
        a = detrended(x).reshape(ns * nd, ny * nx)
        u, s, vt = np.linalg.svd(a, full_matrices=False)
        f = s ** 2 / (s ** 2).sum() * 100
        ck.expect(num == 3, 'eof/number', lambda: f'{num} regimes', monitor='eof')
        ck.expect(np.shape(frac) == (npc,) and np.allclose(frac, f[:npc], atol=1e-6), 'eof/variance', lambda: f'{frac}, expected {f[:npc]}', monitor='eof')
        ok = np.shape(eof) == (npc, ny, nx) and np.shape(pc) == (ns * nd, npc)
        ck.expect(ok, 'eof/shape', lambda: f'{np.shape(eof)} {np.shape(pc)}', monitor='eof')
        if not ok:
            continue
        ck.expect(np.allclose(np.std(pc, axis=0, ddof=1), 1, atol=.1) and np.allclose(np.corrcoef(pc.T) if npc > 1 else 1, np.eye(npc), atol=1e-6), 'eof/series',
                  lambda: f'deviations {np.std(pc, axis=0)}', monitor='eof')
        got = ck.call(w.reconstruct_heights, eof, pc, (ns, nd, ny, nx))
        if npc < len(s) and s[npc - 1] - s[npc] < 1e-3 * s[0]:
            ck.skip('patterns of nearly equal variance')
            continue
        want = (u[:, :npc] * s[:npc]) @ vt[:npc]
        ck.expect(not isinstance(got, Raised) and np.shape(got) == want.shape and np.allclose(got, want, atol=1e-6 * s[0]), 'eof/rebuilt',
                  lambda: f'{npc} patterns: {got if isinstance(got, Raised) else abs(got - want).max()}', monitor='eof')
        ck.nontrivial('eof', npc, x.shape)

    for rng, i in ck.cases('elbow', 12, 60):
        k = int(rng.integers(4, 7))
        w = steps('OBS', NUM_CLUSTERS=k)
        a = rng.normal(size=(int(rng.integers(20, 40)), int(rng.integers(2, 5)))) * 1e5
        np.random.seed(int(rng.integers(1 << 30)))
        with contextlib.redirect_stdout(io.StringIO()):
            got = ck.call(w.run_elbow, a)
        if isinstance(got, Raised):
            ck.expect(False, 'elbow', str(got), monitor='elbow')
            continue
        K, d, mi, line, curve = got
        ck.expect(list(K) == list(range(1, k)) and len(curve) == k - 1, 'elbow/numbers', lambda: f'{list(K)}', monitor='elbow')
        ck.expect(abs(curve[0] / (((a - a.mean(0)) ** 2).sum() * 1e-10) - 1) < 1e-6, 'elbow/first', lambda: f'{curve[0]} for one cluster', monitor='elbow')
        # more clusters can end in a poorer local optimum than fewer, but never above a single cluster
        ck.expect(all(0 < p < curve[0] for p in curve[1:]), 'elbow/falls', lambda: f'{curve}', monitor='elbow')
        n = np.arange(1, k)
        want = curve[0] + (curve[-1] - curve[0]) * (n - 1) / (k - 2)
        ck.expect(np.allclose(line, want, rtol=1e-6), 'elbow/line', lambda: f'{line}, expected {want}', monitor='elbow')
        dist = (curve - want) * (k - 2) / math.hypot(k - 2, curve[-1] - curve[0])
        ck.expect(np.allclose(d, dist, atol=1e-9 * abs(curve[0]) + 1e-12), 'elbow/distance', lambda: f'{d}, expected {dist}', monitor='elbow')
        ck.expect(dist[int(np.ravel(mi)[0])] <= dist.min() + 1e-9 * abs(curve[0]), 'elbow/choice', lambda: f'{mi} of {dist}', monitor='elbow')
        ck.nontrivial('elbow', i)

    for rng, i in ck.cases('regimes', 100, 500):
        k = int(rng.integers(2, 5))
        ny, nx = (int(v) for v in rng.integers(2, 5, 2))
        counts = np.cumsum(rng.integers(1, 4, k))[rng.permutation(k)]
        if rng.random() < .3:
            # regimes that are nearly as frequent as each other
            counts = (int(rng.integers(60, 130)) + np.arange(k))[rng.permutation(k)]
        total = int(counts.sum())
        extra = (-total) % int(rng.choice([2, 3]))
        counts[int(np.argmax(counts))] += extra
        total += extra
        ns = next(v for v in (3, 2, 1) if total % v == 0)
        centre = rng.normal(size=(k, ny * nx)) * 50
        while min(np.linalg.norm(centre[p] - centre[q]) for p in range(k) for q in range(p)) < 40:
            centre = rng.normal(size=(k, ny * nx)) * 50
        lab = rng.permutation(np.repeat(np.arange(k), counts))
        a = centre[lab] + rng.normal(size=(total, ny * nx)) * .5
        order = sorted(range(k), key=lambda v: -counts[v])
        shape = (ns, total // ns, ny, nx)
        w = steps('FCST', WR_NUMBER=k)
        ck.case_input = {'data': a, 'regime': lab, 'shape': shape}
        with contextlib.redirect_stdout(io.StringIO()):
            got = ck.call(w.run_K_means, a, {}, shape)
        if isinstance(got, Raised):
            ck.expect(False, 'regimes', str(got), monitor='regimes')
            continue
        pat, num, perc, wrc = got
        rank = {v: r + 1 for r, v in enumerate(order)}
        want = np.array([rank[v] for v in lab]).reshape(shape[:2])
        # k-means may stop at a local optimum; then only consistency is decided
        flat = np.asarray(wrc).ravel()
        if np.shape(wrc) == shape[:2] and len({(p, q) for p, q in zip(flat, want.ravel())}) == k:
            ck.expect(np.array_equal(wrc, want), 'regimes/labels', lambda: f'{wrc}, expected {want}', monitor='regimes')
            ck.expect(np.allclose(perc, [counts[v] / total for v in order]), 'regimes/frequency', lambda: f'{perc} of {counts}', monitor='regimes')
            mean = np.array([a[lab == v].mean(0).reshape(ny, nx) for v in order])
            ck.expect(np.shape(pat) == mean.shape and np.allclose(pat, mean, atol=1e-6), 'regimes/patterns', 'a pattern is not the mean of its days', monitor='regimes')
            ck.nontrivial('regimes', k, shape, tuple(counts))
        else:
            ck.expect(np.shape(wrc) == shape[:2] and np.allclose(perc, [(flat == r + 1).mean() for r in range(k)]) and all(p >= q for p, q in zip(perc, perc[1:])),
                      'regimes/consistent', lambda: f'{perc} for {flat}', monitor='regimes')
            ck.skip('another local optimum')
        # counts in a moving window
        step = int(rng.integers(1, shape[1] + 1))
        w = steps('FCST', WR_NUMBER=k, WR_FREQ=step)
        wr = rng.integers(1, k + 1, shape[:2]).astype(float)
        got = ck.call(w.compute_wr_freq, wr)
        cnt = np.array([[[(wr[y, d:d + step] == r + 1).sum() for d in range(shape[1] - step + 1)] for y in range(ns)] for r in range(k)])
        ck.expect(not isinstance(got, Raised) and np.shape(got[0]) == cnt.shape and np.array_equal(got[0], cnt) and got[1:] == (cnt.shape[2], step), 'frequency',
                  lambda: f'window {step} of {wr}: {got if isinstance(got, Raised) else got[0]}', monitor='frequency')
        # the file of the regimes
        kind = str(rng.choice(['text', 'netcdf']))
        d = tempfile.mkdtemp(dir=tmp)
        w = steps('FCST', WR_NUMBER=k, WR_OUTPUT_FILE_TYPE=kind, WR_OUTPUT_FILE='out', WR_OUTPUT_FILE_DIR=d)
        valid = days(rng, *shape[:2])
        got = ck.call(w.write_K_means_file, {'valid': valid}, wr)
        v1, r1 = valid.ravel(), wr.ravel()
        if isinstance(got, Raised) or not os.listdir(d):
            ck.expect(False, 'file/' + kind, f'{got}, {os.listdir(d)}', monitor='file')
        elif kind == 'text':
            rows = [ln.split() for ln in open(os.path.join(d, 'out.txt')) if not ln.startswith('#')]
            want = [(v[:4], v[4:6], v[6:8], r) for v, r in zip(v1, r1)]
            ck.expect([(p[0], p[1], p[2], float(p[3])) for p in rows] == want, 'file/text', lambda: f'{rows[:3]}, expected {want[:3]}', monitor='file')
        else:
            with Dataset(os.path.join(d, 'out.nc')) as nc:
                ref = np.datetime64(v1[0][:4] + '-' + v1[0][4:6] + '-' + v1[0][6:8])
                off = [int((np.datetime64(v[:4] + '-' + v[4:6] + '-' + v[6:8]) - ref).astype(int)) for v in v1]
                ok = np.array_equal(nc['wrnum'][:], r1) and [int(v) for v in nc['date'][:]] == [int(v[:8]) for v in v1] and \
                    np.array_equal(nc['time'][:], off) and str(ref) in nc['time'].units
            ck.expect(ok, 'file/netcdf', lambda: 'the file does not hold the regimes of the days', monitor='file')
        shutil.rmtree(d)

    for rng, i in ck.cases('defaults', 2, 10):
        # without settings: six regimes, twenty clusters, ten patterns, windows of seven days, a text file
        w = steps('FCST')
        a = rng.normal(size=(48, 12)) * 1e3
        with contextlib.redirect_stdout(io.StringIO()):
            got = ck.call(w.run_K_means, a, {}, (4, 12, 3, 4))
            elbow = ck.call(w.run_elbow, a)
            eof = ck.call(w.Calc_EOF, a.reshape(4, 12, 3, 4).copy())
        wr = rng.integers(1, 7, (4, 12)).astype(float)
        freq = ck.call(w.compute_wr_freq, wr)
        res = ck.call(w.write_K_means_file, {'valid': days(rng, 4, 12)}, wr)
        bad = [v for v in (got, elbow, eof, freq, res) if isinstance(v, Raised)]
        ck.expect(not bad, 'defaults', lambda: f'{bad}', monitor='defaults')
        if not bad:
            seen = (len(got[0]), got[1], len(got[2]), list(elbow[0]), len(eof[0]), np.shape(freq[0]), freq[2], os.path.exists(os.path.join(tmp, 'FCST_WeatherRegime.txt')))
            ck.expect(seen == (6, 6, 6, list(range(1, 20)), 10, (6, 4, 6), 7, True), 'defaults', lambda: f'{seen}', monitor='defaults')
        ck.nontrivial('defaults', i)

    for rng, i in ck.cases('order', 200, 2000):
        k = int(rng.integers(2, 6))
        pat, perc = rng.normal(size=(k, 3, 4)), rng.random(k)
        lab = rng.integers(1, k + 1, (2, 7)).astype(float)
        if i % 2:
            order = [int(v) + 1 for v in rng.permutation(k)]
            got = ck.call(util.reorder_fcst_regimes, pat, perc, lab, k, order)
        else:
            obs = pat[rng.permutation(k)] + rng.normal(size=pat.shape) * rng.choice([.1, 1])
            c = np.array([[corr(o, p) for p in pat] for o in obs])
            if (np.sort(c)[:, -1] - np.sort(c)[:, -2]).min() < 1e-9:
                continue
            order = [int(v) + 1 for v in c.argmax(1)]
            got = ck.call(util.reorder_fcst_regimes_correlate, obs, pat, perc, lab, k)
        ck.case_input = {'order': order, 'labels': lab}
        if isinstance(got, Raised):
            ck.expect(False, 'order', f'{order}: {got}', monitor='order')
            continue
        ck.expect(np.array_equal(got[0], pat[np.array(order) - 1]) and np.array_equal(got[1], perc[np.array(order) - 1]), 'order/patterns', lambda: f'{order}: {got[1]} of {perc}',
                  monitor='order')
        for old in range(1, k + 1):
            new = np.unique(got[2][lab == old])
            places = [p + 1 for p, v in enumerate(order) if v == old]
            if places:
                ck.expect(all(v in places for v in new) and len(new) < 2, 'order/labels', lambda: f'{order}: regime {old} became {new}', monitor='order')
            else:
                # a regime that matches none has no number
                ck.expect(bool(np.all(np.isnan(new))), 'order/unmatched', lambda: f'{order}: regime {old} became {new}', monitor='order')
        ck.nontrivial('order', tuple(order))

    for rng, i in ck.cases('files', 100, 500):
        ns, nd, ny, nx = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(2, 5)), int(rng.integers(2, 5))
        lat, lon = np.linspace(60, 20, ny), np.arange(nx) * 10.
        x = rng.normal(size=(ns * nd, ny, nx)) * 10
        valid = days(rng, ns, nd).ravel()
        leads = rng.choice([0, 6 * 3600, 24 * 3600, 120 * 3600, 90 * 60 + 30], ns * nd)
        d = tempfile.mkdtemp(dir=tmp)
        names, want, tm = [], x.copy(), {'init': [], 'valid': [], 'lead': []}
        for n in range(ns * nd):
            if rng.random() < .2 and n != ns * nd - 1:
                names.append('missing')
                want[n] = np.nan
                for v in tm.values():
                    v.append('')
                continue
            v = valid[n]
            vt = np.datetime64(f'{v[:4]}-{v[4:6]}-{v[6:8]}T{v[9:11]}:{v[11:13]}:{v[13:15]}')
            it = str(vt - np.timedelta64(int(leads[n]), 's')).replace('-', '').replace(':', '').replace('T', '_')
            data = np.ma.array(x[n], mask=rng.random((ny, nx)) < (.2 if rng.random() < .5 else 0))
            want[n] = data.filled(np.nan)
            names.append(os.path.join(d, f'f{n}.nc'))
            met_file(names[-1], lat, lon, 'Z500', data, it, v, -9999.)
            h, r = divmod(int(leads[n]), 3600)
            tm['init'].append(it), tm['valid'].append(v), tm['lead'].append(f'{h:02d}{r // 60:02d}{r % 60:02d}')
        ck.case_input = {'files': names, 'valid': list(valid)}
        with contextlib.redirect_stdout(io.StringIO()):
            got = ck.call(util.read_nc_met, names, 'Z500', ns, nd)
        if isinstance(got, Raised):
            ck.expect(False, 'read', str(got), monitor='read')
            continue
        arr = np.ma.filled(got[0], np.nan)
        ck.expect(arr.shape == (ns, nd, ny, nx) and np.array_equal(arr, want.reshape(arr.shape), equal_nan=True), 'read/data',
                  lambda: 'values differ from the files', monitor='read')
        ck.expect(np.allclose(got[1], lat) and np.allclose(got[2], lon), 'read/grid', 'grid differs', monitor='read')
        for k, v in tm.items():
            ck.expect(np.array_equal(got[3][k], np.reshape(v, (ns, nd))), 'read/' + k, lambda: f'{got[3][k]}, expected {v}', monitor='read')
        ck.nontrivial('read', ns, nd, names.count('missing'))
        got = ck.call(util.read_nc_met, ['missing'] * (ns * nd), 'Z500', ns, nd)
        ck.expect(isinstance(got, Raised), 'read/none', 'data from files that are all missing', monitor='read')
        # matched pairs
        pts = int(rng.integers(1, 5))
        obs, fc = rng.normal(size=(2, ns, nd, pts)) * 20
        la, lo = rng.uniform(-80, 80, pts), rng.uniform(-180, 180, pts)
        t = {k: np.reshape(v, (ns, nd)) for k, v in tm.items()}
        to = {'valid': np.array([[f'2000010{1 + b}_000000' for b in range(nd)] for _ in range(ns)]), 'lead': np.full((ns, nd), '000000')}
        desc = str(rng.choice(['WR', 'a_long_description']))
        got = ck.call(util.write_mpr_file, obs, fc, la, lo, to, t, 'GFS', desc, 'WR_F', 'none', 'Z500', 'WR_O', 'unit', 'P500', 'FULL', '500', os.path.join(d, 'mpr'))
        if isinstance(got, Raised):
            ck.expect(False, 'pairs', str(got), monitor='pairs')
            continue
        files = sorted(n for n in os.listdir(d) if n.endswith('.stat'))
        expect = {}
        for y in range(ns):
            for k in range(nd):
                v = t['valid'][y][k]
                if v:
                    expect[f'mpr_{t["lead"][y][k]}L_{v[:8]}_{v[9:15]}V.stat'] = (y, k)
        ck.expect(files == sorted(expect), 'pairs/names', lambda: f'{files}, expected {sorted(expect)}', monitor='pairs')
        for n in files:
            if n not in expect:
                continue
            y, k = expect[n]
            rows = [ln.split() for ln in open(os.path.join(d, n))]
            head, rows = rows[0], rows[1:]
            ck.expect(len(rows) == pts, 'pairs/rows', lambda: f'{len(rows)} rows for {pts} points', monitor='pairs')
            for p, r in enumerate(rows[:pts]):
                col = dict(zip(head, r))
                ok = col['MODEL'] == 'GFS' and col['DESC'] == desc and col['FCST_LEAD'] == t['lead'][y][k] and col['FCST_VALID_BEG'] == t['valid'][y][k] == col['FCST_VALID_END'] and \
                    col['OBS_VALID_BEG'] == to['valid'][y][k] == col['OBS_VALID_END'] and col['OBS_LEAD'] == to['lead'][y][k] and \
                    (col['FCST_VAR'], col['FCST_UNITS'], col['FCST_LEV'], col['OBS_VAR'], col['OBS_UNITS'], col['OBS_LEV'], col['VX_MASK'], col['LINE_TYPE']) == \
                    ('WR_F', 'none', 'Z500', 'WR_O', 'unit', 'P500', 'FULL', 'MPR')
                ok = ok and [col[c] for c in ('INTERP_MTHD', 'INTERP_PNTS', 'FCST_THRESH', 'OBS_THRESH', 'COV_THRESH', 'ALPHA')] == ['NEAREST', '1'] + ['NA'] * 4
                ck.expect(ok, 'pairs/header', lambda: f'{col}', monitor='pairs')
                # TOTAL INDEX OBS_SID OBS_LAT OBS_LON OBS_LVL OBS_ELV FCST OBS ...
                m = r[24:]
                ok = len(m) == 13 and (m[0], m[1], m[5]) == (str(pts), str(p + 1), '500') and m[2] == m[6] == 'NA' and set(m[9:]) == {'NA'} and all(abs(float(g) - w) < 5.1e-5 for g, w in ((m[3], la[p]), (m[4], lo[p]), (m[7], fc[y, k, p]), (m[8], obs[y, k, p])))
                ck.expect(ok, 'pairs/values', lambda: f'{m}, forecast {fc[y, k, p]} observed {obs[y, k, p]}', monitor='pairs')
        shutil.rmtree(d)
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(200)


main_guard(main)
