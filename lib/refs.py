"""Reference values computed from raw samples, with the tolerance each deserves.

ref_* return ({statistic: value | None (undefined) | 'skip' (ill-conditioned)}, {statistic: tolerance}).
"""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from scipy.optimize import brentq


def ref_sl1l2(f, o):
    n = len(f)
    e = f - o
    r = {'fbar': np.mean(f), 'obar': np.mean(o), 'fobar': np.mean(f * o), 'ffbar': np.mean(f * f),
         'oobar': np.mean(o * o), 'mae': np.mean(abs(e)), 'me': np.mean(e), 'me2': np.mean(e) ** 2,
         'mse': np.mean(e * e), 'rmse': math.sqrt(np.mean(e * e))}
    fb, ob = r['fbar'], r['obar']
    scale = max(1., r['ffbar'], r['oobar'])
    t = {k: 1e-7 + 1e-11 * scale for k in r}
    t['me2'] = 2e-7 * (1 + 2 * abs(r['me']))
    emse = 2e-7 + 1e-12 * scale

    def const(x):
        return bool(np.all(x == x[0])) and float(x[0]).is_integer() and abs(x[0]) < 1000

    def root(v, err):
        return math.sqrt(max(v, 0) + err) - math.sqrt(max(v - err, 0)) + 1e-7
    t['rmse'] = root(r['mse'], emse)
    r['mbias'] = None if ob == 0 else fb / ob
    r['fe'] = None if fb == 0 else (fb - ob) / fb
    for k, b in (('mbias', ob), ('fe', fb)):
        t[k] = 1e-7 if r[k] is None else 1e-7 + (abs(r[k]) + 1) * 1e-9
        if 0 < abs(b) < 1e-3 * math.sqrt(scale):
            r[k] = 'skip'
    r['si'] = None if ob == 0 else r['rmse'] / ob
    if r['si'] is not None:
        t['si'] = 1e-7 + (t['rmse'] + abs(r['si']) * 1e-7) / abs(ob) * 1.5
        if abs(ob) < 1e-3 * math.sqrt(scale):
            r['si'] = 'skip'
    else:
        t['si'] = 0
    r['bcmse'] = r['mse'] - r['me'] ** 2
    t['bcmse'] = emse + 2e-7 * (1 + 2 * abs(r['me']))
    r['bcrmse'] = math.sqrt(max(r['bcmse'], 0))
    t['bcrmse'] = root(r['bcmse'], t['bcmse'])
    if const(f) and const(o):
        r['bcrmse'], t['bcrmse'] = 0., 1e-7
    elif r['bcmse'] < 1e-5 * max(1, r['me'] ** 2):
        r['bcrmse'] = 'skip'
    for k, x in (('fstdev', f), ('ostdev', o), ('estdev', e)):
        if n < 2:
            r[k], t[k] = None, 0
        else:
            v = np.var(x, ddof=1)
            r[k] = math.sqrt(v)
            err = 1e-12 * scale + (3e-7 * (1 + 2 * abs(np.mean(x))) * n / (n - 1) if k == 'estdev' else 0)
            t[k] = root(v, err)
            if const(x) and (k != 'estdev' or (const(f) and const(o))):
                r[k], t[k] = 0., 1e-7
            elif v < 1e-6 * max(1., np.mean(x) ** 2):
                r[k] = 'skip'
    if n < 2:
        r['msess'], t['msess'] = None, 0
    else:
        v = np.var(o, ddof=1)
        if const(o):
            r['msess'], t['msess'] = None, 0
        elif v < 1e-3:
            r['msess'] = 'skip'
        else:
            r['msess'] = 1 - r['mse'] / v
            t['msess'] = 2e-7 + (emse + r['mse'] * (2e-7 * math.sqrt(v) + 1e-12 * scale) / v) / v
    vf, vo = np.var(f), np.var(o)
    if (np.all(f == f[0]) and float(f[0]).is_integer()) or (np.all(o == o[0]) and float(o[0]).is_integer()):
        r['pr_corr'], t['pr_corr'] = None, 0
    elif vf < 1e-6 * max(1, fb ** 2) or vo < 1e-6 * max(1, ob ** 2):
        r['pr_corr'] = 'skip'
    else:
        c = np.mean((f - fb) * (o - ob)) / math.sqrt(vf * vo)
        r['pr_corr'], t['pr_corr'] = c, 1e-7 + 1e-12 * scale / min(vf, vo)
        if abs(c) > 1 - 1e-7:
            r['pr_corr'] = 'skip'
    return r, t


def ref_sal1l2(fa, oa):
    fb, ob, ff, oo, fo = (np.mean(x) for x in (fa, oa, fa * fa, oa * oa, fa * oa))
    scale = max(1., ff, oo)
    r, t = {}, {}
    vf, vo = np.var(fa), np.var(oa)
    if np.all(fa == fa[0]) or np.all(oa == oa[0]):
        # exactly degenerate only if every mean is exact
        ok = all(float(x).is_integer() for x in (fa[0], oa[0]))
        r['anom_corr'], t['anom_corr'] = (None if ok else 'skip'), 0
    elif vf < 1e-6 * max(1, fb ** 2) or vo < 1e-6 * max(1, ob ** 2):
        r['anom_corr'] = 'skip'
    else:
        c = (fo - fb * ob) / math.sqrt(vf * vo)
        r['anom_corr'], t['anom_corr'] = c, 1e-7 + 1e-12 * scale / min(vf, vo)
        if abs(c) > 1 - 1e-7:
            r['anom_corr'] = 'skip'
    if ff * oo == 0:
        r['anom_corr_raw'], t['anom_corr_raw'] = None, 0
    else:
        r['anom_corr_raw'], t['anom_corr_raw'] = max(-1, min(1, fo / math.sqrt(ff * oo))), 2e-7
    r['rmsfa'], t['rmsfa'] = math.sqrt(ff), 2e-7
    r['rmsoa'], t['rmsoa'] = math.sqrt(oo), 2e-7
    return r, t


def ref_grad(fg, og, mg, eg):
    fb, ob, mb, eb = (np.mean(x) for x in (fg, og, mg, eg))
    r = {'fgbar': fb, 'ogbar': ob, 'mgbar': mb, 'egbar': eb}
    r['s1'] = None if mb == 0 else 100 * eb / mb
    r['s1_og'] = None if ob == 0 else 100 * eb / ob
    r['fgog_ratio'] = None if ob == 0 else 100 * fb / ob
    t = {k: 1e-7 + 1e-9 * abs(v or 0) for k, v in r.items()}
    return r, t


def vector_samples(rng, n):
    kind = rng.choice(['normal', 'int', 'light', 'strong', 'calm_o', 'calm_f', 'zero_mean', 'same'])
    uf, vf, uo, vo = rng.normal(0, 5, (4, n)) + rng.normal(0, 6, (4, 1))
    if kind == 'int':
        uf, vf, uo, vo = rng.integers(-6, 7, (4, n)).astype(float)
    elif kind == 'light':
        uf, vf, uo, vo = (x / 20 for x in (uf, vf, uo, vo))
    elif kind == 'strong':
        uf, vf, uo, vo = (x * 10 for x in (uf, vf, uo, vo))
    elif kind == 'calm_o':
        uo, vo = np.zeros(n), np.zeros(n)
    elif kind == 'calm_f':
        uf, vf = np.zeros(n), np.zeros(n)
    elif kind == 'zero_mean':
        uf, vf, uo, vo = rng.integers(-6, 7, (4, n)).astype(float)
        for x in (uo, vo) if rng.random() < .5 else (uf, vf):
            x[-1] -= x.sum()
    elif kind == 'same':
        uf, vf = uo.copy(), vo.copy()
    return kind, uf, vf, uo, vo


def wdir(u, v):
    """direction the wind comes from, degrees in [0,360)"""
    return math.degrees(math.atan2(-u, -v)) % 360


def root_tol(v, err):
    return math.sqrt(max(v, 0) + err) - math.sqrt(max(v - err, 0)) + 1e-7


def ref_vector(kind, uf, vf, uo, vo):
    """-> references of the vcnt, vl1l2, val1l2 and vcnt-anomaly statistics: {name: None (undecided) | (value, tolerance[, range])}"""
    fs, os_ = np.hypot(uf, vf), np.hypot(uo, vo)
    ff, oo, fo = np.mean(fs * fs), np.mean(os_ * os_), np.mean(uf * uo + vf * vo)
    U, V, X, Y = (float(np.mean(x)) for x in (uf, vf, uo, vo))
    scale = max(1., ff, oo)
    e = 1e-7 + 1e-12 * scale
    fspd, ospd = math.hypot(U, V), math.hypot(X, Y)
    msve = float(np.mean((uf - uo) ** 2 + (vf - vo) ** 2))
    exact = kind in ('int', 'zero_mean')
    ref = {'vcnt_fbar': (np.mean(fs), e), 'vcnt_obar': (np.mean(os_), e),
           'vcnt_fs_rms': (math.sqrt(ff), e), 'vcnt_os_rms': (math.sqrt(oo), e)}
    # a tiny negative rounding result of a zero msve is reported as missing: undecided there
    if msve > 1e-9 * scale:
        ref['vcnt_msve'] = (msve, e)
        ref['vcnt_rmsve'] = (math.sqrt(msve), root_tol(msve, e))
    elif kind == 'same':
        # forecast identical to observation: the three sums are the same number
        ref['vcnt_msve'] = ref['vcnt_rmsve'] = (0., 1e-7)
    else:
        ref['vcnt_msve'] = ref['vcnt_rmsve'] = None
    for k, s in (('vcnt_fstdev', fs), ('vcnt_ostdev', os_)):
        v = np.var(s)
        ref[k] = (math.sqrt(v), root_tol(v, e)) if v > 1e-5 * max(1, np.mean(s) ** 2) else None
    # calm winds have no direction; near the calm tolerance nothing is claimed
    calm = 1e-3 * math.sqrt(scale)

    def direction(u, v):
        if u == 0 and v == 0 and (exact or kind.startswith('calm')):
            return (None, 0)
        if math.hypot(u, v) < calm or max(abs(u), abs(v)) < 1e-4:
            return None
        return (wdir(u, v), 2e-6 + 1e-9 / math.hypot(u, v), (0, 360))
    ref['vcnt_fdir'], ref['vcnt_odir'] = direction(U, V), direction(X, Y)
    ref['vcnt_fbar_speed'], ref['vcnt_obar_speed'] = (fspd, e), (ospd, e)
    ref['vcnt_vdiff_speed'] = (math.hypot(U - X, V - Y), e)
    ref['vcnt_vdiff_dir'] = (None, 0) if kind == 'same' else direction(U - X, V - Y)
    ref['vcnt_speed_err'] = (fspd - ospd, 3 * e)
    ref['vcnt_speed_abserr'] = (abs(fspd - ospd), 3 * e)
    if (fspd == 0 or ospd == 0) and (exact or kind.startswith('calm')):
        ref['vcnt_dir_err'] = ref['vcnt_dir_abser'] = (None, 0)
    elif fspd < calm or ospd < calm or fspd < 1e-4 or ospd < 1e-4:
        ref['vcnt_dir_err'] = ref['vcnt_dir_abser'] = None
    else:
        # positive when the forecast is counter clockwise from the observed vector
        d = math.degrees(math.atan2(V * X - U * Y, U * X + V * Y))
        t = 2e-6 + 1e-5 / min(fspd, ospd) * 1e-2
        ref['vcnt_dir_err'] = (d, t, (-180, 180))
        ref['vcnt_dir_abser'] = (abs(d), t)
    ref2 = {'vl1l2_bias': (math.sqrt(ff) - math.sqrt(oo), 2 * e), 'vl1l2_fvar': (np.var(fs), e),
            'vl1l2_ovar': (np.var(os_), e), 'vl1l2_fspd': (fspd, e), 'vl1l2_ospd': (ospd, e),
            'vl1l2_speed_err': (fspd - ospd, 3 * e), 'vl1l2_msve': ref['vcnt_msve'],
            'vl1l2_rmsve': ref['vcnt_rmsve']}
    ref3, ref4 = {}, {}
    a, b = ff - U * U - V * V, oo - X * X - Y * Y
    if min(a, b) > 1e-4 * scale:
        c = (fo - U * X - V * Y) / math.sqrt(a * b)
        ref3['val1l2_anom_corr'] = (c, 1e-7 + 1e-11 * scale / min(a, b))
    elif kind in ('calm_o', 'calm_f'):
        ref3['val1l2_anom_corr'] = (None, 0)
    else:
        ref3['val1l2_anom_corr'] = None
    a, b = np.var(fs), np.var(os_)
    if min(a, b) > 1e-4 * scale:
        c = (fo - np.mean(fs) * np.mean(os_)) / math.sqrt(a * b)
        ref4['vcnt_anom_corr'] = (max(-1., min(1., c)), 1e-7 + 1e-11 * scale / min(a, b))
    elif kind in ('calm_o', 'calm_f'):
        ref4['vcnt_anom_corr'] = (None, 0)
    else:
        ref4['vcnt_anom_corr'] = None
    if ff * oo == 0:
        ref4['vcnt_anom_corr_uncntr'] = (None, 0)
    else:
        ref4['vcnt_anom_corr_uncntr'] = (max(-1., min(1., fo / math.sqrt(ff * oo))), 2e-7)
    return ref, ref2, ref3, ref4


def samples(rng, n):
    """raw forecast/observation pairs in various regimes"""
    kind = rng.choice(['normal', 'temp', 'int', 'tiny', 'const', 'zeromean', 'precip', 'big'])
    if kind == 'normal':
        o = rng.normal(0, 3, n)
        f = o * rng.uniform(-1, 1.5) + rng.normal(rng.uniform(-2, 2), 2, n)
    elif kind == 'temp':
        o = rng.normal(280, 12, n)
        f = o + rng.normal(1, 3, n)
    elif kind == 'int':
        o, f = rng.integers(-5, 9, n).astype(float), rng.integers(-5, 9, n).astype(float)
    elif kind == 'tiny':
        o = rng.uniform(0, .05, n)
        f = rng.uniform(0, .08, n)
    elif kind == 'const':
        o, f = np.full(n, float(rng.integers(-3, 4))), rng.integers(-4, 5, n).astype(float)
        if rng.random() < .2:
            f = np.full(n, float(rng.integers(-3, 4)))
        if rng.random() < .5:
            o, f = f, o
    elif kind == 'zeromean':
        o = rng.integers(-4, 5, n).astype(float)
        f = rng.integers(-4, 5, n).astype(float)
        (o if rng.random() < .5 else f)[:] -= 0
        x = o if rng.random() < .5 else f
        x[-1] -= x.sum()
    elif kind == 'precip':
        o = np.where(rng.random(n) < .6, 0, rng.gamma(1, 5, n))
        f = np.where(rng.random(n) < .6, 0, rng.gamma(1, 5, n))
    else:
        o = rng.normal(5500, 80, n)
        f = o + rng.normal(-5, 20, n)
    return kind, f, o


D = 5.5e-8


def div(a, b):
    return None if b == 0 else F(a) / F(b)


def lam(z):
    return brentq(lambda w: w * math.exp(w) - z, 0, max(2.0, math.log(z + 1) + 2), xtol=1e-15, rtol=1e-15)


def ref_ctc(a, b, c, d):
    """a=fy_oy b=fy_on c=fn_oy d=fn_on (ints) -> {score: (value|None, tolerance)}"""
    n = a + b + c + d
    r = {}

    def put(k, v, tol=6e-8):
        r[k] = (None if v is None else float(v), tol)

    put('baser', div(a + c, n))
    put('acc', div(a + d, n))
    put('fbias', div(a + b, a + c))
    put('fmean', div(a + b, n))
    pody, pofd = div(a, a + c), div(b, b + d)
    put('pody', pody)
    put('pod_yes', pody)
    put('pofd', pofd)
    podn = div(d, b + d)
    put('podn', podn)
    put('pod_no', podn)
    put('far', div(b, a + b))
    put('csi', div(a, a + b + c))
    if n == 0:
        put('gss', None)
        put('hss', None)
    else:
        ch = F((a + b) * (a + c), n)
        put('gss', div(a - ch, a + b + c - ch))
        ch2 = F((a + b) * (a + c) + (c + d) * (b + d), n)
        put('hss', div(a + d - ch2, n - ch2))
    put('hk', None if pody is None or pofd is None else pody - pofd, 1.7e-7)

    def through(f, *p):
        """value of f at p and how far rounding each p to 7 decimals may move it"""
        try:
            v = f(*map(float, p))
        except (ValueError, ZeroDivisionError):
            return None, 0
        t = 0.
        for s in itertools.product((-D, D), repeat=len(p)):
            try:
                t = max(t, abs(f(*[float(x) + e if 0 < x < 1 else float(x) for x, e in zip(p, s)]) - v))
            except (ValueError, ZeroDivisionError):
                return 'skip', 0
        return v, 6e-8 + 1.3 * t

    def unsure(*p):
        return any(0 < x < F(1, 10 ** 6) or 0 < 1 - x < F(1, 10 ** 6) for x in p)

    if pody is None or pofd is None:
        for k in ('odds', 'odds1', 'sedi', 'edi'):
            put(k, None)
    elif unsure(pody, pofd):
        for k in ('odds', 'odds1', 'sedi', 'edi'):
            r[k] = ('skip', 0)
    else:
        r['odds'] = through(lambda h, f: h * (1 - f) / (f * (1 - h)), pody, pofd)
        # odds1 = [h/(1-h)] / [f/(1-f)]
        r['odds1'] = through(lambda h, f: (h / (1 - h)) / (f / (1 - f)), pody, pofd)
        if pody in (0, 1) or pofd in (0, 1):
            put('sedi', None)
        else:
            L = math.log
            r['sedi'] = through(lambda h, f: (L(f) - L(h) - L(1 - f) + L(1 - h)) /
                                (L(f) + L(h) + L(1 - f) + L(1 - h)), pody, pofd)
        if pody == 0 or pofd == 0 or (pody == 1 and pofd == 1):
            put('edi', None)
        else:
            L = math.log
            r['edi'] = through(lambda h, f: (L(f) - L(h)) / (L(f) + L(h)), pody, pofd)
    put('lodds', None if 0 in (a, b, c, d) else
        math.log(a) + math.log(d) - math.log(b) - math.log(c), 1e-7)
    put('orss', div(a * d - b * c, a * d + b * c))
    if n == 0 or a == 0 or a == n:
        put('seds', None)
        put('eds', None)
    else:
        put('seds', (math.log((a + b) / n) + math.log((a + c) / n)) / math.log(a / n) - 1, 1e-7)
        put('eds', 2 * math.log((a + c) / n) / math.log(a / n) - 1, 1e-7)
    if 0 in (a, b, c) or n == 0:
        # b == 0 makes the bias correction undefined
        put('bagss', None)
    else:
        o = a + c
        lf = math.log(o / c)
        ha = o - (b / lf) * lam(o / b * lf)
        den = 2 * o - ha - o * o / n
        r['bagss'] = ('skip', 0) if abs(den) < 1e-6 * o else ((ha - o * o / n) / den, 1e-6)
    for k, v in (('ctc_total', n), ('cts_total', n), ('ctc_fn_on', d), ('ctc_fn_oy', c), ('ctc_fy_on', b),
                 ('ctc_fy_oy', a), ('ctc_oy', a + c), ('ctc_on', b + d), ('ctc_fy', a + b), ('ctc_fn', c + d)):
        put(k, v)
    return r


def resamples(n, b=1):
    """every resample of n rows in circular blocks of b: [(how often each row is in it, probability)]"""
    blocks = -(-n // b)
    res = {}
    for starts in itertools.product(range(n), repeat=blocks):
        idx = [(s + k) % n for s in starts for k in range(b)][:n]
        c = [0] * n
        for j in idx:
            c[j] += 1
        res[tuple(c)] = res.get(tuple(c), 0) + 1
    return [(c, k / n ** blocks) for c, k in sorted(res.items())]


def percentiles_ok(values, probs, lo, hi, alpha, B, eps=1e-6):
    """could [lo, hi] be the alpha/2 and 1-alpha/2 percentiles of B draws of this distribution?"""
    v, p = np.asarray(values, float), np.asarray(probs, float)
    for x, q in ((lo, alpha / 2), (hi, 1 - alpha / 2)):
        tol = 5 * math.sqrt(q * (1 - q) / B) + 2 / B
        if p[v < x - eps].sum() > q + tol or p[v <= x + eps].sum() < q - tol:
            return False
    return True
