"""Line-type families for the batch programs: raw samples -> the row a MET file would carry -> what a statistic of any
set of rows must be.

Fam.draw(rng, n) makes the raw sample behind one row, Fam.row(raw) the columns of that row (means over the sample, as MET
writes them), Fam.ref([raw...]) the statistics of the pooled sample: {name: None (undecided) | (value or None, tolerance
[, range])}.
"""
import math

import numpy as np

from refs import ref_ctc, ref_grad, ref_sal1l2, ref_sl1l2, ref_vector, root_tol


class Fam:
    sure_none = False      # an undefined reference is exactly undefined after the means are multiplied out again
    extra = ()

    def start(self, rng):
        """choose the regime shared by all rows of a data set"""

    def size(self, rng):
        return int(rng.choice([1, 2, 3, 7, 20, 60]))


def _cat(raws):
    return [np.concatenate([r[i] for r in raws]) for i in range(len(raws[0]))]


class Sl1l2(Fam):
    line_type = 'sl1l2'

    def start(self, rng):
        self.kind = rng.choice(['normal', 'temp', 'int', 'precip', 'big'])

    def draw(self, rng, n):
        k = self.kind
        if k == 'normal':
            o = rng.normal(rng.normal(0, 2), 3, n)
            f = o * rng.uniform(-1, 1.5) + rng.normal(rng.uniform(-2, 2), 2, n)
        elif k == 'temp':
            o = rng.normal(280, 12, n)
            f = o + rng.normal(1, 3, n)
        elif k == 'int':
            o, f = rng.integers(-5, 12, n).astype(float), rng.integers(-5, 12, n).astype(float)
        elif k == 'precip':
            o = np.where(rng.random(n) < .6, 0, rng.gamma(1, 5, n)) + .01
            f = np.where(rng.random(n) < .6, 0, rng.gamma(1, 5, n)) + .01
        else:
            o = rng.normal(5500, 80, n)
            f = o + rng.normal(-5, 20, n)
        return f, o

    def row(self, raw):
        f, o = raw
        return {'total': len(f), 'fbar': f.mean(), 'obar': o.mean(), 'fobar': (f * o).mean(), 'ffbar': (f * f).mean(),
                'oobar': (o * o).mean(), 'mae': abs(f - o).mean()}

    def ref(self, raws):
        r, t = ref_sl1l2(*_cat(raws))
        return {k: None if isinstance(v, str) else (v, t[k]) for k, v in r.items()} | \
            {'sl1l2_total': (sum(len(x[0]) for x in raws), 1e-7)}


class Sal1l2(Sl1l2):
    line_type = 'sal1l2'

    def start(self, rng):
        self.kind = rng.choice(['normal', 'int'])

    def row(self, raw):
        f, o = raw
        return {'total': len(f), 'fabar': f.mean(), 'oabar': o.mean(), 'foabar': (f * o).mean(), 'ffabar': (f * f).mean(),
                'ooabar': (o * o).mean()}

    def ref(self, raws):
        r, t = ref_sal1l2(*_cat(raws))
        return {k: None if isinstance(v, str) else (v, t[k]) for k, v in r.items()}


class Grad(Fam):
    line_type = 'grad'

    def draw(self, rng, n):
        fg, og = abs(rng.normal(0, 3, n)), abs(rng.normal(0, 3, n))
        return fg, og, np.maximum(fg, og), abs(rng.normal(0, 1, n))

    def row(self, raw):
        return {'total': len(raw[0]), **{c: x.mean() for c, x in zip(('fgbar', 'ogbar', 'mgbar', 'egbar'), raw)}}

    def ref(self, raws):
        r, t = ref_grad(*_cat(raws))
        return {k: (v, t[k]) for k, v in r.items()} | {'grad_total': (sum(len(x[0]) for x in raws), 1e-7)}


class Vector(Fam):
    def start(self, rng):
        self.kind = rng.choice(['normal', 'light', 'strong'])
        self.mean = rng.normal(0, 6, (4, 1))

    def draw(self, rng, n):
        x = rng.normal(0, 5, (4, n)) + self.mean
        return tuple(x * {'normal': 1, 'light': .05, 'strong': 10}[self.kind])

    def row(self, raw):
        uf, vf, uo, vo = raw
        fs, os_ = np.hypot(uf, vf), np.hypot(uo, vo)
        cols = {'uf': uf, 'vf': vf, 'uo': uo, 'vo': vo, 'uvfo': uf * uo + vf * vo, 'uvff': fs * fs, 'uvoo': os_ * os_}
        res = {'total': len(uf)}
        if self.line_type in ('vl1l2', 'vcnt'):
            res |= {f'{c}bar': x.mean() for c, x in cols.items()} | {'f_speed_bar': fs.mean(), 'o_speed_bar': os_.mean()}
        if self.line_type in ('val1l2', 'vcnt'):
            res |= {f'{c}abar': x.mean() for c, x in cols.items()} | {'fa_speed_bar': fs.mean(), 'oa_speed_bar': os_.mean()}
        return res

    def ref(self, raws):
        r = ref_vector('generic', *_cat(raws))
        r = {'vcnt': r[0] | r[3], 'vl1l2': r[1], 'val1l2': r[2]}[self.line_type]
        r = {k: v for k, v in r.items()}
        if self.line_type == 'vl1l2':
            r['vl1l2_total'] = (sum(len(x[0]) for x in raws), 1e-7)
        return r


class Vl1l2(Vector):
    line_type = 'vl1l2'


class Val1l2(Vector):
    line_type = 'val1l2'


class Vcnt(Vector):
    line_type = 'vcnt'


def _root(v):
    return (math.sqrt(v), root_tol(v, 2e-7))


class Ecnt(Fam):
    line_type = 'ecnt'
    sure_none = True
    MEANS = ('crps', 'crpscl', 'crps_emp', 'crps_emp_fair', 'spread_md', 'crpscl_emp', 'mae', 'mae_oerr', 'ign', 'me', 'me_oerr')
    ROOTS = ('rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr')

    def draw(self, rng, n):
        c = {k: float(rng.gamma(1, 2)) + .01 for k in self.MEANS + self.ROOTS}
        for k in ('ign', 'me', 'me_oerr'):
            c[k] = float(rng.normal(0, 2))
        c['total'] = n
        c['n_ge_obs'] = int(rng.integers(0, n + 1))
        c['n_lt_obs'] = n - c['n_ge_obs']
        c['me_ge_obs'] = float(rng.gamma(1, 2)) + .05 if c['n_ge_obs'] else 0.
        c['me_lt_obs'] = -float(rng.gamma(1, 2)) - .05 if c['n_lt_obs'] else 0.
        return c

    def row(self, raw):
        ratio = raw['me_ge_obs'] / abs(raw['me_lt_obs']) if raw['me_lt_obs'] else 0.
        return dict(raw) | {'crpss': 1 - raw['crps'] / raw['crpscl'], 'crpss_emp': 1 - raw['crps_emp'] / raw['crpscl_emp'],
                            'bias_ratio': ratio, 'n_ens': 10, 'n_bin': 11}

    def ref(self, raws):
        N = sum(r['total'] for r in raws)
        w = {c: sum(r[c] * r['total'] for r in raws) / N for c in self.MEANS}
        res = {f'ecnt_{c}': (v, 1.1e-7) for c, v in w.items()}
        for c in self.ROOTS:
            res[f'ecnt_{c}'] = _root(sum(r[c] ** 2 * r['total'] for r in raws) / N)
        res['ecnt_crpss'] = (1 - w['crps'] / w['crpscl'], 1.1e-7)
        res['ecnt_crpss_emp'] = (1 - w['crps_emp'] / w['crpscl_emp'], 1.1e-7)
        res['ecnt_total'] = (N, 1e-7)
        a, b = sum(r['n_ge_obs'] for r in raws), sum(r['n_lt_obs'] for r in raws)
        res['ecnt_n_ge_obs'], res['ecnt_n_lt_obs'] = (a, 1e-7), (b, 1e-7)
        x = sum(r['n_ge_obs'] * r['me_ge_obs'] for r in raws) / a if a else None
        y = sum(r['n_lt_obs'] * r['me_lt_obs'] for r in raws) / b if b else None
        res['ecnt_me_ge_obs'], res['ecnt_me_lt_obs'] = (x, 1.1e-7), (y, 1.1e-7)
        res['ecnt_bias_ratio'] = (None, 0) if x is None or y is None else (x / abs(y), 2e-7 + 2e-7 * (1 + x / abs(y)) / abs(y))
        return res


class Rps(Fam):
    line_type = 'rps'

    def draw(self, rng, n):
        return {'total': n, 'rps': rng.uniform(.02, .9), 'rps_comp': rng.uniform(0, 1), 'climo': rng.uniform(.05, 1)}

    def row(self, raw):
        return {'total': raw['total'], 'rps': raw['rps'], 'rps_comp': raw['rps_comp'], 'rpss': 1 - raw['rps'] / raw['climo']}

    def ref(self, raws):
        N = sum(r['total'] for r in raws)
        w = {c: sum(r[c] * r['total'] for r in raws) / N for c in ('rps', 'rps_comp', 'climo')}
        return {'rps': (w['rps'], 1.1e-7), 'rps_comp': (w['rps_comp'], 1.1e-7), 'rpss': (1 - w['rps'] / w['climo'], 2e-7),
                'rps_total': (N, 1e-7)}


class Ssvar(Sl1l2):
    line_type = 'ssvar'

    def draw(self, rng, n):
        return super().draw(rng, n) + (rng.gamma(1, 3, n),)

    def row(self, raw):
        f, o, v = raw
        c = super().row((f, o))
        c.pop('mae')
        return {**c, 'total': 5 * len(f), 'bin_n': len(f), 'var_mean': v.mean()}

    def ref(self, raws):
        f, o, v = _cat(raws)
        r, t = ref_sl1l2(f, o)
        res = {f'ssvar_{c}': None if isinstance(r[c], str) else (r[c], t[c]) for c in
               ('fbar', 'fstdev', 'obar', 'ostdev', 'pr_corr', 'me', 'estdev', 'mse', 'bcmse', 'bcrmse', 'rmse', 'me2', 'msess')}
        r, t = ref_sal1l2(f, o)
        res['ssvar_anom_corr'] = None if isinstance(r['anom_corr'], str) else (r['anom_corr'], t['anom_corr'])
        res['ssvar_spread'] = _root(float(v.mean()))
        res['ssvar_total'] = (5 * len(f), 1e-7)
        return res


class NbrCnt(Fam):
    line_type = 'nbr_cnt'

    def draw(self, rng, n):
        n += 1
        f, o = rng.integers(0, 5, n) / 4, rng.integers(0, 5, n) / 4
        f[0], o[0] = .25, .75
        return f, o

    def row(self, raw):
        f, o = raw
        fbs, den, fr, orr = ((f - o) ** 2).mean(), (f * f).mean() + (o * o).mean(), f.mean(), o.mean()
        return {'total': len(f), 'fbs': fbs, 'fss': 1 - fbs / den, 'afss': 2 * fr * orr / (fr * fr + orr * orr),
                'ufss': .5 + orr / 2, 'f_rate': fr, 'o_rate': orr}

    def ref(self, raws):
        f, o = _cat(raws)
        fbs, den, fr, orr = ((f - o) ** 2).mean(), (f * f).mean() + (o * o).mean(), f.mean(), o.mean()
        v = {'fbs': fbs, 'fss': 1 - fbs / den, 'afss': 2 * fr * orr / (fr * fr + orr * orr), 'ufss': .5 + orr / 2,
             'f_rate': fr, 'o_rate': orr}
        return {f'nbr_{k}': (float(x), 1.5e-7) for k, x in v.items()} | {'nbr_cnt_total': (len(f), 1e-7)}


class Ctc(Fam):
    line_type = 'ctc'
    sure_none = True
    prefix = ''

    def start(self, rng):
        self.zero = rng.random(4) < rng.choice([0, 0, .3])
        self.big = int(rng.choice([3, 20, 2000]))
        self.ec = bool(rng.random() < .5)

    def draw(self, rng, n):
        c = rng.integers(0, self.big, 4)
        c[self.zero] = 0
        return c

    def row(self, raw):
        r = {'total': int(raw.sum()), 'fy_oy': int(raw[0]), 'fy_on': int(raw[1]), 'fn_oy': int(raw[2]), 'fn_on': int(raw[3])}
        if self.ec and not self.prefix:
            r['ec_value'] = .5
        return r

    def ref(self, raws):
        r = ref_ctc(*[int(x) for x in np.sum(raws, axis=0)])
        return {self.prefix + k: None if v[0] == 'skip' else v for k, v in r.items() if not k.startswith('pod_')}


class Cts(Ctc):
    line_type = 'cts'


class NbrCtc(Ctc):
    line_type = 'nbr_ctc'
    prefix = 'nbr_'

    def ref(self, raws):
        from metcalcpy.util import nbrctc_statistics as ns
        return {k: v for k, v in super().ref(raws).items() if hasattr(ns, f'calculate_{k}')}


class Mctc(Fam):
    line_type = 'mctc'
    sure_none = True

    def start(self, rng):
        self.c = int(rng.integers(2, 6))
        self.ec = float(rng.choice([.5, .25, 1 / self.c]))
        self.big = int(rng.choice([2, 10, 500]))

    def draw(self, rng, n):
        return rng.integers(0, self.big, (self.c, self.c))

    def row(self, raw):
        r = {'total': int(raw.sum()), 'n_cat': self.c, 'ec_value': self.ec}
        for a in range(self.c):
            for b in range(self.c):
                k = a * self.c + b
                r |= {f'i_value_{k}': a + 1, f'j_value_{k}': b + 1, f'fi_oj_{k}': int(raw[a, b])}
        return r

    def ref(self, raws):
        m = np.sum(raws, axis=0)
        t, d = int(m.sum()), int(np.trace(m))
        return {'mcts_hss_ec': (None, 0) if t == 0 else ((d - self.ec * t) / (t - self.ec * t), 1.1e-7)}


class Pct(Fam):
    """base=True keeps the same base rate in every row (the driver uses the base rate of the whole series)"""
    line_type = 'pct'

    def start(self, rng):
        self.k = int(rng.integers(2, 7))
        self.th = np.sort(rng.choice(np.arange(0, 100), self.k, replace=False)) / 100

    def draw(self, rng, n):
        return rng.integers(0, 30, (2, self.k)) + np.array([[1] + [0] * (self.k - 1)] * 2)

    def row(self, raw):
        r = {'total': int(raw.sum()), 'n_thresh': self.k}
        for b in range(self.k):
            r |= {f'thresh_i_{b}': self.th[b], f'oy_i_{b}': int(raw[0, b]), f'on_i_{b}': int(raw[1, b])}
        return r

    def ref(self, raws):
        m = np.sum(raws, axis=0).astype(float)
        E, NE, P = m[0], m[1], self.th
        T, S = m.sum(), m[0].sum()
        ob, use = S / T, (E + NE) > 0
        n = (E + NE)[use]
        oi = E[use] / n
        rel, res, unc = (n * (P[use] - oi) ** 2).sum() / T, (n * (oi - ob) ** 2).sum() / T, ob * (1 - ob)
        brier = (E * (1 - P) ** 2 + NE * P ** 2).sum() / T
        auc = sum(E[a] * NE[b] * (1 if a > b else .5 if a == b else 0) for a in range(self.k) for b in range(self.k)) \
            / (S * (T - S))
        v = {'brier': brier, 'baser': ob, 'reliability': rel, 'resolution': res, 'uncertainty': unc,
             'bss_smpl': 1 - brier / unc, 'roc_auc': auc}
        return {f'pstd_{k}': (float(x), 1.2e-7) for k, x in v.items()} | {'pct_total': (T, 1e-7)}


ALL = [Sl1l2, Sal1l2, Grad, Vl1l2, Val1l2, Vcnt, Ecnt, Rps, Ssvar, NbrCnt, Ctc, Cts, NbrCtc, Mctc, Pct]
