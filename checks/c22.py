"""C22: decision difficulty index of an ensemble and its piecewise linear envelope."""
import bisect
import math

import numpy as np

from vlib import Check, Raised, close, main_guard

EPS = float(np.finfo(np.float32).eps)


def line(xs, ys, left, right, x):
    if x < xs[0]:
        return left
    if x > xs[-1]:
        return right
    k = bisect.bisect_right(xs, x)
    if k == len(xs):
        return ys[-1]
    a, b = xs[k - 1], xs[k]
    return ys[k - 1] + (ys[k] - ys[k - 1]) * (x - a) / (b - a)


def knots(rng):
    n = int(rng.integers(2, 7))
    xs = sorted(float(v) for v in rng.choice(np.arange(-10, 40), n, replace=False))
    ys = [float(v) for v in rng.uniform(-1, 2, n)]
    if rng.random() < .3:                                  # whole numbers among them
        ys[0] = int(rng.integers(-1, 3))
    return xs, ys


def main():
    from metcalcpy.calc_difficulty_index import forecast_difficulty
    from metcalcpy.piecewise_linear import IncompatibleLengths, PiecewiseLinear, UnsortedArray
    ck = Check('C22', 'difficulty index and envelope against an independent reference')

    for rng, i in ck.cases('envelope', 600, 6000):
        xs, ys = knots(rng)
        left, right = (float(v) for v in rng.normal(size=2))
        ends = rng.random() < .6
        shape = [(7,), (3, 4), (2, 3, 2), ()][int(rng.integers(0, 4))]
        x = rng.uniform(xs[0] - 5, xs[-1] + 5, shape)
        if shape == (7,):
            x[:len(xs)] = xs
            x = x[:7]
        as_list = rng.random() < .3
        if len(shape) > 1 and rng.random() < .5:
            x = x.T if rng.random() < .5 else np.asfortranarray(x)
        elif shape == (7,) and rng.random() < .3:
            x = x[::-1]
        ck.case_input = {'xs': xs, 'ys': ys, 'x': x, 'left': left, 'right': right, 'ends': ends}
        f = ck.call(PiecewiseLinear, xs if i % 2 else np.array(xs), ys, **({'left': left, 'right': right} if ends else {}))
        got = ck.call(lambda: f.values(x.tolist() if as_list else x))
        if isinstance(got, Raised):
            ck.expect(False, 'envelope', f'{got}', monitor='envelope')
            continue
        ck.expect(np.shape(got) == np.shape(x), 'envelope/shape', lambda: f'shape {np.shape(got)} of {np.shape(x)}', monitor='envelope')
        for u, v in zip(np.ravel(x), np.ravel(got)):
            w = line(xs, ys, left if ends else math.nan, right if ends else math.nan, float(u))
            ck.expect(math.isnan(v) if math.isnan(w) else close(float(v), w, 1e-9), 'envelope/value', lambda: f'{u} in {xs}/{ys}: {v}, expected {w}',
                      monitor='envelope')
            ck.nontrivial('envelope', round(float(u), 9))
        ck.expect(close(float(f.get_ymax()), max(ys), 1e-12), 'envelope/max', lambda: f'maximum {f.get_ymax()} of {ys}', monitor='envelope')
        # knots out of order or of other number are refused
        wrong = list(xs)
        j = int(rng.integers(0, len(xs) - 1))
        wrong[j], wrong[j + 1] = wrong[j + 1], wrong[j]
        bad = ck.call(PiecewiseLinear, wrong, ys)
        ck.expect(isinstance(bad, Raised) and isinstance(bad.exc, UnsortedArray), 'envelope/unsorted', lambda: f'knots {wrong} accepted', monitor='refused')
        bad = ck.call(PiecewiseLinear, xs[:1], ys[:1])
        ck.expect(isinstance(bad, Raised) and isinstance(bad.exc, IncompatibleLengths), 'envelope/single', 'a single knot is accepted', monitor='refused')
        # a step: the same knot twice, judged away from it
        step = ck.call(PiecewiseLinear, xs[:j + 1] + [xs[j]] + xs[j + 1:], ys[:j] + [ys[j], 7.] + ys[j + 1:])
        mid = [(xs[j] + xs[j + 1]) / 2, xs[j + 1]]
        got = ck.call(lambda: step.values(mid))
        w = [(7. + ys[j + 1]) / 2, ys[j + 1]]
        ck.expect(not isinstance(got, Raised) and np.allclose(got, w, rtol=0, atol=1e-9), 'envelope/step', lambda: f'step at {xs[j]}: {got}, expected {w}', monitor='envelope')
        bad = ck.call(PiecewiseLinear, xs, ys + [1.])
        ck.expect(isinstance(bad, Raised) and isinstance(bad.exc, IncompatibleLengths), 'envelope/length', lambda: f'{len(xs)} and {len(ys) + 1} knots accepted',
                  monitor='refused')

    for rng, i in ck.cases('index', 500, 5000):
        shape = (int(rng.integers(1, 5)), int(rng.integers(1, 6)))
        m = int(rng.integers(2, 12))
        field = rng.rayleigh(scale=float(rng.uniform(2, 15)), size=shape + (m,))
        if rng.random() < .5:
            field = np.round(field)
        thr = float(rng.integers(2, 15)) if rng.random() < .7 else int(rng.integers(2, 15))
        if i % 6 == 0:                                     # around zero
            field = field - thr
            thr = type(thr)(0)
        mu = field.mean(-1) + .01
        sigma = field.std(-1) + .01
        if rng.random() < .2:
            mu = float(rng.uniform(3, 20))
        elif rng.random() < .3:
            # negative means, and points without a value
            if rng.random() < .5:
                mu = mu * rng.choice([-1., 1.], shape)
            else:
                gone = rng.random(shape) < .3
                sigma[gone] = np.nan
                if rng.random() < .5:
                    mu[gone] = np.nan
        if rng.random() < .3:
            sigma, field = np.asfortranarray(sigma), np.asfortranarray(field)
        ref = EPS if rng.random() < .5 else float(rng.uniform(.01, 3))
        env = None
        xs, ys, le, ri = [3., 9., 12., 21.], [0., 1.5, 1.5, 0.], 0., 0.
        if rng.random() < .5:
            xs, ys = knots(rng)
            le, ri = (float(v) for v in rng.uniform(0, 1, 2))
            env = PiecewiseLinear(xs, ys, left=le, right=ri)
        ck.case_input = {'field': field, 'sigma': sigma, 'mu': mu, 'threshold': thr, 'ref': ref, 'env': (xs, ys)}
        args = [sigma.copy(), mu if isinstance(mu, float) else mu.copy(), thr, field.copy(), env]
        got = ck.call(forecast_difficulty, *args, **({} if ref == EPS and i % 2 else {'sigma_over_mu_ref': ref}))
        if isinstance(got, Raised):
            ck.expect(False, 'index', f'{got}', monitor='index')
            continue
        ck.expect(np.array_equal(args[0], sigma, equal_nan=True) and np.array_equal(args[3], field) and np.array_equal(args[1], mu, equal_nan=True), 'index/inputs', 'an input changed',
                  monitor='inputs')
        mus = np.broadcast_to(mu, shape)
        known = [float(s) / float(u) for s, u in zip(sigma.ravel(), mus.ravel()) if not math.isnan(s) and not math.isnan(u)]
        if not known:
            ck.skip('no spread at all')
            continue
        top = max([ref] + known)
        for a in range(shape[0]):
            for b in range(shape[1]):
                under = sum(1 for v in field[a, b] if v < thr) / m
                w = .5 * line(xs, ys, le, ri, float(mus[a, b])) * (float(sigma[a, b]) / float(mus[a, b]) / top + 1 - abs(.5 - under))
                if math.isnan(w):
                    ck.expect(math.isnan(got[a, b]), 'index/missing', lambda: f'{got[a, b]} without a spread', monitor='index')
                    continue
                ck.expect(close(float(got[a, b]), w, 1e-9), 'index/value', lambda: f'{got[a, b]} at {a},{b}, expected {w}', monitor='index')
                if w:
                    ck.nontrivial('index', round(w, 12))
        bad_sigma = sigma.copy()
        bad_sigma[int(rng.integers(shape[0])), int(rng.integers(shape[1]))] = float(rng.choice([0., -1., -.01]))
        bads = [('mean', (sigma, np.ones((shape[0] + 1, shape[1])), thr, field, env))] if not isinstance(mu, float) else []
        for what, args in bads + [('spread', (bad_sigma, mu, thr, field, env)), ('shape', (sigma, mu, thr, field[:, :-1] if shape[1] > 1 else field[:0], env)),
                           ('dims', (sigma.ravel(), mu, thr, field, env))]:
            bad = ck.call(forecast_difficulty, *args)
            ck.expect(isinstance(bad, Raised), 'index/refused/' + what, lambda: f'{what}: accepted', monitor='refused')
        ck.sample({'shape': shape, 'members': m, 'threshold': thr})
    ck.finish(400)


main_guard(main)
