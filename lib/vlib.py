"""Shared run-time of the METcalcpy monitors.

A check is a python module in /verif/checks that builds a `Check`, drives the real code of
/repo under generated workloads, and feeds what it observed to oracles.  The Check keeps the
books: how many executions were observed, how many were distinct and non-trivial, which
violations were seen (keyed by mechanism), and writes the evidence file and the replay files.

Verdict: exit 0 = held on everything observed, exit 1 + VIOLATION line = violated,
exit 3 = inconclusive (nothing was observed, or the monitor itself broke).
"""
import contextlib
import hashlib
import io
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402


class Crash(Exception):
    """the code under test let an exception escape"""


class Raised:
    """value standing for 'the call raised this exception'"""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc).__name__
        self.text = f'{type(exc).__name__}: {exc}'[:300]
        tb = traceback.extract_tb(exc.__traceback__)
        self.where = ''
        for fr in reversed(tb):
            if '/metcalcpy/' in fr.filename:
                self.where = f'{os.path.basename(fr.filename)}:{fr.name}'
                break

    def __repr__(self):
        return f'<raised {self.text} in {self.where}>'


def jsonable(x):
    import pandas as pd
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.to_csv(sep='\t')
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        v = float(x)
        return v if math.isfinite(v) else repr(v)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


# checks whose cases are cheap make more of them on the quick tier
MORE = {'C01': 2, 'C02': 4, 'C03': 2, 'C05': 2, 'C07': 6, 'C08': 4, 'C09': 4, 'C10': 3, 'C14': 4, 'C16': 3, 'C17': 15, 'C18': 3, 'C19': 15,
        'C21': 6, 'C22': 10, 'C24': 3, 'C25': 20, 'C26': 3, 'C27': 3, 'C28': 6, 'C29': 4, 'C30': 5, 'C31': 4, 'C32': 4, 'C33': 12, 'C34': 2}


class Check:
    current = None

    def __init__(self, pid, rule, level='exploration', assumptions=()):
        Check.current = self
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.only = None
        if '--case' in sys.argv:
            self.only = sys.argv[sys.argv.index('--case') + 1]
        self.quick = self.tier != 'thorough'
        self.evaluations = 0
        self.observed = {}            # named monitor -> number of observations judged
        self.distinct = set()
        self.samples = []
        self.violations = {}          # key -> [count, first message, replay]
        self.case_id = None
        self.case_input = None
        self.undecided = {}
        self.known = self._load_known()
        self.budget = float(os.environ.get('VERIF_BUDGET', '0')) or (150.0 if self.quick else 600.0)

    # ------------------------------------------------------------------ cases
    def _load_known(self):
        res = {}
        path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(path):
            for line in open(path):
                # known: property=<id> key=<key> <what fails>
                if line.startswith(f'known: property={self.pid} key='):
                    key, what = line.strip().split(' key=', 1)[1].split(' ', 1)
                    res[key] = what
        return res

    def rng(self, *tag):
        h = hashlib.sha256(repr((self.seed, self.pid) + tag).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    def cases(self, family, quick, thorough):
        """yield (rng, index) for the cases of a family; honours --case and the time budget"""
        n = max(quick, min(quick * MORE.get(self.pid, 1), thorough)) if self.quick else thorough
        start = time.time()
        for i in range(n):
            cid = f'{family}:{i}'
            if self.only is not None and cid != self.only:
                continue
            if self.only is None and time.time() - self.t0 > self.budget and i >= max(3, quick // 10):
                self.undecided[f'{family}: stopped by time budget after cases'] = i
                break
            self.case_id = cid
            self.case_input = None
            self.evaluations += 1
            # code that draws without a seed of its own gives the same in every run
            state = int(hashlib.sha1(f'{self.seed}/{cid}'.encode()).hexdigest()[:8], 16)
            np.random.seed(state)
            random.seed(state)
            yield self.rng(family, i), i
        self.case_id = None
        self.observed.setdefault(f'{family}.cases', 0)
        self.times = getattr(self, 'times', {})
        self.times[family] = round(time.time() - start, 2)

    def nontrivial(self, *fp):
        """count a distinct non-trivial case, identified by fp"""
        self.distinct.add(hashlib.sha1(repr(fp).encode()).hexdigest())

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable({'case': self.case_id, **obj}))

    def note(self, monitor, n=1):
        self.observed[monitor] = self.observed.get(monitor, 0) + n

    def skip(self, why, n=1):
        self.undecided[why] = self.undecided.get(why, 0) + n

    # ------------------------------------------------------------------ calls
    def call(self, fn, *a, **k):
        """run the real code; exceptions come back as Raised; stdout is swallowed;
        the warnings filters are put back afterwards"""
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate():
            warnings.simplefilter('ignore')
            try:
                return fn(*a, **k)
            except (KeyboardInterrupt, MemoryError):
                raise
            except SystemExit as e:
                return Raised(e)
            except BaseException as e:  # noqa
                return Raised(e)

    # ------------------------------------------------------------- violations
    def violation(self, key, msg, data=None):
        if key in self.violations:
            self.violations[key][0] += 1
            return
        replay = os.path.join(VERIF, 'evidence', 'replay', f'{self.pid}-{len(self.violations):02d}.json')
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        doc = {'property': self.pid, 'key': key, 'message': msg, 'case': self.case_id,
               'seed': self.seed, 'tier': self.tier,
               'command': f'VERIF_SEED={self.seed} bash /verif/run.sh {self.pid} {self.tier} --case {self.case_id}',
               'input': jsonable(self.case_input), 'data': jsonable(data)}
        with open(replay, 'w') as f:
            json.dump(doc, f, indent=1)
        self.violations[key] = [1, msg, replay]
        if os.environ.get('VERIF_FAILFAST') and key not in self.known:   # tools/mutate.py only asks whether
            print(f'VIOLATION property={self.pid} replay={replay} {key}', flush=True)
            os._exit(1)

    def expect(self, cond, key, msg, data=None, monitor=None):
        self.note(monitor or key.split('/')[0])
        if not cond:
            self.violation(key, msg() if callable(msg) else msg, data)
        return bool(cond)

    # -------------------------------------------------------------------- end
    def finish(self, min_observed=1):
        total_obs = sum(v for k, v in self.observed.items() if not k.endswith('.cases'))
        unlisted = {k: v for k, v in self.violations.items() if k not in self.known}
        listed = {k: v for k, v in self.violations.items() if k in self.known}
        for k in sorted(listed):
            print(f'KNOWN-FINDING: property={self.pid} {self.known[k]} (seen {listed[k][0]}x)')
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(unlisted),
            'assumptions': self.assumptions,
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.rule,
                'samples': self.samples or ['(none)'],
                'observations_judged': total_obs,
                'observations_by_monitor': dict(sorted((k, v) for k, v in self.observed.items()
                                                       if not k.endswith('.cases'))),
                'undecided': self.undecided,
                'known_findings_seen': {k: v[0] for k, v in listed.items()},
                'violations': {k: {'count': v[0], 'message': v[1]} for k, v in unlisted.items()},
            },
        }
        if self.only is None:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            tmp = os.path.join(VERIF, 'evidence', f'.{self.pid}.tmp')
            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1)
            os.replace(tmp, os.path.join(VERIF, 'evidence', f'{self.pid}.json'))
        print(f'{self.pid} tier={self.tier} seed={self.seed} cases={self.evaluations} '
              f'distinct={len(self.distinct)} observations={total_obs} wall={ev["wall_s"]}s')
        for k in sorted(self.undecided):
            print(f'  undecided: {k}: {self.undecided[k]}')
        if unlisted:
            for k in sorted(unlisted):
                c, m, r = unlisted[k]
                print(f'VIOLATION property={self.pid} replay={r}')
                print(f'    [{k}] x{c}: {m}'[:1500])
            sys.exit(1)
        if self.only is None and (total_obs < min_observed or not self.distinct):
            print(f'INCONCLUSIVE: only {total_obs} observations (needed {min_observed})')
            sys.exit(3)
        sys.exit(0)


# ---------------------------------------------------------------- comparisons
def is_missing(x):
    if x is None:
        return True
    try:
        return isinstance(x, (float, np.floating)) and math.isnan(x)
    except TypeError:
        return False


def close(got, want, atol=6e-8, rtol=1e-9):
    """got (as returned, rounded to 7 decimals) against an exact reference value"""
    if want is None:
        return is_missing(got)
    if isinstance(got, Raised) or is_missing(got):
        return False
    try:
        g = float(got)
    except (TypeError, ValueError):
        return False
    w = float(want)
    if math.isnan(g) or math.isinf(g):
        return g == w
    return abs(g - w) <= atol + rtol * max(abs(w), abs(g))


def main_guard(fn):
    """run a check body.  What the code under test hands over may be so malformed (no file, other type, other
    shape) that the monitor stumbles over it while judging a case: that is a violation of the case.  A module that
    cannot be imported, a full disk or an error outside a case is exit 3, never a verdict"""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        traceback.print_exc()
        ck = Check.current
        infra = isinstance(e, (ImportError, MemoryError, KeyboardInterrupt)) or (isinstance(e, OSError) and e.errno in (12, 23, 24, 28)) or \
            (isinstance(e, AttributeError) and "module 'metcalcpy" in str(e))
        if ck is None or ck.case_id is None or infra:
            print('CHECK-ERROR: the monitor itself failed')
            sys.exit(3)
        fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(VERIF)]
        ck.violation(f'malformed/{type(e).__name__}', f'case {ck.case_id}: what came back cannot be judged: {type(e).__name__}: {e}'
                     f' ({os.path.basename(fr[-1].filename)}:{fr[-1].lineno})' if fr else str(e))
        ck.finish()
