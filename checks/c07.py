"""C07: escape decisions are exact for every seed."""
import itertools as it
import math

import numpy as np

from ctbayes.sdelib import hitting as H
from mc import harness
from checks import oracle as O

RULE = 'for a grid of bridges, band widths and outer bands: seeds on both sides of the exact escape probability, partial sums up to index 40, and all branches of the decision for a random seed; oracle: eigenfunction and image expansions'
BOUNDS = {'quick': 'duration over squared half-width from 0.02 to 12; 9 start and end positions; 6 outer bands; 17 seeds each',
          'thorough': 'finer duration, position and seed grids'}
ASSUME = ['survival probability of the outer band above 1e-5 (beyond that double precision does not determine the decision)', 'seeds strictly between 0 and 1']
OUT = [None, 1.0, 1.02, 1.3, 2.0, 6.0, .8]


def configs(tier, seed):
    ts = [.02, .1, .3, .7, 1.2, 2., 3.1, 4.5, 7., 12.] if tier == 'quick' else [.01, .02, .05, .1, .2, .3, .5, .7, .95, 1.2, 1.6, 2., 2.6, 3.1, 3.6, 4.5, 6., 7., 9., 12., 15.]
    for kind in ('bb', 'bes'):
        for T in ts:
            for K in (1.0, .07, 9.0):
                yield dict(kind=kind, r=T, K=K, fine=tier == 'thorough')


def run(cfg, R):
    r, K = cfg['r'], cfg['K']
    T = r * K * K
    if cfg['kind'] == 'bb':
        f, series, p_of = H.sample_brownbr_esc, H.series_brownbr_esc, O.esc
        pos = [0.0, .35, -.35, .8, -.8, .97, -.97] + ([.1, -.6, .999] if cfg['fine'] else [])
        ends = list(it.product(pos, repeat=2)) + [(0.0, 1.0), (-1.0, .3), (.2, 1.4), (-1.2, -1.5)]
    else:
        f, series, p_of = H.sample_bessel3br_esc, H.series_bessel3br_esc, O.bes_esc
        pos = [.03, .3, .5, .85, .98] + ([.1, .65, .999] if cfg['fine'] else [])
        ends = list(it.product([0.0] + pos, pos)) + [(0.0, 1.0), (.3, 1.0), (1.2, .4), (.5, 3.0)]
    for a, b in ends:
        a, b = a * K, b * K
        for out in OUT:
            U = None if out is None else out * K
            inside = max(abs(a), abs(b)) < K
            if U is not None and max(abs(a), abs(b)) >= U:
                continue
            if not inside:
                for sd in (1e-9, .4, 1 - 1e-9):
                    ok, v = R.call(f, T, a, b, K, U, sd, key='decide-', timeout=3)
                    if ok:
                        R.check(bool(v) is True, 'trivial', 'an end point outside the band is an escape', args=[T, a, b, K, U, sd])
                continue
            surv = 1 - p_of(T, a, b, U if U is not None else K)
            if out is None or out >= 1:
                if surv < 1e-5 and out != 1.0 or surv < 1e-5:
                    continue
                p = p_of(T, a, b, K, U)
                cond = 1e-15 / surv ** 2 if out is not None else 1e-15
            else:
                p, cond = 0.0, 0.0
            one(R, f, series, T, a, b, K, U, p, cond, cfg['fine'], out)


def one(R, f, series, T, a, b, K, U, p, cond, fine, out):
    d0 = max(2e-9, 1e4 * cond)
    seeds = {1e-6, .01, .1, .25, .5, .75, .9, .99, 1 - 1e-6}
    for d in (d0, 1e-6, 1e-4, .01):
        seeds |= {p - d, p + d}
    if fine:
        seeds |= set(np.linspace(.01, .99, 25))
    last = None
    for s in sorted(seeds):
        if not 0 < s < 1 or abs(s - p) < .9 * d0:
            continue
        ok, v = R.call(f, T, a, b, K, U, float(s), key='decide-', timeout=3)
        if not ok:
            continue
        R.check(isinstance(v, (bool, np.bool_)) and bool(v) == (s < p), 'decision',
                'seed %.12g, escape probability %.12g: decided %s' % (s, p, v), T=T, a=a, b=b, band=K, outer=U)
    R.state((T / K ** 2, a / K, b / K, out))
    # a random seed: the decision has exactly this probability
    lv = R.explore(lambda g: bool(f(T, a, b, K, U, ome=g)), key='random-', eps=1e-11, observe=False)
    q = sum(l.w for l in lv if l.val)
    R.check(abs(q - p) < 1e-8 + 1e4 * cond + R.last.pruned, 'random', 'probability of escape %.12g, exactly %.12g' % (q, p), T=T, a=a, b=b, band=K, outer=U)
    if out is not None and out < 1:
        return
    # bracketing of the partial sums
    vals = []
    try:
        for i, s in enumerate(series(T, a, b, K, U)):
            vals.append(float(s))
            if i > 38:
                break
    except Exception as e:
        R.fail('series-exception', '%s: %s' % (type(e).__name__, e), args=[T, a, b, K, U])
        return
    tol = 1e-11 + 1e3 * cond
    v = np.array(vals)
    R.check(abs(v[-1] - p) < tol * 10, 'series-limit', 'partial sums converge to %.12g, got %.12g' % (p, v[-1]), args=[T, a, b, K, U])
    inc = np.abs(np.diff(np.r_[0.0, v]))
    n0 = len(inc)
    while n0 > 1 and inc[n0 - 1] <= inc[n0 - 2] + 1e-14:
        n0 -= 1
    odd = np.arange(1, len(v) + 1) % 2 == 1
    m = np.arange(1, len(v) + 1) >= n0 + 1
    R.check(np.all(v[m & odd] >= p - tol) and np.all(v[m & ~odd] <= p + tol), 'series-bracket', 'partial sums alternate around the limit once monotone',
            args=[T, a, b, K, U], values=v[:8], limit=p, start=n0)
