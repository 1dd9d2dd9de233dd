"""C06: minimum of a Brownian bridge: distribution function, quantile function, samplers."""
import itertools as it
import math

import numpy as np

from ctbayes.sdelib import hitting as H
from ctbayes.sdelib import transforms as TR
from mc import engine, harness

RULE = 'distribution and quantile functions on grids of values for a menu of bridges and conditioning intervals; all branches of the samplers, with exact probabilities for the comparisons of the sampled time with given times'
BOUNDS = {'quick': '14 bridges, 5 conditioning intervals each, 60 arguments; sampler: 6 quantile nodes of the value and 5 time thresholds each; seeded version: 5 values, 40 chi-square nodes',
          'thorough': 'more bridges, 12 quantile nodes, 10 thresholds'}
ASSUME = ['bridges whose end points differ by at most a few standard deviations']
BR = [(1.0, 0.0, 0.0), (1.0, 0.0, 1.3), (1.0, 1.3, 0.0), (.25, -.4, .2), (.25, .2, -.4), (4.0, 1.0, -1.5), (4.0, -1.5, 1.0),
      (.01, .5, .52), (.01, .52, .5), (30.0, -3.0, 4.0), (2.0, 7.0, 7.0), (2.0, -7.0, -7.5), (.7, 100.0, 100.4), (1e-4, 0.0, -.01)]


def intervals(T, x, y):
    m, s = min(x, y), math.sqrt(T)
    return [(None, None), (m - s, None), (None, m - .3 * s), (m - 1.1 * s, m - .25 * s), (m - .4 * s, m - .3 * s), (m - .5 * s, m)]


def F0(m, T, x, y):
    return 0.0 if m == -math.inf else 1.0 if m >= min(x, y) else math.exp(-2 * (x - m) * (y - m) / T)


def F(m, T, x, y, lb, ub):
    lb = -math.inf if lb is None else lb
    ub = min(x, y) if ub is None else ub
    if m <= lb:
        return 0.0
    if m >= ub:
        return 1.0
    a, b = F0(lb, T, x, y), F0(ub, T, x, y)
    return (F0(m, T, x, y) - a) / (b - a)


_gl = np.polynomial.legendre.leggauss(20)


def time_cdf(s, T, a, b):
    """P(time of the minimum < s | depths a and b of the minimum below the end points)"""
    if s <= 0:
        return 0.0
    if s >= T:
        return 1.0
    v1 = math.log(s / (T - s))
    v0 = min(-60.0, v1 - 1)
    edges = np.linspace(v0, v1, 241)
    h = np.diff(edges)[:, None] / 2
    v = edges[:-1, None] + h * (_gl[0] + 1)
    p = 1 / (1 + np.exp(-v))
    t, r = T * p, T * (1 / (1 + np.exp(v)))
    la = math.log(a) - 1.5 * np.log(t) - a * a / (2 * t) + math.log(b) - 1.5 * np.log(r) - b * b / (2 * r) + np.log(T * p) + np.log(r / T)
    la = la - math.log(2 * math.pi)
    norm = math.log(a + b) - .5 * math.log(2 * math.pi) - 1.5 * math.log(T) - (a + b) ** 2 / (2 * T)
    return float(np.sum(np.exp(la - norm) * h * _gl[1]))


def configs(tier, seed):
    for i, (T, x, y) in enumerate(BR):
        for lb, ub in intervals(T, x, y):
            yield dict(kind='cdf', T=T, x=x, y=y, lb=lb, ub=ub)
            yield dict(kind='sample', T=T, x=x, y=y, lb=lb, ub=ub, K=6 if tier == 'quick' else 12, n=5 if tier == 'quick' else 10)
        yield dict(kind='seeded', T=T, x=x, y=y, K=4 if tier == 'quick' else 8)


def run(cfg, R):
    T, x, y = cfg['T'], cfg['x'], cfg['y']
    if cfg['kind'] == 'seeded':
        return seeded(cfg, R)
    lb, ub = cfg['lb'], cfg['ub']
    lo = -math.inf if lb is None else lb
    hi = min(x, y) if ub is None else ub
    s = math.sqrt(T)
    if cfg['kind'] == 'cdf':
        base = lo if lb is not None else hi - 3 * s
        grid = sorted(set(np.linspace(base, hi, 41)) | set(np.linspace(base - s, hi + s, 21)) | {hi, -math.inf, hi + 5 * s, base - 5 * s})
        vals = []
        for m in grid:
            ok, p = R.call(H.cdf_brownbr_min, m, T, x, y, lb, ub, key='cdf-')
            if not ok:
                return
            R.state((m, T, x, y, lb, ub))
            R.check(0 <= p <= 1, 'cdf-range', 'distribution function at %g (support [%g, %g]) is %.9g' % (m, lo, hi, p))
            R.near(p, F(m, T, x, y, lb, ub), 1e-9, 'cdf-value', 'distribution function at %g' % m)
            vals.append(float(p))
        R.check(np.all(np.diff(vals) >= -1e-12), 'cdf-monotone', 'non-decreasing')
        R.check(vals[-1] == 1, 'cdf-top', 'one at the top', got=vals[-1])
        for p in np.r_[np.linspace(0, 1, 41), 1e-9, 1e-5, 1 - 1e-9]:
            ok, m = R.call(H.ppf_brownbr_min, p, T, x, y, lb, ub, key='ppf-')
            if not ok:
                return
            if p == 0 and lb is None:
                R.check(m == -math.inf, 'ppf-ends', 'quantile at zero is the lower end', got=m)
                continue
            R.check(lo - 1e-9 * (1 + abs(lo)) <= m <= hi + 1e-9 * (1 + abs(hi)), 'ppf-support', 'quantile at %g is %g, support [%g, %g]' % (p, m, lo, hi))
            R.near(F(m, T, x, y, lb, ub), p, 2e-7, 'ppf-inverse', 'distribution function of the quantile at %g' % p)
            if p in (0, 1):
                R.near(m, lo if p == 0 else hi, 1e-9, 'ppf-ends', 'quantile at %g' % p)
        return
    fr = {5: (.02, .2, .5, .8, .98), 10: (.005, .03, .1, .25, .4, .6, .75, .9, .97, .995)}[cfg['n']]

    def fn(g):
        t, m = H.sample_brownbr_min(T, x, y, lb, ub, g)
        below = tuple(bool(t < f * T) for f in fr)
        return float(m), below, float(t)
    lv = R.explore(fn, key='sample-', K={'uniform': cfg['K'], 'default': cfg['K'], 'wald': 2})
    judge(R, lv, T, x, y, lb, ub, fr, cfg['K'])


def judge(R, lv, T, x, y, lb, ub, fr, K):
    tot = sum(l.w for l in lv)
    slack = .1 if harness.inexact(lv) else 0
    groups = {}
    for l in lv:
        R.check(0 < l.val[2] < T, 'time-range', 'time of the minimum strictly inside the span', got=l.val[2])
        R.check((lb is None or l.val[0] >= lb - 1e-9 * (1 + abs(lb))) and l.val[0] <= (min(x, y) if ub is None else ub) + 1e-9 * (1 + abs(x)), 'value-range',
                'minimum inside its support', got=l.val[0])
        groups.setdefault(l.val[0], []).append(l)
    for k in (1, 2, 3, 4, 5):
        R.near(sum(l.w * F(l.val[0], T, x, y, lb, ub) ** k for l in lv) / tot, 1 / (k + 1), 1e-6 + slack, 'value-law', 'E[F(minimum)^%d]' % k)
    for m, ls in groups.items():
        p = sum(l.w for l in ls)
        for i, f in enumerate(fr):
            q = sum(l.w for l in ls if l.val[1][i]) / p
            R.near(q, time_cdf(f * T, T, x - m, y - m), 2e-6 + slack, 'time-law', 'P(time < %g T | minimum %g)' % (f, m))
    R.sample(dict(minima=sorted(groups)[:4]))


class Seeds(object):
    """u-seeds whose comparisons are explored exactly"""

    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        return self.v[i]

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def min(self, *a, **k):
        return .01

    def max(self, *a, **k):
        return .99


def seeded(cfg, R):
    T, x, y = cfg['T'], cfg['x'], cfg['y']
    us, ws = engine.quad('uniform', None, cfg['K'], 0)
    zs, wz = np.polynomial.hermite_e.hermegauss(80)
    wz = wz / wz.sum()
    zs, wz = zs[40:], 2 * wz[40:]
    keep = wz > 1e-12
    zs, wz = zs[keep], wz[keep]
    wz = wz / wz.sum()
    mv = np.zeros(4)
    for u0, w0 in zip(us, ws):
        mom = np.zeros(4)
        slack = 0
        for z, w in zip(zs, wz):
            def fn(g):
                return TR.gen_seeded_brownbr_min(Seeds((u0, g.uniform(), g.uniform())), float(z * z), T, x, y)
            lv = R.explore(fn, key='seeded-', K=5)
            if harness.inexact(lv):
                slack = .1
            for l in lv:
                t, m = float(l.val[0]), float(l.val[1])
                R.check(0 < t < T, 'time-range', 'time of the minimum strictly inside the span', got=t)
                c = time_cdf(t, T, x - m, y - m)
                mom += w * l.w * np.array([c, c * c, c ** 3, c ** 4])
        f = F(m, T, x, y, None, None)
        mv += w0 * np.array([f, f * f, f ** 3, f ** 4])
        R.near(mom, [1 / 2, 1 / 3, 1 / 4, 1 / 5], 2e-3 + slack, 'seeded-time', 'law of the seeded time of the minimum (value seed %g)' % u0)
    R.near(mv, [1 / 2, 1 / 3, 1 / 4, 1 / 5], 1e-6, 'seeded-value', 'law of the seeded minimum')
    # equal seeds in fixed numbers: a deterministic function
    for u in it.product((.1, .5, .93), repeat=3):
        a = R.call(TR.gen_seeded_brownbr_min, u, .7, T, x, y, key='seeded-')
        b = R.call(TR.gen_seeded_brownbr_min, np.array(u), .7, T, x, y, key='seeded-')
        if a[0] and b[0]:
            R.check(tuple(a[1]) == tuple(b[1]), 'seeded-deterministic', 'a function of the seeds')
