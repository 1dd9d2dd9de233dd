"""C04: the Poisson samplers deliver a Poisson process, whatever the batch size."""
import itertools as it
import math

import numpy as np

from ctbayes.mjplib import skeleton as S
from mc import harness

RULE = 'every number of points up to the bound with its probability, and all quadrature branches of the coordinates; first and second moments of all ordered coordinates given the number of points against order-statistic formulas'
BOUNDS = {'quick': 'up to 5 points, 1 to 3 coordinates, batch sizes 1 to 7, three intensities and unequal boxes; longer point sets (up to 40 points) for ordering and completeness only',
          'thorough': 'up to 7 points'}
ASSUME = ['moments up to order two of the ordered points given their number stand for their joint law']
BOX = {1: (1.7,), 2: (.6, 2.5), 3: (1.3, .8, 2.0)}


def configs(tier, seed):
    top = {1: 5, 2: 4, 3: 3} if tier == 'quick' else {1: 7, 2: 5, 3: 3}
    for d in (1, 2, 3):
        for n in range(top[d] + 1):
            for mu in (.4, 1.9):
                yield dict(kind='ppp', d=d, n=n, mu=mu)
                for b in (1, 2, 3, 4, 7):
                    yield dict(kind='batch', d=d, n=n, mu=mu, b=b)
    for b in (1, 2, 3, 5, 8, 30):
        yield dict(kind='long', b=b)


def run(cfg, R):
    if cfg['kind'] == 'long':
        return long_(cfg, R)
    d, n, mu = cfg['d'], cfg['n'], cfg['mu']
    box = BOX[d]
    lam = mu / np.prod(box)

    def only(k):  # restrict to n points; the other counts are enumerated but abandoned
        from mc import engine
        if k != n:
            raise engine.Prune

    def body(g):
        if cfg['kind'] == 'ppp':
            return S.sample_ppp(lam, box, g)
        out = []
        for x in S.sample_batch_ppp(lam, box, cfg['b'], g):
            out.append(x)
        return out

    def fn(g):
        p = g.poisson

        def poisson(*a, **k):
            r = p(*a, **k)
            only(np.asarray(r).item())
            return r
        g.poisson = poisson
        return body(g)
    K = 2 if n * d <= 8 else 1
    lv = R.explore(fn, key=cfg['kind'] + '-', K={'uniform': K, 'sorted': K, 'beta': K}, nmax_poisson=30, tail=1e-12, max_leaves=100000)
    p = sum(l.w for l in lv)
    pmf = math.exp(n * math.log(mu) - mu - math.lgamma(n + 1))
    R.near(p, pmf, 1e-7, 'number', 'probability of %d points' % n)
    tol = .2 if harness.inexact(lv) else 1e-6
    pts = []
    for l in lv:
        x = l.val
        if cfg['kind'] == 'batch':
            b = cfg['b']
            sizes = [len(y) for y in x]
            R.check(sum(sizes) == n and all(s == b for s in sizes[:-1]) and all(0 < s <= b for s in sizes), 'batch-sizes',
                    'batches have the requested size except the last', sizes=sizes, n=n)
            R.check(all(np.ndim(y) == 2 and y.shape[1] == d for y in x), 'shape', 'one row per point')
            x = np.concatenate([np.asarray(y, float).reshape(-1, d) for y in x]) if x else np.zeros((0, d))
        x = np.asarray(x, float)
        if not R.check(x.shape == (n, d), 'shape', 'one row per point: %s' % (x.shape,)):
            return
        R.check(np.all(x >= 0) and np.all(x <= np.array(box)), 'box', 'points inside the box', points=x, box=box)
        R.check(np.all(np.diff(x[:, 0]) >= 0), 'sorted', 'points sorted in the first coordinate, later batches beyond earlier ones', points=x)
        pts.append((l.w / p, x))
    R.sample(dict(points=pts[-1][1] if pts else None))
    if not pts or not n:
        return
    w = np.array([a for a, _ in pts])
    X = np.array([x for _, x in pts]) / np.array(box)   # (leaves, n, d)
    k = np.arange(1, n + 1)
    e1 = np.einsum('l,lkd->kd', w, X)
    ref1 = np.full((n, d), .5)
    ref1[:, 0] = k / (n + 1)
    R.near(e1, ref1, tol, 'law-mean', 'means of the ordered points given their number')
    if K < 2:
        return
    e2 = np.einsum('l,lid,lje->ijde', w, X, X)
    ref2 = np.full((n, n, d, d), .25)
    for i, j in it.product(range(n), repeat=2):
        a, b = min(i, j) + 1, max(i, j) + 1
        ref2[i, j, 0, 0] = a * (b + 1) / ((n + 1) * (n + 2))
        for c in range(1, d):
            ref2[i, j, c, 0] = .5 * ref1[j, 0]
            ref2[i, j, 0, c] = .5 * ref1[i, 0]
            if i == j:
                ref2[i, i, c, c] = 1 / 3
    R.near(e2, ref2, tol, 'law-second', 'second moments of the ordered points given their number')


def long_(cfg, R):
    """point counts much larger than the batch size, including exact multiples"""
    b = cfg['b']
    for n in (0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 1, 3 * b, 17, 31):
        if n < 0:
            continue

        def fn(g):
            g.poisson = lambda lam=1.0, size=None: n
            return list(S.sample_batch_ppp(2.0, (3.0, 1.0), b, g))
        for l in R.explore(fn, key='long-', K=1):
            sizes = [len(y) for y in l.val]
            R.check(sum(sizes) == n and all(s == b for s in sizes[:-1]) and all(0 < s <= b for s in sizes), 'batch-sizes', 'batch sizes', sizes=sizes, n=n)
            if n:
                x = np.concatenate(l.val)
                R.check(np.all(np.diff(x[:, 0]) >= 0) and np.all(x >= 0) and np.all(x <= np.array([3.0, 1.0])), 'sorted', 'sorted inside the box', n=n, points=x)
                R.near(x[:, 0], 3.0 * np.arange(1, n + 1) / (n + 1), 1e-6 if not l.inexact else 1.0, 'law-mean', 'mean positions with every draw at its mean')
