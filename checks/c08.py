"""C08: layers around a bridge."""
import itertools as it
import math

import numpy as np

from ctbayes.sdelib import layers as L
from mc import harness
from checks import oracle as O
from checks.common import inf

RULE = 'layer edges for all indices up to 40 and very large ones on a menu of bridges and bounds; all branches of the layer sampler with exact probabilities, against eigenfunction and image expansions of the stay probability'
BOUNDS = {'quick': '9 bridges, 10 bound pairs (none, one-sided, two-sided, asymmetric); executions of weight above 4e-6',
          'thorough': '14 bridges, 18 bound pairs; executions of weight above 1e-7'}
ASSUME = ['bounds strictly outside the end points']
BR = [(1.0, 0.0, 0.0), (1.0, -.3, .9), (1.0, .9, -.3), (.25, 1.0, 1.2), (.01, -.2, -.25), (4.0, 2.0, 0.0), (9.0, -5.0, -5.0), (2.0, .1, .1001),
      (.6, 50.0, 50.5), (1e-4, 0.0, 0.01), (100.0, 3.0, -8.0), (1.5, -1.0, 2.0), (.33, .33, -.33), (3.0, 0.0, 1e-9)]
BD = [(None, None), (1.0, None), (None, 1.0), (.8, .9), (2.0, .5), (.5, 2.0), (.25, None), (None, .3), (1.0, 1.0), (3.0, 3.0),
      (.4, 1.0), (1.0, .5), (8.0, .7), (.3, 8.0), (.6, .6), (5.0, None), (None, 5.0), (.5, .55)]


def configs(tier, seed):
    brs, bds = (BR[:9], BD[:10]) if tier == 'quick' else (BR, BD)
    for (T, x, y), (a, b) in it.product(brs, bds):
        s = math.sqrt(T)
        lb = None if a is None else min(x, y) - a * s
        ub = None if b is None else max(x, y) + b * s
        yield dict(T=T, x=x, y=y, lb=lb, ub=ub, wmin=4e-6 if tier == 'quick' else 1e-7)


def run(cfg, R):
    T, x, y = cfg['T'], cfg['x'], cfg['y']
    lb, ub = inf(cfg['lb'], -1), inf(cfg['ub'])
    s = math.sqrt(T)
    eps = 1e-11 * (1 + abs(x) + abs(y) + s)
    E = []
    for i in list(range(41)) + [10 ** 3, 10 ** 6, 10 ** 8]:
        ok, e = R.call(L.compute_edges, i, T, x, y, lb, ub, key='edges-')
        if not ok:
            return
        E.append((i, float(e[0]), float(e[1])))
        R.state((cfg, i))
        ok, m = R.call(L.compute_edges, i, T, -x, -y, -ub, -lb, key='edges-')
        if ok:
            R.near(np.array([-m[1], -m[0]]), np.array(e), 1e-9, 'edges-mirror', 'edges of layer %d of the mirrored bridge' % i)
        R.check(lb - eps <= e[0] and e[1] <= ub + eps, 'edges-bounds', 'edges of layer %d inside the bounds' % i, got=e)
    R.check((E[0][1], E[0][2]) == (min(x, y), max(x, y)), 'edges-start', 'layer zero is spanned by the end points', got=E[0])
    for (i, l, u), (j, m, v) in zip(E, E[1:]):
        strict = j <= 40
        R.check((m < l and v > u) if strict else (m <= l + eps and v >= u - eps), 'edges-widen', 'layer %d is strictly wider than layer %d' % (j, i), inner=[l, u], outer=[m, v])
    for side, e in ((lb, E[-1][1]), (ub, E[-1][2])):
        if not math.isinf(side):
            R.near(e, side, 1e-6 * (1 + s), 'edges-limit', 'edges converge to the bound')
    R.check((not math.isinf(lb) or E[-1][1] < min(x, y) - 1.5 * s) and (not math.isinf(ub) or E[-1][2] > max(x, y) + 1.5 * s), 'edges-limit',
            'edges keep widening without a bound', got=E[-1])
    # law of the layer index; two-sided bounds make the sampler retry until its first draw fits, explored for the first few attempts
    both = not math.isinf(lb) and not math.isinf(ub)
    whole = O.stay(T, x, y, lb, ub)
    cum = [0.0] + [O.stay(T, x, y, l, u) / whole for _, l, u in E[1:41]]
    kw = dict(wmin=cfg['wmin'], max_draws=6 if both else 10 ** 6)
    lv = R.explore(lambda g: int(L.sample_layer(T, x, y, lb, ub, g)), key='layer-', max_leaves=200000, **kw)
    d = harness.law(lv, lambda v: v)
    tot = d.get(1, 1.0) / cum[1] if both else 1.0
    R.check(all(v >= 1 for v in d), 'layer-range', 'layer indices are at least one', got=sorted(d))
    slack = 2e-6 + (1e-4 if both else R.last.pruned) + (.2 if harness.inexact(lv) else 0)
    for i in range(1, 6 if both else 40):
        R.check(abs(d.get(i, 0.0) / tot - (cum[i] - cum[i - 1])) <= slack, 'layer-law', 'probability of layer %d: %.9g, exactly %.9g (tolerance %.1g)'
                % (i, d.get(i, 0.0) / tot, cum[i] - cum[i - 1], slack))
    R.sample(dict(law={k: d[k] for k in sorted(d)[:5]}, pruned=R.last.pruned))
    # sectors reported with the anchor
    lv = R.explore(lambda g: L.sample_anchor(T, x, y, lb, ub, g), key='anchor-', max_leaves=200000, **kw)
    edge = [e[1:] for e in E[:41]]
    for k in range(41, 200):
        ok, e = R.call(L.compute_edges, k, T, x, y, lb, ub, key='edges-')
        edge.append((float(e[0]), float(e[1])) if ok else (math.nan, math.nan))
    edge = np.array(edge)
    d = {}
    for l in lv:
        lo, hi = [tuple(float(v) for v in z) for z in l.val[1:3]]
        if lo[0] < edge[-1, 0] or hi[1] > edge[-1, 1]:
            continue
        err = np.abs(edge[1:, 0] - lo[0]) + np.abs(edge[:-1, 0] - lo[1]) + np.abs(edge[:-1, 1] - hi[0]) + np.abs(edge[1:, 1] - hi[1])
        k = int(np.argmin(err)) + 1
        if R.check(err[k - 1] < 4 * eps, 'sectors', 'reported sectors lie between one layer and the previous one', lo=lo, hi=hi):
            d[k] = d.get(k, 0.0) + l.w
    tot = d.get(1, 1.0) / cum[1] if both else 1.0
    slack = 2e-6 + (1e-4 if both else R.last.pruned) + (.2 if harness.inexact(lv) else 0)
    for i in range(1, 6 if both else 30):
        R.check(abs(d.get(i, 0.0) / tot - (cum[i] - cum[i - 1])) <= slack, 'sectors-law', 'probability of sectors %d: %.9g, exactly %.9g' % (i, d.get(i, 0.0) / tot, cum[i] - cum[i - 1]))
