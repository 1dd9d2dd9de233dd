"""C02: every simulated jump path is well formed, for every draw."""
import itertools as it

import numpy as np

from ctbayes.mjplib import skeleton as S
from checks.common import gen, GENS, stat, trans

RULE = 'all executions of the simulators under the controlled generator (exact branch enumeration), for every generator, endpoint pair and duration of the menu'
BOUNDS = {'quick': '2-4 states, dense and sparse generators, absorbing states; executions of weight above 1e-6; partitions of 1 to 4 pieces',
          'thorough': 'executions of weight above 1e-8; more durations'}
ASSUME = ['endpoint pairs have positive probability', 'jump times drawn on quadrature nodes; comparisons of draws branch exactly']
STATIONARY = [g for g in GENS if not g.startswith('abs')]


def configs(tier, seed):
    wm = 2e-6 if tier == 'quick' else 2e-8
    for g in GENS:
        d = len(GENS[g])
        for T in ([.3, 1.2] if tier == 'quick' else [.1, .3, 1.2, 2.5]):
            for x0 in range(d):
                yield dict(kind='fwd', gen=g, T=T, x0=x0, wmin=wm)
                yield dict(kind='bridge', gen=g, T=T, x0=x0, wmin=wm)
            if g in STATIONARY:
                yield dict(kind='fwd', gen=g, T=T, x0=None, wmin=wm * 10)
                yield dict(kind='back', gen=g, T=T, wmin=wm * 10)
    for g in GENS:
        for n in (1, 2, 3, 4):
            if n == 1 and g not in STATIONARY:
                continue
            if tier == 'quick' and n == 4 and len(GENS[g]) > 3:
                continue
            yield dict(kind='mutate', gen=g, n=n, wmin=wm * (100 if n < 4 else 2000))
    yield dict(kind='degenerate')


def wellformed(R, p, Q, T, key, x0=None, x1=None, **det):
    t, x = np.asarray(p.t, float), np.asarray(p.xt)
    det.update(t=t, x=x, fin_t=p.fin_t)
    R.check(len(t) == len(x) and len(t) >= 1 and t[0] == 0, key + '-start', 'path starts at time zero', **det)
    R.check(np.all(np.diff(t) > 0) and t[-1] < T, key + '-times', 'jump times increase strictly inside the span', **det)
    R.check(p.fin_t == T, key + '-fin', 'the path ends at the requested time', **det)
    R.check(np.issubdtype(x.dtype, np.integer) and np.all((x >= 0) & (x < len(Q))), key + '-range', 'states are states of the chain', **det)
    if not (np.issubdtype(x.dtype, np.integer) and np.all((x >= 0) & (x < len(Q)))):
        return
    R.check(np.all(x[1:] != x[:-1]), key + '-self', 'no jump from a state to itself', **det)
    R.check(all(Q[a, b] > 0 for a, b in zip(x, x[1:]) if a != b), key + '-rate', 'only jumps of positive rate', **det)
    if x0 is not None:
        R.check(x[0] == x0, key + '-init', 'requested initial state', **det)
    if x1 is not None:
        R.check(x[-1] == x1, key + '-last', 'requested final state', **det)
        R.check(np.asarray(p(np.array([T]))).item() == x1, key + '-last', 'requested final state', **det)


def run(cfg, R):
    if cfg['kind'] == 'degenerate':
        return degenerate(R)
    Q = gen(cfg['gen'])
    Qc = Q.copy()
    kw = dict(wmin=cfg['wmin'], K={'exponential': 2, 'sorted': 1})
    d = len(Q)
    if cfg['kind'] == 'fwd':
        T = cfg['T']
        for l in R.explore(lambda g: S.sample_forwards(T, cfg['x0'], Q, g), key='fwd-', **kw):
            wellformed(R, l.val, Q, T, 'fwd', cfg['x0'])
            R.sample(l.val)
    elif cfg['kind'] == 'bridge':
        T = cfg['T']
        P = trans(Q, T)
        for x1 in range(d):
            if P[cfg['x0'], x1] < 1e-9:
                continue
            for l in R.explore(lambda g: S.sample_bridge(T, cfg['x0'], x1, Q, g), key='bridge-', **kw):
                wellformed(R, l.val, Q, T, 'bridge', cfg['x0'], x1)
    elif cfg['kind'] == 'back':
        T = cfg['T']
        for x1 in range(d):
            for l in R.explore(lambda g: S.sample_backwards(T, x1, Q, g), key='back-', **kw):
                wellformed(R, l.val, Q, T, 'back', None, x1)
    elif cfg['kind'] == 'mutate':
        mutate(cfg, R, Q, kw)
    R.check(np.array_equal(Q, Qc), 'mutates', 'the generator matrix is not changed')


def mutate(cfg, R, Q, kw):
    """all states at the cut points reachable with positive probability; unequal durations, jumps inside pieces"""
    n, d = cfg['n'], len(Q)
    durs = [.25, .4, .125, .3][:n]
    pi = stat(Q)
    for cuts in it.product(range(d), repeat=n - 1):
        if cuts and pi[cuts[0]] < 1e-9:
            continue  # a stationary path is in this state with probability zero
        if any(trans(Q, durs[i + 1])[a, b] < 1e-9 for i, (a, b) in enumerate(zip(cuts, cuts[1:]))):
            continue
        # a partition whose pieces have these states at the cuts
        parts = []
        for i in range(n):
            a = cuts[i - 1] if i > 0 else None
            b = cuts[i] if i < n - 1 else None
            a = (b if a is None else a) if n > 1 else 0
            b = a if b is None else b
            parts.append(S.Skeleton(np.array([0.0]), np.array([a]), durs[i]) if a == b
                         else S.Skeleton(np.array([0.0, durs[i] / 3]), np.array([a, b]), durs[i]))
        first = {}
        fz = [(p.t.copy(), p.xt.copy(), p.fin_t) for p in parts]
        for l in R.explore(lambda g: S.mutate_partition(parts, Q, g), key='mutate-', max_leaves=200000, **kw):
            new = l.val
            if not R.check(len(new) == n, 'mutate-count', 'as many pieces as before', got=len(new)):
                continue
            for i, p in enumerate(new):
                wellformed(R, p, Q, durs[i], 'mutate', cuts[i - 1] if i else None, cuts[i] if i < n - 1 else None, cuts=cuts, piece=i)
            R.check(abs(sum(p.fin_t for p in new) - sum(durs)) < 1e-12, 'mutate-span', 'same span')
            if len(first) < 40:
                sk = S.paste_partition(new)
                first[len(first)] = 1
                x = np.asarray(sk.xt)
                R.check(np.all(np.diff(sk.t) > 0) and np.all(x[1:] != x[:-1]) and all(Q[a, b] > 0 for a, b in zip(x, x[1:])),
                        'mutate-join', 'resimulated pieces join to one path', t=sk.t, x=x)
        R.check(all(np.array_equal(p.t, f[0]) and np.array_equal(p.xt, f[1]) and p.fin_t == f[2] for p, f in zip(parts, fz)),
                'mutate-inputs', 'the old partition is not changed')


def degenerate(R):
    """extreme but valid inputs: very short and long spans, very unequal rates"""
    for Q, T in ((np.array([[-1., 1.], [1., -1.]]), 1e-6), (np.array([[-1e-4, 1e-4], [50., -50.]]), .2),
                 (np.array([[-30., 30.], [25., -25.]]), .02)):
        for a in (0, 1):
            for l in R.explore(lambda g: S.sample_forwards(T, a, Q, g), key='deg-', wmin=1e-6, K={'exponential': 1}):
                wellformed(R, l.val, Q, T, 'fwd', a)
            for b in (0, 1):
                for l in R.explore(lambda g: S.sample_bridge(T, a, b, Q, g), key='deg-', wmin=1e-6):
                    wellformed(R, l.val, Q, T, 'bridge', a, b)
