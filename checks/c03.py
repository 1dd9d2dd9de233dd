"""C03: law of the simulated jump paths, by exact enumeration of the simulators' decision trees."""
import itertools as it

import numpy as np

from ctbayes.mjplib import skeleton as S
from mc import harness
from checks.common import gen, GENS, stat, trans, seq_prob, seq_moment

RULE = 'complete decision tree of each simulator with exact branch probabilities; probability of every visited sequence and first and second moments of its jump times against matrix-exponential oracles'
BOUNDS = {'quick': 'menu of 2-4 state generators, durations .3-1.2, branches of weight above 1e-6 (pruned mass is added to the tolerance)',
          'thorough': 'branches of weight above 3e-8, more durations'}
ASSUME = ['moments of jump times up to order two stand for their joint law given the visited sequence']
IRR = [g for g in GENS if not g.startswith('abs')]


def configs(tier, seed):
    w = 2e-6 if tier == 'quick' else 5e-8
    for g in GENS:
        d = len(GENS[g])
        for T in ([.35, .9] if d < 4 else [.4]) if tier == 'quick' else [.2, .35, .9, 1.5]:
            for x0 in range(d):
                yield dict(kind='fwd', gen=g, T=T, x0=x0, wmin=w)
                yield dict(kind='bridge', gen=g, T=T, x0=x0, wmin=w)
            if g in IRR:
                yield dict(kind='stat', gen=g, T=T, wmin=w * 5)
                for x1 in range(d):
                    yield dict(kind='back', gen=g, T=T, x1=x1, wmin=w * 3)
    for g in ('two', 'fast', 'dense', 'cycle'):
        yield dict(kind='mutate', gen=g, n=1, wmin=w)
        for x in range(len(GENS[g])):
            yield dict(kind='mutate', gen=g, n=2, x=[x], wmin=w * 10)
            for y in range(len(GENS[g])):
                yield dict(kind='mutate', gen=g, n=3, x=[x, y], wmin=w * 20)
    for g in GENS:
        yield dict(kind='matrices', gen=g)


def judge(R, leaves, ref, mom, key, **det):
    """ref(seq) -> probability, mom(seq, f) -> moment"""
    pruned = R.last.pruned
    slack = .1 if harness.inexact(leaves) else 2e-4
    d = {}
    for l in leaves:
        d.setdefault(tuple(int(v) for v in l.val.xt), []).append(l)
    total = 0.0
    for seq, ls in sorted(d.items(), key=lambda kv: -sum(l.w for l in kv[1]))[:40]:
        p, r = sum(l.w for l in ls), ref(seq)
        total += r
        R.check(abs(p - r) <= pruned + slack, key + '-seq', 'probability of visiting %s: %.6g, exactly %.6g (pruned %.1g)' % (seq, p, r, pruned), **det)
        if len(seq) in (2, 3) and r > .02 and mom is not None:
            fs = [('t1', lambda t: t[0]), ('t1^2', lambda t: t[0] ** 2)]
            if len(seq) == 3:
                fs += [('t2', lambda t: t[1]), ('t1t2', lambda t: t[0] * t[1])]
            for name, f in fs:
                m = sum(l.w * f(tuple(float(v) for v in l.val.t[1:])) for l in ls)
                e = mom(seq, f)
                T = ls[0].val.fin_t
                R.check(abs(m - e) <= (pruned + slack) * max(T, T * T), key + '-time', 'E[%s; %s] = %.6g, exactly %.6g (pruned %.1g)' % (name, seq, m, e, pruned), **det)
    # nothing that should be there is missing
    dim = det.get('dim', 3)
    for seq in it.chain(*[it.product(range(dim), repeat=n) for n in (1, 2, 3)]):
        if any(a == b for a, b in zip(seq, seq[1:])):
            continue
        r = ref(seq)
        p = sum(l.w for l in d.get(seq, []))
        R.check(abs(p - r) <= pruned + slack, key + '-seq', 'probability of visiting %s: %.6g, exactly %.6g (pruned %.1g)' % (seq, p, r, pruned))
    R.sample(dict(pruned=pruned, law={str(k): sum(l.w for l in v) for k, v in list(d.items())[:5]}))


def run(cfg, R):
    Q = gen(cfg['gen'])
    d = len(Q)
    kw = dict(wmin=cfg.get('wmin', 0), K={'exponential': 7 if d < 3 else 4 if d < 4 else 3, 'sorted': 2})
    k = cfg['kind']
    if k == 'matrices':
        return matrices(R, Q)
    pi = stat(Q) if cfg['gen'] in IRR else None
    if k == 'mutate':
        return mutate(cfg, R, Q, pi, kw)
    T = cfg['T']
    P = trans(Q, T)
    if k == 'fwd':
        x0 = cfg['x0']
        lv = R.explore(lambda g: S.sample_forwards(T, x0, Q, g), key='fwd-', **kw)
        judge(R, lv, lambda s: seq_prob(Q, s, T) if s[0] == x0 else 0.0, lambda s, f: seq_moment(Q, s, T, f), 'fwd', dim=d)
    elif k == 'stat':
        lv = R.explore(lambda g: S.sample_forwards(T, None, Q, g), key='stat-', **kw)
        judge(R, lv, lambda s: pi[s[0]] * seq_prob(Q, s, T), lambda s, f: pi[s[0]] * seq_moment(Q, s, T, f), 'stat', dim=d)
    elif k == 'bridge':
        x0 = cfg['x0']
        for x1 in range(d):
            if P[x0, x1] < 1e-6:
                continue
            lv = R.explore(lambda g: S.sample_bridge(T, x0, x1, Q, g), key='bridge-', **kw)
            judge(R, lv, lambda s: seq_prob(Q, s, T) / P[x0, x1] if (s[0], s[-1]) == (x0, x1) else 0.0,
                  lambda s, f: seq_moment(Q, s, T, f) / P[x0, x1], 'bridge', dim=d, ends=[x0, x1])
    elif k == 'back':
        x1 = cfg['x1']
        lv = R.explore(lambda g: S.sample_backwards(T, x1, Q, g), key='back-', **kw)
        judge(R, lv, lambda s: pi[s[0]] * seq_prob(Q, s, T) / pi[x1] if s[-1] == x1 else 0.0,
              lambda s, f: pi[s[0]] * seq_moment(Q, s, T, f) / pi[x1], 'back', dim=d, end=x1)


def mutate(cfg, R, Q, pi, kw):
    n = cfg['n']
    durs = [.3, .45, .2][:n]
    x = cfg.get('x', [])
    parts = []
    for i in range(n):
        a = x[i - 1] if i else (x[0] if x else 0)
        b = x[i] if i < n - 1 else a
        parts.append(S.Skeleton(np.array([0.0]), np.array([a]), durs[i]) if a == b
                     else S.Skeleton(np.array([0.0, durs[i] / 2]), np.array([a, b]), durs[i]))
    if n == 3 and trans(Q, durs[1])[x[0], x[1]] < 1e-6:
        return

    def piece(i, s):
        if n == 1:
            return pi[s[0]] * seq_prob(Q, s, durs[0])
        if i == 0:
            return pi[s[0]] * seq_prob(Q, s, durs[0]) / pi[x[0]] if s[-1] == x[0] else 0.0
        if i == n - 1:
            return seq_prob(Q, s, durs[i]) if s[0] == x[-1] else 0.0
        return seq_prob(Q, s, durs[i]) / trans(Q, durs[i])[x[i - 1], x[i]] if (s[0], s[-1]) == (x[i - 1], x[i]) else 0.0
    kw = dict(kw, K={'exponential': 2, 'sorted': 1})
    lv = R.explore(lambda g: S.mutate_partition(parts, Q, g), key='mutate-', **kw)
    pruned = R.last.pruned
    slack = .1 if harness.inexact(lv) else 2e-3
    joint = harness.law(lv, lambda v: tuple(tuple(int(s) for s in p.xt) for p in v))
    for seqs, p in sorted(joint.items(), key=lambda kv: -kv[1])[:60]:
        r = float(np.prod([piece(i, s) for i, s in enumerate(seqs)]))
        R.check(abs(p - r) <= pruned + slack, 'mutate-law', 'probability of resimulating %s: %.6g, exactly %.6g (pruned %.1g)' % (seqs, p, r, pruned), cuts=x)
    R.check(abs(sum(joint.values()) + pruned - 1) < 1e-6, 'mutate-mass', 'mass')


def matrices(R, Q):
    d = len(Q)
    for c in (1e-3, .1, 1.0, 7.0, 300.0):
        for perm in it.permutations(range(d)):
            G = c * Q[np.ix_(perm, perm)]
            Gc = G.copy()
            for T in (1e-4, .05, .7, 3.0, 40.0):
                ok, P = R.call(S.get_trans, T / c, G, key='trans-')
                if ok:
                    R.near(P, trans(G, T / c), 1e-8, 'trans', 'transition matrix')
                    R.check(np.all(P > -1e-12) and np.allclose(P.sum(1), 1, atol=1e-9), 'trans-rows', 'rows are probabilities')
                    R.state((G, T))
            ok, p = R.call(S.get_stat, G, key='stat-')
            if ok:
                R.check(np.allclose(p @ G, 0, atol=1e-8 * c) and abs(np.sum(p) - 1) < 1e-8 and np.all(np.asarray(p) > -1e-10), 'stationary',
                        'stationary law solves pi Q = 0 and sums to one', gen=G, got=p)
            R.check(np.array_equal(G, Gc), 'mutates', 'generator not changed')
