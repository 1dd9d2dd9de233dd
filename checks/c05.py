"""C05: conjugate inference for the generator of a jump path."""
import itertools as it

import numpy as np

from ctbayes.mjplib import inference as I
from ctbayes.mjplib import skeleton as S
from mc import harness
from checks.common import gen, GENS

RULE = 'every path with up to 5 visited states on unequal time steps, every cut at non-jump times, crossed with a menu of priors and generators; sampled generators by quadrature exact to second moments'
BOUNDS = {'quick': '2 to 4 states, up to 5 segments (4 states: 4 segments), three priors, generators with unequal and zero rates',
          'thorough': '2 to 4 states, up to 6 segments'}
ASSUME = ['prior shapes and rates positive; densities compared up to the normalising constant the library omits']
STEPS = [.5, .125, 1.0, .25, 2.0, .75]


def prior(d, k):
    i, j = np.indices((d, d))
    alp = [np.ones((d, d)), 1.5 + i + .5 * j, .3 + .1 * (i + 2 * j)][k]
    bet = [np.ones((d, d)), .5 + .25 * i + j * .125, 2.0 + i * j][k]
    alp, bet = np.array(alp, float), np.array(bet, float)
    np.fill_diagonal(alp, np.nan)
    np.fill_diagonal(bet, np.nan)
    return alp, bet


def configs(tier, seed):
    for d in (2, 3, 4):
        m = {2: 5, 3: 5, 4: 4}[d] + (tier == 'thorough')
        for n in range(1, m + 1):
            for x0 in range(d):
                for x1 in (range(d) if n > 2 else [None]):
                    yield dict(kind='paths', d=d, n=n, x0=x0, x1=x1)
    for d in (2, 3):
        for k in range(3):
            yield dict(kind='draw', d=d, k=k)
    for k in range(3):
        for d in (2, 3, 4, 5):
            yield dict(kind='points', d=d, k=k)


def off(d):
    return ~np.eye(d, dtype=bool)


def run(cfg, R):
    d = cfg['d']
    m = off(d)
    if cfg['kind'] == 'draw':
        alp, bet = prior(d, cfg['k'])
        a0, b0 = alp.copy(), bet.copy()
        lv = R.explore(lambda g: I.sample_param(alp, bet, g), K={'gamma': 2}, key='draw-')
        tol = .3 if harness.inexact(lv) else 1e-8
        for l in lv:
            R.check(np.shape(l.val) == (d, d) and np.all(np.isfinite(l.val)), 'draw-shape', 'a finite matrix', got=l.val)
            R.check(np.allclose(np.sum(l.val, 1), 0, atol=1e-9) and np.all(l.val[m] >= 0), 'draw-generator', 'draws are generators', got=l.val)
        mu = harness.mean(lv, lambda G: G[m])
        R.near(mu, (alp / bet)[m], tol, 'draw-mean', 'mean of a sampled generator')
        sec = harness.mean(lv, lambda G: np.outer(G[m], G[m]))
        r = (alp / bet)[m]
        R.near(sec, np.outer(r, r) + np.diag((alp / bet ** 2)[m]), tol, 'draw-second', 'second moments of a sampled generator')
        R.check(np.array_equal(alp, a0, equal_nan=True) and np.array_equal(bet, b0, equal_nan=True), 'mutates', 'inputs unchanged')
        return
    if cfg['kind'] == 'points':
        alp, bet = prior(d, cfg['k'])
        for c in (1.0, 3.0, 40.0):
            a, b = alp + (c if cfg['k'] == 2 else 0), bet * c
            a0, b0 = a.copy(), b.copy()
            for f, ref, name in ((I.get_ev, a / b, 'ev'), (I.get_mode, (a - 1) / b, 'mode')):
                ok, G = R.call(f, a, b, key=name + '-')
                if ok:
                    R.state((name, c, G))
                    R.near(np.asarray(G)[m], ref[m], 1e-12, name, name)
                    R.check(np.allclose(np.sum(G, 1), 0, atol=1e-10), name + '-rows', 'rows sum to zero', got=G)
                    if name == 'mode' and np.all(a[m] >= 1):  # the mode maximises the prior density
                        ok, lp = R.call(I.eval_logprior, np.where(m, np.maximum(G, 1e-300), G), a, b, key='prior-')
                        for e in (.9, 1.1):
                            for i, j in zip(*np.where(m)):
                                H = np.array(G, float)
                                if H[i, j] <= 0:
                                    continue
                                H[i, j] *= e
                                ok2, lq = R.call(I.eval_logprior, np.where(m, np.maximum(H, 1e-300), H), a, b, key='prior-')
                                R.check(ok and ok2 and lq <= lp + 1e-12, 'mode-max', 'the mode maximises the density')
            R.check(np.array_equal(a, a0, equal_nan=True) and np.array_equal(b, b0, equal_nan=True), 'mutates', 'inputs unchanged')
        return
    gens = []
    for c in (1.0, .2):
        G = np.array([[c * (1 + i + .37 * j * (i + 1)) for j in range(d)] for i in range(d)])
        np.fill_diagonal(G, 0)
        np.fill_diagonal(G, -G.sum(1))
        gens.append(G)
    sparse = [gen(g) for g in GENS if len(GENS[g]) == d]
    n = cfg['n']
    for mid in it.product(range(d), repeat=n - 1):
        xs = (cfg['x0'],) + mid
        if any(a == b for a, b in zip(xs, xs[1:])) or (cfg['x1'] is not None and xs[-1] != cfg['x1']):
            continue
        for rot in range(2):
            steps = (STEPS[rot:] + STEPS[:rot])[:n]
            path(R, d, m, np.r_[0.0, np.cumsum(steps)], xs, gens, sparse)


def path(R, d, m, ts, xs, gens, sparse):
    t, x, T = ts[:-1], np.array(xs), float(ts[-1])
    sk = S.Skeleton(t.copy(), x.copy(), T)
    hold = np.zeros(d)
    cnt = np.zeros((d, d))
    for i, s in enumerate(xs):
        hold[s] += ts[i + 1] - ts[i]
        if i:
            cnt[xs[i - 1], s] += 1
    R.state((xs, ts))
    cuts = [[(ts[i] + ts[i + 1]) / 2 for i in range(len(xs))], [(2 * ts[i] + ts[i + 1]) / 3 for i in range(0, len(xs), 2)]]
    pieces = []
    for c in cuts:
        ok, p = R.call(S.partition_skeleton, sk, np.array(c), key='cut-')
        pieces.append(p if ok else [sk])
    for k in range(3):
        alp, bet = prior(d, k)
        a0, b0 = alp.copy(), bet.copy()
        ok, post = R.call(I.update, sk, alp, bet, key='update-')
        if not ok:
            return
        R.near(np.asarray(post[0])[m], (a0 + cnt)[m], 1e-12, 'counts', 'posterior shapes count the jumps of %s' % (xs,), ts=ts)
        R.near(np.asarray(post[1])[m], (b0 + hold[:, None])[m], 1e-12, 'occupancy', 'posterior rates hold the time in every state of %s' % (xs,), ts=ts)
        R.check(np.array_equal(alp, a0, equal_nan=True) and np.array_equal(bet, b0, equal_nan=True) and np.array_equal(sk.t, t) and np.array_equal(sk.xt, x),
                'mutates', 'inputs unchanged')
        for p in pieces:
            a, b = alp, bet
            for q in p:
                ok, r = R.call(I.update, q, a, b, key='update-')
                if ok:
                    a, b = r
            R.near(np.asarray(a)[m], np.asarray(post[0])[m], 1e-12, 'additive-counts', 'updating by pieces equals updating by the whole path', xs=xs)
            R.near(np.asarray(b)[m], np.asarray(post[1])[m], 1e-12, 'additive-occupancy', 'updating by pieces equals updating by the whole path', xs=xs)
        for G in gens:
            v = [R.call(I.eval_logprior, G, q[0], q[1], key='prior-') for q in ((alp, bet), post)]
            l = R.call(I.eval_loglik, sk, G, key='loglik-')
            if l[0] and v[0][0] and v[1][0]:
                R.near(v[1][1] - v[0][1], l[1], 1e-9, 'conjugate', 'log posterior - log prior = log likelihood of %s' % (xs,), ts=ts, prior=k)
                if k == 0:
                    p0 = np.nansum(np.where(m, (a0 - 1) * np.log(np.where(m, G, 1)) - b0 * G, 0))
                    R.near(v[0][1], p0, 1e-9, 'prior', 'gamma log density')
    for G in gens + sparse:
        if all(G[a, b] > 0 for a, b in zip(xs, xs[1:])):
            ref = sum(np.log(G[a, b]) for a, b in zip(xs, xs[1:])) + float(hold @ np.diag(G))
            ok, l = R.call(I.eval_loglik, sk, G, key='loglik-')
            if ok:
                R.near(l, ref, 1e-9, 'loglik', 'path log density of %s' % (xs,), ts=ts)
            for p in pieces:
                ls = [R.call(I.eval_loglik, q, G, key='loglik-') for q in p]
                if all(o for o, _ in ls):
                    R.near(sum(float(v) for _, v in ls), ref, 1e-9, 'loglik-additive', 'log likelihood adds over pieces of %s' % (xs,), ts=ts)
