"""C09: Gaussian and Bessel path samplers and the moment functions."""
import itertools as it

import numpy as np

from ctbayes.misc import testing
from ctbayes.sdelib import interpolators as I
from ctbayes.sdelib import moments as M
from ctbayes.sdelib import paths as P
from mc import harness

RULE = 'every quadrature branch of the normal draws (exact for the moments compared): mean, covariance and fourth-order moments of each sampler against the process formulas, and the moment functions on grids'
BOUNDS = {'quick': 'time sets of 1 to 3 points (5 for the moment functions), 4 durations, 6 end-point pairs, up to 3 coordinates, Bessel dimensions 1 to 4; up to 4 times inserted into a path of 4 points',
          'thorough': 'time sets of up to 4 points'}
ASSUME = ['moments up to order four (for up to two times) and two (for more) stand for the joint law']
TS = [[.5], [.1], [.99], [.25, .75], [.05, .06], [.3, .9], [.2, .5, .7], [.1, .8, .95]]
ENDS = [(0.0, 0.0), (1.0, 0.0), (0.0, -2.0), (1.5, 1.5), (-.7, 2.2), (100.0, 101.0)]
DUR = [1.0, .04, 3.0, 50.0]


def configs(tier, seed):
    ts = TS + ([[.1, .3, .6, .9]] if tier == 'thorough' else [])
    for t, T in it.product(ts, DUR):
        for x, y in ENDS:
            yield dict(kind='bridge', t=t, T=T, x=x, y=y)
        for x, mu in ((0.0, None), (1.3, None), (-2.0, .7), (.5, -3.0)):
            yield dict(kind='wiener', t=t, T=T, x=x, mu=mu)
        for d in (1, 2, 3, 4):
            if d * len(t) <= 8:
                for x, mu in ((0.0, None), (1.2, None), (.4, -1.5)):
                    yield dict(kind='bessel', t=t, T=T, x=x, mu=mu, d=d)
                for y in (0.0, .8, 3.0):
                    yield dict(kind='besselbr', t=t, T=T, y=y, d=d)
    for f in ([.5], [.1, .2], [.1, .6], [.05, .3, .6], [.41, .5, .9], [.7, .75, .8], [.2, .3, .5, .6], [.1, .2, .5, .9]):
        for T in DUR:
            for col in (True, False):
                if len(f) < 4 or T == 1.0 or tier == 'thorough':
                    yield dict(kind='fill', f=f, T=T, col=col)
    yield dict(kind='multi')
    yield dict(kind='moments')
    for n, T in ((1, 1.0), (4, 1.0), (3, .75), (3, 2.0), (5, .7), (2, .3)):
        for nd in (1, 2):
            yield dict(kind='euler', n=n, T=T, nd=nd)


def gauss(R, lv, mean, cov, key, K, get=lambda v: v):
    tol = (.5 if harness.inexact(lv) else 1e-8) * (1 + np.max(np.abs(mean)) ** 2)
    X = [np.asarray(get(l.val), float) for l in lv]
    n = len(mean)
    if not R.check(all(x.shape == (n,) for x in X), key + '-shape', 'one value per time', got=[x.shape for x in X][:2]):
        return
    w, X = np.array([l.w for l in lv]), np.array(X)
    m = w @ X
    R.near(m, mean, tol, key + '-mean', 'mean')
    Z = X - mean
    R.near(np.einsum('l,li,lj->ij', w, Z, Z), cov, tol, key + '-cov', 'covariance')
    if K >= 3:
        c4 = np.einsum('l,li,lj,lk,lm->ijkm', w, Z, Z, Z, Z)
        ref = np.einsum('ij,km->ijkm', cov, cov) + np.einsum('ik,jm->ijkm', cov, cov) + np.einsum('im,jk->ijkm', cov, cov)
        R.near(c4, ref, tol * 10, key + '-fourth', 'fourth central moments')


def run(cfg, R):
    k = cfg['kind']
    if k == 'moments':
        return moms(R)
    if k == 'euler':
        return euler(cfg, R)
    if k == 'multi':
        return multi(R)
    if k == 'fill':
        return fill(cfg, R)
    T = cfg['T']
    t = np.array(cfg['t']) * T
    tc = t.copy()
    n = len(t)
    mn, mx = np.minimum.outer(t, t), np.maximum.outer(t, t)
    d = cfg.get('d', 1)
    K = 3 if n * d <= 6 and n <= 2 else 2
    kw = dict(K=K, observe=False)
    if k == 'bridge':
        x, y = cfg['x'], cfg['y']
        lv = R.explore(lambda g: P.sample_brownbr(t, T, x, y, g), key=k + '-', **kw)
        mean, cov = x + (y - x) * t / T, mn * (T - mx) / T
        gauss(R, lv, mean, cov, k, K)
        ok, mc = R.call(M.moments_brownbr, t, T, x, y, key='moments-')
    elif k == 'wiener':
        x, mu = cfg['x'], cfg['mu']
        a = None if mu is None else np.array([mu])
        lv = R.explore(lambda g: P.sample_wiener(t, np.array([x]), a, g), key=k + '-', **kw)
        mean, cov = x + (mu or 0) * t, mn
        gauss(R, lv, mean, cov, k, K, lambda v: v[:, 0])
        ok, mc = R.call(M.moments_wiener, t, x, mu or 0, key='moments-')
    if k in ('bridge', 'wiener'):
        if ok:
            R.near(mc[0], mean, 1e-12, 'moments-mean', 'reported mean')
            R.near(mc[1], cov, 1e-12, 'moments-cov', 'reported covariance')
    else:
        if k == 'bessel':
            mu = cfg['mu']
            lv = R.explore(lambda g: P.sample_bessel(t, cfg['x'], d, mu, g), key=k + '-', **kw)
            m, c = cfg['x'] + (mu or 0) * t, mn
        else:
            lv = R.explore(lambda g: P.sample_besselbr(t, T, cfg['y'], d, g), key=k + '-', **kw)
            m, c = cfg['y'] * t / T, mn * (T - mx) / T
        e = m ** 2 + d * np.diag(c)
        tol = (.5 if harness.inexact(lv) else 1e-8) * (1 + np.max(e) ** 2)
        X = [np.asarray(l.val, float) for l in lv]
        if R.check(all(x.shape == (n,) and np.all(x >= 0) for x in X), k + '-shape', 'one non-negative value per time'):
            w, S = np.array([l.w for l in lv]), np.array(X) ** 2
            R.near(w @ S, e, tol, k + '-second', 'second moment')
            if K >= 3:
                cc = np.einsum('l,li,lj->ij', w, S, S) - np.outer(e, e)
                R.near(cc, 2 * d * c ** 2 + 4 * np.outer(m, m) * c, tol * 10, k + '-fourth', 'covariance of the squares')
    for l in lv[:50]:
        R.state(l.val)
    R.sample(lv[0].val)
    R.check(np.array_equal(t, tc), 'mutates', 'inputs unchanged')


def fill(cfg, R):
    """values inserted into a revealed Wiener path are bridges between their neighbours"""
    T = cfg['T']
    t = np.array([0, .4, .65, 1.0]) * T
    x = np.array([.3, -.7, 1.1, .2])
    new = np.array(cfg['f']) * T
    n = len(new)
    K = 3 if n <= 2 else 2
    for given in (x[:, None] if cfg['col'] else x,):
        lv = R.explore(lambda g: I.fill_wiener_vector(t, given, new, g), key='fill-', K=K, observe=False)
        if not lv:
            return
        for l in lv:
            tt, xx, i = l.val
            tt, xx, i = np.asarray(tt, float), np.asarray(xx, float), np.asarray(i)
            if not R.check(tt.shape == (n + 4,) and xx.shape == (n + 4,) + given.shape[1:] and np.allclose(tt, np.sort(np.r_[t, new]))
                           and np.array_equal(tt[i], new), 'fill-shape', 'merged times and the places of the new ones', got=[tt, xx.shape, i]):
                return
            old = ~np.isin(np.arange(n + 4), i)
            R.check(np.array_equal(xx[old], given), 'fill-old', 'revealed values are kept', got=xx)
        sec = np.searchsorted(t, new, side='right')
        a, b = t[sec - 1], t[sec]
        mean = x[sec - 1] + (x[sec] - x[sec - 1]) * (new - a) / (b - a)
        mn, mx = np.minimum.outer(new, new), np.maximum.outer(new, new)
        cov = np.where(sec[:, None] == sec, (mn - a) * (b - mx) / (b - a), 0.0)
        gauss(R, lv, mean, cov, 'fill', K, lambda v: np.asarray(v[1], float).reshape(-1)[np.asarray(v[2])])
    for l in lv[:50]:
        R.state(l.val)


def multi(R):
    """several coordinates with their own starts and drifts are independent"""
    t = np.array([.2, .7])
    x0, mu = np.array([1.0, -2.0, .5]), np.array([.3, 0.0, -1.0])
    for m in (None, mu):
        lv = R.explore(lambda g: P.sample_wiener(t, x0, m, g), key='multi-', K=2)
        w, X = np.array([l.w for l in lv]), np.array([np.asarray(l.val, float) for l in lv])
        tol = .5 if harness.inexact(lv) else 1e-9
        mean = x0 + np.outer(t, mu if m is not None else 0 * mu)
        if not R.check(X.shape[1:] == (2, 3), 'multi-shape', 'times by coordinates', got=X.shape):
            return
        R.near(np.einsum('l,lij->ij', w, X), mean, tol, 'multi-mean', 'means')
        Z = X - mean
        ref = np.einsum('ik,jm->ijkm', np.minimum.outer(t, t), np.eye(3))
        R.near(np.einsum('l,lij,lkm->ijkm', w, Z, Z), ref, tol, 'multi-cov', 'covariance over times and coordinates')


def moms(R):
    for fr in ([.5], [.1, .9], [.2, .21, .5, .7, .99], [.01, .02, .03]):
        for T, (x, y) in it.product(DUR, ENDS):
            t = np.array(fr) * T
            mn, mx = np.minimum.outer(t, t), np.maximum.outer(t, t)
            ok, mc = R.call(M.moments_brownbr, t, T, x, y, key='moments-')
            R.state((fr, T, x, y))
            if ok:
                R.near(mc[0], x + (y - x) * t / T, 1e-12, 'moments-mean', 'bridge mean')
                R.near(mc[1], mn * (T - mx) / T, 1e-12, 'moments-cov', 'bridge covariance')
            for mu in (0, .4, -2.0):
                ok, mw = R.call(M.moments_wiener, t, x, mu, key='moments-')
                if ok:
                    R.near(mw[0], x + mu * t, 1e-12, 'moments-mean', 'Wiener mean')
                    R.near(mw[1], mn, 1e-12, 'moments-cov', 'Wiener covariance')
                    # conditioning the Wiener process on its value at T gives the bridge
                    tt = np.r_[t, T]
                    um, uc = x + mu * tt, np.minimum.outer(tt, tt)
                    ok, cb = R.call(M.moments_gaussian_bridge, y, um, uc, key='moments-')
                    if ok:
                        R.near(cb[0], x + (y - x) * t / T, 1e-9, 'conditional-mean', 'conditional mean')
                        R.near(cb[1], mn * (T - mx) / T, 1e-9, 'conditional-cov', 'conditional covariance')
    for n in (1, 2, 3, 4):
        for v in range(3):
            i, j = np.indices((n, n))
            A = np.eye(n) + .3 * np.cos(1 + i * (v + 1) + 2.3 * j)
            C, m = A @ A.T, np.sin(np.arange(n) * (v + 1.3))
            ok, cb = R.call(M.moments_gaussian_bridge, .9, m, C, key='moments-')
            if ok:
                Pm = np.linalg.inv(C)  # conditional precision is the block of the precision matrix
                S = np.linalg.inv(Pm[:-1, :-1]) if n > 1 else np.zeros((0, 0))
                R.near(cb[1], S, 1e-9, 'conditional-cov', 'conditional covariance of a Gaussian vector')
                R.near(cb[0], m[:-1] - S @ Pm[:-1, -1] * (.9 - m[-1]), 1e-9, 'conditional-mean', 'conditional mean of a Gaussian vector')


def euler(cfg, R):
    n, T, nd = cfg['n'], cfg['T'], cfg['nd']
    res = T / n
    for f, v, x0 in ((0.0, 1.0, 0.0), (.7, .5, -1.0), (-2.0, 2.0, 3.0)):
        lv = R.explore(lambda g: testing.euler_simulate(nd, T, x0, lambda x: f, lambda x: v, res, g), key='euler-', K=2)
        if not lv:
            return
        for l in lv:
            t, x = np.asarray(l.val[0], float), np.asarray(l.val[1], float)
            if not R.check(x.shape == (nd, len(t)) and t[0] == 0 and np.all(x[:, 0] == x0), 'euler-shape',
                           'one state per reported time from the initial state: %d times, states %s' % (len(t), x.shape)):
                return
            R.check(np.allclose(np.diff(t), res) and abs(t[-1] - T) <= res * 1.01, 'euler-times', 'times at the resolution up to the end', got=t)
        w, X = np.array([l.w for l in lv]), np.array([np.asarray(l.val[1], float) for l in lv])
        tol = .5 if harness.inexact(lv) else 1e-8
        mean = x0 + f * t
        R.near(np.einsum('l,lij->ij', w, X), np.tile(mean, (nd, 1)), tol, 'euler-mean', 'mean')
        Z = X - mean
        R.near(np.einsum('l,lij,lkm->ijkm', w, Z, Z), np.einsum('ik,jm->ijkm', np.eye(nd), v * v * np.minimum.outer(t, t)), tol, 'euler-cov', 'covariance')
    # state dependent drift and volatility: one step
    lv = R.explore(lambda g: testing.euler_simulate(1, res, 2.0, lambda x: x ** 2, lambda x: 3 * x, res, g), key='euler-', K=2)
    if lv:
        x = np.array([float(np.asarray(l.val[1])[0, 1]) if np.asarray(l.val[1]).shape[1] > 1 else np.nan for l in lv])
        w = np.array([l.w for l in lv])
        R.near([w @ x, w @ (x - w @ x) ** 2], [2 + 4 * res, 36 * res], 1e-8, 'euler-step', 'mean and variance of one step')
