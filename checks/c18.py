"""C18: proposal adaptation is correct, bounded and diminishing."""
import copy
import itertools as it
import math

import numpy as np

from ctbayes.misc import adapt as A
from ctbayes.mjplib import skeleton as K
from mc import engine, harness

RULE = 'every sequence of acceptance outcomes from a small alphabet to a depth, explored as a tree over the live sampler objects, the proposal law measured exactly at every node by exploring the real propose under the controlled generator; running moments for every sequence of observations from a small alphabet; transforms on a grid of bounds and values'
BOUNDS = {'quick': 'all 3^6 outcome sequences (three full adaptation periods) for three samplers and six settings, periodic sequences of length 120; observation sequences up to length 6 in 1 to 3 dimensions',
          'thorough': 'all 4^7 outcome sequences, periodic sequences of length 400, observation sequences up to length 8'}
ASSUME = ['normal draws are judged by their first two moments (exact under quadrature for a normal proposal)']

INF = math.inf
BOUNDS1 = {'real': (-INF, INF), 'default': None, 'lower': (.5, INF), 'neglower': (-2.0, INF), 'upper': (-INF, 3.0), 'both': (-1.0, 2.5), 'unit': (0.0, 1.0)}
SETTINGS = [(.234, .66, 1), (.2, .66, 1), (.5, 1.0, 1), (.4, .5, 2), (.3, .8, 0), (.1, .3, 3)]


def configs(tier, seed):
    for b in BOUNDS1:
        if b != 'default':
            yield dict(kind='transform', b=b)
    for d in (1, 2, 3):
        yield dict(kind='moments', d=d, n=6 if tier == 'quick' else (8 if d < 3 else 7))
    for s in range(len(SETTINGS)):
        for which in ('rw', 'mv', 'mjp'):
            for b in BOUNDS1:
                if which == 'mjp' and b != 'real' or which == 'mv' and b == 'default':
                    continue
                yield dict(kind='tree', which=which, b=b, s=s, letters=3 if tier == 'quick' else 4, depth=(3 if b != 'lower' and which != 'mjp' else 6) if tier == 'quick' else (4 if b != 'lower' and which != 'mjp' else 7))
                if b == 'real':
                    yield dict(kind='long', which=which, b=b, s=s, depth=120 if tier == 'quick' else 400)


def run(cfg, R):
    dict(transform=transform, moments=moments, tree=tree, long=long_)[cfg['kind']](cfg, R)


# ---- transforms: my own reference, only used to read proposals on the real line

def to_real(x, lb, ub):
    """y, log |dy/dx|"""
    if math.isinf(lb) and math.isinf(ub):
        return x, 0.0
    if math.isinf(lb):
        return math.log(ub - x), -math.log(ub - x)
    if math.isinf(ub):
        return math.log(x - lb), -math.log(x - lb)
    return math.log((x - lb) / (ub - x)), math.log((ub - lb) / ((x - lb) * (ub - x)))


def transform(cfg, R):
    lb, ub = BOUNDS1[cfg['b']]
    lo, hi = (lb if lb > -INF else -6.0), (ub if ub < INF else 6.0)
    key = 'transform-%s' % cfg['b']
    for u in np.linspace(0, 1, 203)[1:-1]:
        x = float(lo + (hi - lo) * u)
        ok, v = R.call(A.transform_to_reals, x, lb, ub, key=key)
        if not ok:
            continue
        y, lj = v
        R.state((y, lj))
        ok, v = R.call(A.transform_to_const, y, lb, ub, key=key)
        if not ok:
            continue
        R.near(v[0], x, 1e-8, key + '-inverse', x=x)
        R.near(v[1], lj, 1e-8, key + '-jacobian-pair', 'the two directions report different log derivatives', x=x)
        h = 1e-5 * min(1.0, x - lb, ub - x)
        d = (float(A.transform_to_reals(x + h, lb, ub)[0]) - float(A.transform_to_reals(x - h, lb, ub)[0])) / (2 * h)
        R.near(lj, math.log(abs(d)), 1e-4, key + '-jacobian', 'log derivative', x=x)
    for y in np.linspace(-12, 12, 201):
        ok, v = R.call(A.transform_to_const, float(y), lb, ub, key=key)
        if ok:
            R.check(lb <= v[0] <= ub, key + '-inside', 'real number mapped outside the constraint', y=float(y), x=float(v[0]))
            R.near(A.transform_to_reals(v[0], lb, ub)[0], y, 1e-6, key + '-onto', y=float(y))


def moments(cfg, R):
    d, n = cfg['d'], cfg['n']
    alpha = [np.array(v, float) for v in {1: [(-1.3,), (.4,), (2.0,)], 2: [(-1.0, .5), (.3, 2.0), (1.1, -.7)], 3: [(-1.0, .5, .2), (.3, 2.0, -1.0), (1.1, -.7, .6)]}[d]]
    for start in (2, 3):
        for head in it.product(range(3), repeat=start):
            if head != tuple(sorted(head)):
                continue
            y = [alpha[i] for i in head]
            walk(R, y, np.mean(y, 0), np.cov(np.array(y).T).reshape(d, d), alpha, n)
    # long run: 2 + 200 observations on a low-discrepancy pattern
    y = [np.array([math.sin(1.7 * k + j) * (1 + j) + .3 * j for j in range(d)]) for k in range(202)]
    m, c = np.mean(y[:2], 0), np.cov(np.array(y[:2]).T).reshape(d, d)
    for k in range(2, 202):
        m, c = A.seq_update_normal(y[k], k, m, c)
    R.near(m, np.mean(y, 0), 1e-9, 'moments-mean')
    R.near(c, np.cov(np.array(y).T).reshape(d, d), 1e-9, 'moments-cov')


def walk(R, y, m, c, alpha, n):
    if len(y) >= n:
        return
    for a in alpha:
        m0, c0, a0 = m.copy(), c.copy(), a.copy()
        ok, v = R.call(A.seq_update_normal, a, len(y), m, c, key='moments-')
        if not ok:
            return
        R.check(np.array_equal(m, m0) and np.array_equal(c, c0) and np.array_equal(a, a0), 'moments-inputs', 'inputs modified')
        z = y + [a]
        m1, c1 = np.mean(z, 0), np.cov(np.array(z).T).reshape(c.shape)
        good = R.near(v[0], m1, 1e-9, 'moments-mean', n=len(y))
        good = R.near(v[1], c1, 1e-9, 'moments-cov', n=len(y)) and good
        R.state((v[0], v[1]))
        if good:
            walk(R, z, m1, c1, alpha, n)


# ---- samplers

T_OBS = np.array([0.0, .5, 1.1, 1.6, 2.5])
SKEL = K.Skeleton(np.array([0, .3, 1.9]), np.array([0, 1, 0]), 2.5)
LAM = np.array([[-1.0, 1.0], [1.0, -1.0]])
MUTATE = K.mutate_partition


class Rw(object):
    start, kept = .9, [.9, 1.3, .7, 1.1]

    def __init__(self, cfg):
        opt, dec, air = SETTINGS[cfg['s']]
        b = BOUNDS1[cfg['b']]
        self.bounds = b or (-INF, INF)
        if cfg['b'] == 'unit':
            self.start, self.kept = .4, [.4, .8, .15, .6]
        self.s = A.MyopicRwSampler(self.start, opt_prob=opt, adapt_decay=dec, air=air) if b is None else A.MyopicRwSampler(self.start, b, opt, dec, air)
        self.cur = self.start
        self.hist = []

    def step(self, out, R):
        self.cur = self.kept[int(len(self.hist) + out * 7) % 4]
        self.hist.append(self.cur)
        return R.call(self.s.adapt, self.cur, out, key='adapt-')[0]

    def measure(self, R):
        """log scale of the proposal, after checking that it is centred at the kept state"""
        leaves = R.explore(lambda g: self.s.propose(g), key='propose-', K=5, observe=False)
        if not leaves or R.last.pruned > 1e-9:
            R.note('proposal not measured')
            return None
        lb, ub = self.bounds
        ys = []
        for l in leaves:
            x, lf, lb_ = l.val
            x = float(x)
            if not R.check(lb < x < ub, 'propose-inside', 'proposal outside the bounds', x=x, bounds=self.bounds):
                return None
            y, j = to_real(x, lb, ub)
            R.near(lf, j, 1e-6, 'propose-forward', 'log density correction of the proposal', x=x)
            R.near(lb_, to_real(self.cur, lb, ub)[1], 1e-6, 'propose-backward', 'log density correction of the current state', x=self.cur)
            ys.append(y)
        w = np.array([l.w for l in leaves])
        m = float(w @ ys / w.sum())
        v = float(w @ np.square(np.array(ys) - m) / w.sum())
        R.near(m, to_real(self.cur, lb, ub)[0], 1e-6, 'propose-centre', 'proposal centred at the kept state')
        return math.log(v) / 2 if v > 0 else None


class Mv(Rw):
    """scale of a multivariate proposal: its covariance divided by the running covariance it was last matched to"""

    def __init__(self, cfg):
        opt, dec, air = SETTINGS[cfg['s']]
        b = BOUNDS1[cfg['b']]
        self.bounds = np.array([b[0], -INF]), np.array([b[1], INF])
        f = [.4, .8, .15, .6] if cfg['b'] == 'unit' else [.9, 1.3, .7, 1.1]
        self.kept = [np.array([u, v]) for u, v in zip(f, [.2, -.4, 1.0, .3])]
        self.start = self.cur = self.kept[0]
        self.s = A.MyopicMvRwSampler(self.start, self.bounds, opt, dec, air)
        self.hist = []
        self.base = np.identity(2)
        self.n, self.m, self.c = 2, np.zeros(2), np.identity(2)

    def real(self, x):
        v = [to_real(float(a), float(b), float(c)) for a, b, c in zip(x, *self.bounds)]
        return np.array([a for a, _ in v]), sum(b for _, b in v)

    def step(self, out, R):
        ok = super().step(out, R)
        y = self.real(self.cur)[0]
        d = y - self.m
        self.m, self.c = self.m + d / (self.n + 1), self.c + np.outer(d, d) / (self.n + 1) - self.c / self.n
        self.n += 1
        return ok

    def measure(self, R):
        leaves = R.explore(lambda g: self.s.propose(g), key='propose-', K=5, observe=False)
        if not leaves or R.last.pruned > 1e-9:
            R.note('proposal not measured')
            return None
        ys = []
        y0, j0 = self.real(self.cur)
        for l in leaves:
            x, lf, lb_ = l.val
            x = np.asarray(x, float)
            if not R.check(np.all(x > self.bounds[0]) and np.all(x < self.bounds[1]), 'propose-inside', 'proposal outside the bounds', x=x):
                return None
            y, j = self.real(x)
            R.near(lf, j, 1e-6, 'propose-forward', 'log density correction of the proposal', x=x)
            R.near(lb_, j0, 1e-6, 'propose-backward', 'log density correction of the current state', x=self.cur)
            ys.append(y)
        w, ys = np.array([l.w for l in leaves]), np.array(ys)
        w = w / w.sum()
        m = w @ ys
        R.near(m, y0, 1e-6, 'propose-centre', 'proposal centred at the kept state')
        self.cov = (w[:, None] * (ys - m)).T @ (ys - m)
        # the proposal covariance is a multiple of the running covariance of the last period end, or of the present one
        for i, base in enumerate((self.base, self.c)):
            r = np.trace(self.cov) / np.trace(base)
            if np.allclose(self.cov, r * base, rtol=1e-6, atol=1e-9):
                if i:
                    self.base = base
                self.fresh = i
                return math.log(r)
        R.fail('propose-shape', 'proposal covariance is neither a multiple of the running covariance at the last period end nor of the present one',
               cov=self.cov, last=self.base, present=self.c, history=len(self.hist))
        return None


class Mjp(Rw):
    def __init__(self, cfg):
        opt, dec, air = SETTINGS[cfg['s']]
        self.s = A.MyopicMjpSampler(SKEL, opt, dec, air)
        self.kept = [SKEL, SKEL._replace(t=np.array([0, .4, 2.2])), SKEL._replace(t=np.array([0.0]), xt=np.array([1])), SKEL._replace(t=np.array([0, 1.2]), xt=np.array([1, 0]))]
        self.cur = SKEL
        self.hist = []

    def measure(self, R):
        seen = []

        def stub(part, lam, ome, *a, **kw):
            seen.append(part)
            return part

        def go(g):
            with engine.replaced((MUTATE, stub)):
                prop, t_cond = self.s.propose(LAM, T_OBS, g)
            return np.asarray(t_cond, float), prop
        leaves = R.explore(go, key='propose-', observe=False)
        if not leaves:
            return None
        if not seen:
            R.note('mutate_partition is not called: only conditioning times judged')
        w = np.zeros(3)
        law = {}
        for l in leaves:
            tc, prop = l.val
            R.check(set(tc) <= set(T_OBS[1:-1]), 'propose-times', 'conditioning times must be interior observation times', t=tc)
            hit = tuple(u in tc for u in T_OBS[1:-1])
            law[hit] = law.get(hit, 0) + l.w
            w += l.w * np.array(hit)
            if seen:
                R.near(prop.t, self.cur.t, 1e-9, 'propose-centre', 'proposal starts from the kept state')
                R.check(np.array_equal(prop.xt, self.cur.xt), 'propose-centre', 'proposal starts from the kept state', got=prop.xt, want=self.cur.xt)
        p = float(w[0])
        for h, q in law.items():
            R.near(q, math.prod(p if i else 1 - p for i in h), 1e-9, 'propose-independent', 'conditioning times are chosen independently with one probability', chosen=h)
        return math.log(1 / p - 1) if 0 < p < 1 else None


KINDS = dict(rw=Rw, mv=Mv, mjp=Mjp)


def expected(cfg):
    opt, dec, air = SETTINGS[cfg['s']]
    ends, gain, t = [], [], 0
    for k in range(1, 500):
        t += k ** air
        ends.append(t)
        gain.append((k + 1) ** -dec)
    return opt, ends, gain


def advance(R, sam, outs, scale, out, exp, key):
    """one adaptation step; returns the new scale or None"""
    opt, ends, gain = exp
    if not sam.step(out, R):
        return None
    n = len(outs) + 1
    new = sam.measure(R)
    if new is None:
        return None
    outs = outs + [out]
    if n not in ends:
        R.near(new, scale, 1e-7, key + 'between', 'the scale changes only at the end of a period', outcomes=outs)
        return new
    k = ends.index(n)
    m = float(np.mean(outs[(ends[k - 1] if k else 0):]))
    d = new - scale
    if abs(m - opt) < 1e-12:
        R.near(d, 0.0, 1e-7, key + 'on-target', 'no move on target', outcomes=outs)
    else:
        R.check(d * (m - opt) > 0, key + 'direction', 'scale moved %+.4g after a period with mean acceptance %.4g against target %.4g' % (d, m, opt), outcomes=outs)
        R.near(d, gain[k] * (m - opt), 1e-7, key + 'amount', 'amount shrinks as the stated power of the number of periods', outcomes=outs)
    if isinstance(sam, Mv):
        R.near(sam.cov / math.exp(new), sam.c, 1e-6, key + 'matched', 'proposal covariance matches the running covariance at the end of a period', outcomes=outs)
    return new


def tree(cfg, R):
    exp = expected(cfg)
    alphabet = [0.0, 1.0, exp[0], .55][:cfg.get('letters', 4)]
    sam = KINDS[cfg['which']](cfg)
    s0 = sam.measure(R)
    if s0 is None:
        R.fail('start', 'initial proposal has no scale')
        return
    key = cfg['which'] + '-'

    def rec(sam, outs, scale):
        if len(outs) == cfg['depth'] or len(R.fails) > 5:
            return
        for o in alphabet:
            c = copy.deepcopy(sam)
            new = advance(R, c, outs, scale, o, exp, key)
            R.state((outs, o))
            if new is not None:
                rec(c, outs + [o], new)
    rec(sam, [], s0)


def long_(cfg, R):
    exp = expected(cfg)
    opt = exp[0]
    for pat in ([1.0], [0.0], [opt], [1.0, 0.0], [.9, .1, .1], [0, 0, 0, 1.0, 1.0], [opt, opt, opt, 1.0, opt, opt, 0.0]):
        sam = KINDS[cfg['which']](cfg)
        scale = sam.measure(R)
        outs = []
        last = None
        while len(outs) < cfg['depth'] and scale is not None and len(R.fails) < 5:
            o = pat[len(outs) % len(pat)]
            new = advance(R, sam, outs, scale, o, exp, cfg['which'] + '-long-')
            outs.append(o)
            if new is None:
                break
            if len(pat) == 1 and pat[0] != opt and abs(new - scale) > 1e-9:
                if last is not None:
                    R.check(abs(new - scale) < last + 1e-9, cfg['which'] + '-diminishing', 'steps do not shrink', n=len(outs))
                last = abs(new - scale)
            scale = new
            R.state((pat, len(outs), round(new, 9)))
