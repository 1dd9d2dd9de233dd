"""C12: path-functional coins and estimators are exact."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.ea3lib import seed as Z
from ctbayes.ea3lib import skeleton as K
from ctbayes.mjplib import skeleton as M
from mc import engine

RULE = 'all multisets of points of the driving Poisson process over cells of equal volume, with their exact probabilities, for a known path whose potential is constant on the cells: probabilities and expectations are then exact; real driving process with one or two points on a quadrature menu'
BOUNDS = {'quick': 'up to 4 points in 16 cells (time by mark) or 7 points in 4 cells (time); batch sizes 1, 2, 3 and 10; two durations; both orientations; rising, falling and mixed potentials',
          'thorough': 'up to 5 points'}
ASSUME = ['Poisson samplers are exact and skeleton refinement is consistent (decided by C04, C11)']

NC = 4
_batch, _ppp, _interp = M.sample_batch_ppp, M.sample_ppp, K.interpolate_skeleton
_sb, _sp, _si = inspect.signature(_batch), inspect.signature(_ppp), inspect.signature(_interp)
PATHS = {'mixed': [1, 3, 0, 2], 'flat': [2, 2, 2, 2], 'up': [0, 1, 2, 3], 'spike': [0, 0, 3, 0]}


def configs(tier, seed):
    n = 4 if tier == 'quick' else 5
    for path in PATHS:
        for T in (1.0, .6):
            for up in (False, True):
                for b in (1, 2, 3, 10):
                    if tier == 'quick' and (b in (1, 10)) != (path in ('mixed', 'spike') and up == (T == 1.0)) and b != 2:
                        continue
                    nn = n if T == 1.0 and b == 2 and path == 'mixed' else n - 1
                    yield dict(kind='flip', form='seed', path=path, T=T, up=up, b=b, n=nn)
                    yield dict(kind='flip', form='skel', path=path, T=T, up=up, b=b, n=nn)
                    for side in (True, False):
                        yield dict(kind='dual', path=path, T=T, up=up, b=b, side=side, n=nn)
                yield dict(kind='est', form='seed', path=path, T=T, up=up, n=7)
                yield dict(kind='est', form='skel', path=path, T=T, up=up, n=7)
    yield dict(kind='bounds')
    yield dict(kind='infinite')
    for form in ('seed', 'skel', 'dual'):
        yield dict(kind='real', form=form)


class World(object):
    """a known path z(s), constant on NC cells, and a driving process on a menu of cell centres"""

    def __init__(self, path, span, nmax):
        self.path, self.span, self.nmax = PATHS[path], span, nmax
        self.ppps = self.interps = 0
        self.cache = {}

    def z(self, s):
        i = np.clip((np.asarray(s, float) / self.span * NC).astype(int), 0, NC - 1)
        return np.array(self.path, float)[i]

    def points(self, lam, bounds, g):
        d = len(bounds)
        n = int(np.asarray(g.poisson(lam * float(np.prod(bounds)))))
        if n > self.nmax:
            raise engine.Prune
        if n == 0:
            return np.zeros((0, d))
        if (n, d) not in self.cache:
            ms = list(it.combinations_with_replacement(range(NC ** d), n))
            p = []
            for m in ms:
                w = math.factorial(n)
                for c in set(m):
                    w /= math.factorial(m.count(c))
                p.append(w / float(NC ** d) ** n)
            self.cache[n, d] = ms, np.array(p) / sum(p)
        ms, p = self.cache[n, d]
        m = ms[int(g.choice(len(ms), p=p))]
        out = np.zeros((n, d))
        for i, c in enumerate(m):
            for k in range(d):
                out[i, d - 1 - k] = (c % NC + (.3 + .4 * (i + 1) / (n + 1))) / NC * bounds[d - 1 - k]
                c //= NC
        return out[np.argsort(out[:, 0])]

    def batch(self, *a, **kw):
        b = _sb.bind(*a, **kw)
        b.apply_defaults()
        v = b.arguments
        self.ppps += 1
        x = self.points(v['intensity'], tuple(v['bounds']), v['ome'])
        k = v['batch_size']
        assert k > 0
        for i in range(0, len(x), k):
            yield x[i:i + k]

    def ppp(self, *a, **kw):
        b = _sp.bind(*a, **kw)
        b.apply_defaults()
        v = b.arguments
        self.ppps += 1
        return self.points(v['intensity'], tuple(v['bound']), v['ome'])

    def interp(self, *a, **kw):
        b = _si.bind(*a, **kw)
        v = b.arguments
        skel, t = v['skel'], np.asarray(v['new_t'], float)
        self.interps += 1
        if np.any(np.diff(t) < 0):
            raise AssertionError('unsorted request')
        x = self.z(t)
        self.asked |= {round(float(u), 12) for u in t}
        nt = np.union1d(np.round(skel.t, 14), np.round(t, 14))
        return skel._replace(t=nt, x=self.z(nt)), x

    def stubs(self):
        return (_batch, self.batch), (_ppp, self.ppp), (_interp, self.interp)

    def fresh(self, fn):
        def go(g):
            self.asked = set()
            r = fn(g)
            return r, set(self.asked)
        return go


def base(up, span, cls):
    lo, hi = -.5, 3.5
    t = np.array([0, .41 * span, span])
    a, b = (lo, hi) if not up else (hi, lo)
    return cls(t, np.array([0.0, a, 0.0]), a, b, (a + 9 * b) / 10, None)


def ops(T, x0, x1, c):
    """normalisation with z in scale c*sqrt(T) around a line"""
    def norm(t, x):
        s = t / T
        return s, None if x is None else (x - x0 - s * (x1 - x0)) / (c * math.sqrt(T))

    def de(s, z):
        return s * T, None if z is None else z * c * math.sqrt(T) + x0 + s * (x1 - x0)
    return norm, de


def table(vals, T, x0, x1, c):
    """potential as a function of the state: constant on bands of z"""
    def phi(x):
        k = np.clip(np.round((np.asarray(x, float) - (x0 + x1) / 2) / (c * math.sqrt(T))).astype(int), 0, NC - 1)
        return np.array(vals, float)[k]
    return phi


def mass_ok(R, W, key):
    if not W.ppps or not W.interps:
        R.note('driving process or refinement not called through its module: not compared (%s)' % key)
        return False
    return True


def revealed(R, lv, get, key):
    """nothing asked from the path is forgotten by the returned path"""
    for l in lv:
        r, asked = l.val
        have = {round(float(u), 12) for u in get(r)}
        if not R.check(asked <= have, key, 'the returned path keeps every revealed time', asked=sorted(asked), kept=sorted(have)):
            return


def flip(cfg, R):
    T, up, form = cfg['T'], cfg['up'], cfg['form']
    span = 1.0 if form == 'seed' else T
    W = World(cfg['path'], span, cfg['n'])
    le, cent = (-.3, -.9) if form == 'seed' else (.4, .1)
    I = .55 / T
    frac = np.array([0, .75, .25, 1.0])
    calls = []
    x0, x1, c = (.3, .5, 1.3) if form == 'seed' else (0.0, 0.0, 1 / math.sqrt(T))
    if form == 'seed':
        vals, ub, lb = le + I * frac, le + I, le
    else:
        vals, ub, lb = cent + I * frac, cent + I, cent
    phi = table(vals, T, x0, x1, c)

    def bounds(a, b):
        calls.append((a, b))
        return cent, (le if form == 'seed' else lb), ub
    s0 = base(up, span, Z.SeedSkeleton if form == 'seed' else K.Skeleton)
    integ = float(np.mean(np.array(vals)[PATHS[cfg['path']]]) - lb) * T
    with engine.replaced(*W.stubs()):
        if form == 'seed':
            fn = lambda g: Z.flip_poisson_coin(s0, *ops(T, x0, x1, c), phi, bounds, g, cfg['b'])
            get = lambda r: r[2].s
        else:
            fn = lambda g: K.flip_poisson_coin(s0, phi, bounds, g, cfg['b'])
            get = lambda r: r[1].t
        lv = R.explore(W.fresh(fn), key='flip-')
    if not lv or not mass_ok(R, W, 'flip'):
        return
    p = sum(l.w for l in lv if l.val[0][0])
    q = sum(l.w for l in lv if not l.val[0][0])
    tail = R.last.pruned
    R.check(math.exp(-integ) - tail - 1e-9 <= p <= math.exp(-integ) + 1e-9 and tail < 5e-3, 'flip-prob',
            'success probability in [%.8g, %.8g], exactly %.8g' % (p, p + tail, math.exp(-integ)))
    revealed(R, lv, get, 'flip-revealed')
    lim = edges(s0, form, T, x0, x1, c)
    R.check(calls and all(a <= lim[0] + 1e-9 and b >= lim[1] - 1e-9 for a, b in calls), 'flip-limits', 'potential bounds are asked for an interval holding the whole path', asked=calls[:2], limits=lim)
    if form == 'seed':
        for l in lv:
            if not R.check(abs(l.val[0][1] + T * le) < 1e-9, 'flip-weight', 'log of the remaining factor is minus duration times lower bound', got=l.val[0][1]):
                break
    R.sample(dict(p=p, exact=math.exp(-integ), tail=tail))


def edges(s0, form, T, x0, x1, c):
    lo, hi = min(s0[2], s0[3]), max(s0[2], s0[3])
    if form != 'seed':
        return lo, hi
    return lo * c * math.sqrt(T) + min(x0, x1), hi * c * math.sqrt(T) + max(x0, x1)


def dual(cfg, R):
    T, up = cfg['T'], cfg['up']
    W = World(cfg['path'], 1.0, cfg['n'])
    I = .55 / T
    a = (.3, .5, 1.3)
    b = (-.2, -.1, .8)
    v0 = np.array([0, .5, .25, .25]) * I + .2
    v1 = np.array([.75, .25, .25, 1.25]) * I + .2
    f0, f1 = table(v0, T, *a), table(v1, T, *b)
    d = (v1 - v0)[PATHS[cfg['path']]]
    integ = float(np.mean(np.maximum(d if cfg['side'] else -d, 0))) * T
    s0 = base(up, 1.0, Z.SeedSkeleton)
    with engine.replaced(*W.stubs()):
        lv = R.explore(W.fresh(lambda g: Z.flip_dual_coin(s0, I, *ops(T, *a), f0, *ops(T, *b), f1, cfg['side'], g, cfg['b'])), key='dual-')
    if not lv or not mass_ok(R, W, 'dual'):
        return
    p, tail = sum(l.w for l in lv if l.val[0][0]), R.last.pruned
    R.check(math.exp(-integ) - tail - 1e-9 <= p <= math.exp(-integ) + 1e-9 and tail < 5e-3, 'dual-prob',
            'success probability in [%.8g, %.8g], exactly %.8g' % (p, p + tail, math.exp(-integ)), side=cfg['side'])
    revealed(R, lv, lambda r: r[1].s, 'dual-revealed')
    R.sample(dict(p=p, exact=math.exp(-integ), tail=tail))


def est(cfg, R):
    T, up, form = cfg['T'], cfg['up'], cfg['form']
    span = 1.0 if form == 'seed' else T
    W = World(cfg['path'], span, cfg['n'])
    x0, x1, c = (.3, .5, 1.3) if form == 'seed' else (0.0, 0.0, 1 / math.sqrt(T))
    cent, le, ue = -.7, -.3, -.3 + 1.2 / T
    vals = le + (ue - le) * np.array([.1, .7, .35, .9])
    phi = table(vals, T, x0, x1, c)
    calls = []

    def bounds(a, b):
        calls.append((a, b))
        return cent, le, ue
    s0 = base(up, span, Z.SeedSkeleton if form == 'seed' else K.Skeleton)
    integ = float(np.mean(vals[PATHS[cfg['path']]])) * T
    with engine.replaced(*W.stubs()):
        if form == 'seed':
            lv = R.explore(W.fresh(lambda g: Z.est_poisson_coin(s0, *ops(T, x0, x1, c), phi, bounds, g)), key='est-')
            tot, get = (lambda r: r[0] + r[1]), (lambda r: r[2].s)
        else:
            lv = R.explore(W.fresh(lambda g: K.est_poisson_coin(s0, phi, bounds, g)), key='est-')
            tot, get = (lambda r: r[0] - cent * T), (lambda r: r[1].t)
    if not lv or not mass_ok(R, W, 'est'):
        return
    e = sum(l.w * math.exp(float(tot(l.val[0]))) for l in lv)
    ref = math.exp(-integ)
    tail = R.last.pruned * math.exp(-T * le)
    R.check(ref - tail - 1e-8 <= e <= ref + 1e-8 and tail < 5e-3, 'est-mean', 'expectation in [%.8g, %.8g], exactly %.8g' % (e, e + tail, ref))
    revealed(R, lv, get, 'est-revealed')
    lim = edges(s0, form, T, x0, x1, c)
    R.check(calls and all(p <= lim[0] + 1e-9 and q >= lim[1] - 1e-9 for p, q in calls), 'est-limits', 'potential bounds are asked for an interval holding the whole path', asked=calls[:2], limits=lim)
    R.sample(dict(mean=e, exact=ref, tail=tail))


POTS = [lambda x: np.sin(3 * x), lambda x: x ** 2, lambda x: -x, lambda x: np.exp(-x) - x, lambda x: np.cos(x) * x]


def bounds(R):
    """bounds reported along a path hold between its limits, on every sub-interval"""
    for T in (1.0, .3, 4.0):
        for x0, x1 in ((0, 0), (.4, -.7), (-1.0, 2.0)):
            for up in (False, True):
                for lo, hi in ((-.5, .8), (-.01, 2.0)):
                    s0 = Z.SeedSkeleton(np.array([0, .4, 1]), np.array([0, hi if up else lo, 0]), hi if up else lo, lo if up else hi, 0.0, None)
                    for phi in POTS:
                        def eb(a, b):
                            x = phi(np.linspace(a, b, 2001))
                            return -99.0, float(np.min(x)), float(np.max(x))
                        o = ops(T, x0, x1, 1.0)
                        for spec in (1, 2, 5, np.array([0, .2, .25, 1.0]) * T):
                            ok, r = R.call(Z.bound_disc_path, s0, *o, eb, spec, key='bounds-')
                            if not ok:
                                continue
                            t, le, ue = r
                            grid = np.linspace(0, T, spec + 1) if isinstance(spec, int) else spec
                            if not R.near(t, grid, 1e-9, 'bounds-times', 'break points') or not R.check(len(le) == len(ue) == len(t) - 1, 'bounds-count'):
                                continue
                            for k in range(len(le)):
                                for u in np.linspace(t[k], t[k + 1], 7):
                                    m = x0 + u / T * (x1 - x0)
                                    f = phi(np.linspace(m + lo * math.sqrt(T), m + hi * math.sqrt(T), 41))
                                    R.check(np.all(f >= le[k] - 1e-4) and np.all(f <= ue[k] + 1e-4), 'bounds-hold', 'potential within the bounds', t=u, le=le[k], ue=ue[k])
                        ok, w = R.call(Z.integrate_disc_bound, s0, *o, eb, key='bounds-')
                        if ok:
                            le = eb(min(x0, x1) + lo * math.sqrt(T), max(x0, x1) + hi * math.sqrt(T))[1]
                            mids = [phi(x0 + u * (x1 - x0) + math.sqrt(T) * np.linspace(lo, hi, 41)).min() for u in np.linspace(0, 1, 201)]
                            R.check(-w <= T * np.mean(mids) + 1e-3, 'bounds-integral', 'integrated lower bound below the integral of the potential', got=w)
                            R.check(-w >= T * le - 1e-3, 'bounds-loose', 'no looser than the bound over the whole range', got=w)


def infinite(R):
    for T in (1.0, .5):
        s0 = base(False, 1.0, Z.SeedSkeleton)
        eb = lambda a, b: (0.0, .3, np.inf)
        for l in R.explore(lambda g: Z.flip_poisson_coin(s0, *ops(T, 0, 0, 1), lambda x: 0 * x, eb, g), key='inf-'):
            R.check(not l.val[0] and abs(l.val[1] + .3 * T) < 1e-9, 'inf-flip', 'a path with unbounded potential is rejected')
        for l in R.explore(lambda g: Z.est_poisson_coin(s0, *ops(T, 0, 0, 1), lambda x: 0 * x, eb, g), key='inf-'):
            R.check(l.val[0] == -np.inf, 'inf-est', 'a path with unbounded potential has likelihood zero')


def real(cfg, R):
    """the real driving process (up to two points), known path: coarse agreement by quadrature"""
    form, T = cfg['form'], .8
    span = T if form == 'skel' else 1.0
    W = World('mixed', span, 9)
    I, n = .3 / T, 20
    vals = I * np.array([0, .75, .25, 1.0])
    x0, x1, c = (0.0, 0.0, 1 / math.sqrt(T)) if form == 'skel' else (.3, .5, 1.3)
    phi = table(vals, T, x0, x1, c)
    eb = lambda a, b: (0.0, 0.0, I)
    s0 = base(False, span, K.Skeleton if form == 'skel' else Z.SeedSkeleton)
    for b in (1, 2):
        W = World('mixed', span, 9)

        def fn(g):
            q = g.poisson

            def poisson(*a, **k):
                r = q(*a, **k)
                if np.asarray(r).item() > 1:
                    raise engine.Prune
                return r
            g.poisson = poisson
            if form == 'seed':
                return Z.flip_poisson_coin(s0, *ops(T, x0, x1, c), phi, eb, g, b)[0]
            if form == 'skel':
                return K.flip_poisson_coin(s0, phi, eb, g, b)[0]
            return Z.flip_dual_coin(s0, I, *ops(T, x0, x1, c), lambda x: 0 * np.asarray(x), *ops(T, x0, x1, c), phi, True, g, b)[0]
        with engine.replaced((_interp, W.interp)):
            lv = R.explore(W.fresh(fn), key='real-', K={'uniform': n, 'beta': n, 'sorted': n})
        if not lv or not W.interps:
            return R.note('refinement not called through its module')
        p = sum(l.w for l in lv if l.val[0])
        m = float(np.mean(vals)) * T
        ref = math.exp(-.3) * (1 + .3 - m)
        R.check(abs(p - ref) < .02, 'real-prob', 'success with at most one point: %.4g, exactly %.4g' % (p, ref))


def run(cfg, R):
    k = cfg['kind']
    if k in ('bounds', 'infinite'):
        return globals()[k](R)
    globals()[k](cfg, R)
