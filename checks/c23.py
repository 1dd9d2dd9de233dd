"""C23: adaptive rejection sampling is exact for log-concave densities."""
import itertools as it
import math

import numpy as np
from scipy import integrate

from ctbayes.misc import ars
from ctbayes.ito.models import cir as mcir, ou as mou
from mc import engine, harness

RULE = 'the real sampler over all envelope sectors, quantile nodes and exact acceptance thresholds for several rejection rounds: after every rejection history the law of the draw and the acceptance probability against the target and the tangent hull of the points evaluated so far; hull functions at every subset of a point menu, envelope distribution with exact probabilities at every threshold of a grid'
BOUNDS = {'quick': '16 targets with bounded, half-bounded and unbounded support; 2 rounds with 8 nodes per sector, 3 rounds with 3 nodes; acceptance at 5 nodes per sector for up to 40 starting sets of up to 3 of 9 points; hulls from up to 4 of 9 points, 13 thresholds each; starting points for 750 model end-point densities',
          'thorough': '2 rounds with 16 nodes, 3 rounds with 5 nodes, 4 rounds with 2 nodes; acceptance and hulls from up to 6 points; 3000 end-point densities'}
ASSUME = ['targets are smooth or piecewise linear log-concave functions of moderate scale (exponents within the floating point range)']

INF = math.inf


def T_(f, df, lb=-INF, ub=INF, init=None, pts=None, tol=1.0):
    return dict(f=f, df=df, lb=lb, ub=ub, init=init, pts=pts, tol=tol)


TARGETS = {
    'normal': T_(lambda x: -np.square(x) / 2, lambda x: -x, pts=[-2.5, -1.6, -.9, -.35, .2, .6, 1.1, 1.8, 2.7]),
    'shifted': T_(lambda x: -2 * np.square(x - 1.3), lambda x: -4 * (x - 1.3), init=[.8, 1.5, 2.6], pts=[.1, .5, .8, 1.1, 1.25, 1.4, 1.7, 2.1, 2.5]),
    'gamma': T_(lambda x: 1.5 * np.log(x) - x, lambda x: 1.5 / x - 1, 0.0, INF, init=[.6, 2.9], pts=[.1, .4, .8, 1.2, 1.45, 1.6, 2.2, 3.0, 5.0]),
    'beta': T_(lambda x: np.log(x) + 2 * np.log(1 - x), lambda x: 1 / x - 2 / (1 - x), 0.0, 1.0, pts=[.05, .12, .2, .3, .36, .5, .65, .8, .93]),
    'logistic': T_(lambda x: -x - 2 * np.log1p(np.exp(-x)), lambda x: -1 + 2 / (1 + np.exp(x)), pts=[-4.0, -2.0, -1.0, -.3, .2, .7, 1.5, 2.5, 4.5]),
    'gumbel': T_(lambda x: -x - np.exp(-x), lambda x: -1 + np.exp(-x), pts=[-1.5, -1.0, -.5, -.2, .3, .8, 1.5, 2.5, 4.0]),
    'tail': T_(lambda x: -np.square(x) / 2, lambda x: -x, .5, INF, pts=[.5, .6, .8, 1.0, 1.3, 1.6, 2.0, 2.5, 3.0]),
    'left': T_(lambda x: -np.square(x) / 2, lambda x: -x, -INF, -.3, pts=[-3.0, -2.5, -2.0, -1.6, -1.3, -1.0, -.8, -.5, -.4]),
    'half': T_(lambda x: -np.square(x) / 2, lambda x: -x, 0.0, INF, pts=[0.0, .3, .6, .9, 1.2, 1.5, 2.0, 2.5, 3.0]),
    'mode': T_(lambda x: -np.square(x) / 2, lambda x: -x, init=[-1.0, 0.0, 1.5], pts=[-2.0, -1.5, -1.0, -.5, 0.0, .5, 1.0, 1.5, 2.0]),
    'exponential': T_(lambda x: -1.4 * x, lambda x: -1.4 + 0 * x, 0.0, INF),
    'uniform': T_(lambda x: 0.0 * x, lambda x: 0.0 * x, -1.0, 2.0),
    'tilted': T_(lambda x: 1.1 * x, lambda x: 1.1 + 0 * x, -1.0, 2.0),
    'laplace': T_(lambda x: -np.abs(x), lambda x: -np.sign(x)),
    'kinked': T_(lambda x: -np.maximum(np.abs(x), 2.0 * np.abs(x) - .7), lambda x: -np.sign(x) * np.where(np.abs(x) > .7, 2.0, 1.0), init=[-1.1, 1.3]),
    'quartic': T_(lambda x: -np.square(np.square(x - .4)), lambda x: -4 * (x - .4) ** 3, -2.0, 2.0, pts=[-1.2, -.8, -.5, -.2, .1, .7, .9, 1.2, 1.6]),
}
TARGETS['steep'] = T_(lambda x: 20 * (np.log(x) - x), lambda x: 20 * (1 / x - 1), 0.0, INF, init=[1.4, 60.0], pts=[.4, .6, .8, .9, 1.05, 1.2, 1.4, 1.8, 60.0])
OFFSET = ('normal', 'gamma')
DEEP = ('normal', 'half', 'kinked', 'beta')


def configs(tier, seed):
    big = tier != 'quick'
    for n in TARGETS:
        init = 2 if TARGETS[n]['init'] is None else len(TARGETS[n]['init'])
        yield dict(kind='law', m=n, rounds=2, k=16 if big else 8, cap=100)
        yield dict(kind='law', m=n, rounds=2, k=8 if big else 4, cap=init)
        if big or n in DEEP:
            yield dict(kind='law', m=n, rounds=3, k=5 if big else 3, cap=100)
            yield dict(kind='law', m=n, rounds=3, k=5 if big else 3, cap=init + 1)
        if big and n in DEEP:
            yield dict(kind='law', m=n, rounds=4, k=2, cap=100)
        yield dict(kind='accept', m=n, size=6 if big else 3)
        yield dict(kind='count', m=n)
        if TARGETS[n]['pts'] is not None:
            for r in range(4):
                yield dict(kind='hull', m=n, part=r, size=6 if big else 4)
    for n in OFFSET:
        yield dict(kind='law', m=n, rounds=2, k=8, cap=100, add=900.0)
        yield dict(kind='law', m=n, rounds=2, k=8, cap=100, add=-900.0)
    for i in range(12 if big else 4):
        yield dict(kind='brace', i=i, big=big)


def run(cfg, R):
    globals()[cfg['kind']](cfg, R)


# ---- tangent hull, independently

class Hull(object):
    """minimum of the tangents at the points"""

    def __init__(self, t, pts):
        self.t = t
        ps = sorted(set(float(p) for p in pts))
        self.tan = [(float(t['f'](p)), float(t['df'](p)), p) for p in ps]
        br = [t['lb']]
        keep = [self.tan[0]]
        for a in self.tan[1:]:
            b = keep[-1]
            if abs(a[1] - b[1]) < 1e-13:      # the same line
                continue
            br.append(((b[0] - b[1] * b[2]) - (a[0] - a[1] * a[2])) / (a[1] - b[1]))
            keep.append(a)
        self.tan, self.br = keep, br + [t['ub']]
        self.ref = max(a[0] for a in keep)
        self.area = [self.part(i, self.br[i], self.br[i + 1]) for i in range(len(keep))]
        self.total = sum(self.area)

    def part(self, i, a, b):
        f, d, p = self.tan[i]
        if d == 0:
            return math.exp(f - self.ref) * (b - a)
        up = math.exp(f + d * (b - p) - self.ref) if b < INF else 0.0
        lo = math.exp(f + d * (a - p) - self.ref) if a > -INF else 0.0
        return (up - lo) / d

    def __call__(self, x):
        return min(f + d * (x - p) for f, d, p in self.tan)

    def cdf(self, x):
        s = 0.0
        for i in range(len(self.tan)):
            a, b = self.br[i], self.br[i + 1]
            if x >= b:
                s += self.area[i]
            elif x > a:
                s += self.part(i, a, x)
        return s / self.total


_mom = {}


def moments(name, fs):
    if name not in _mom:
        t = TARGETS[name]
        c = t['pts'] or t['init'] or [0.3]
        ref = max(float(t['f'](p)) for p in c)
        cuts = [t['lb']] + [q for q in (-4.0, -1.5, -.7, 0.0, .7, 1.5, 4.0) if t['lb'] < q < t['ub']] + [t['ub']]
        I = lambda h: sum(integrate.quad(lambda x: h(x) * math.exp(float(t['f'](x)) - ref), a, b, epsabs=1e-12, limit=200)[0] for a, b in zip(cuts, cuts[1:]))
        z = I(lambda x: 1.0)
        _mom[name] = (math.log(z) + ref, [I(h) / z for h in fs])
    return _mom[name]


FS = [math.tanh, lambda x: math.exp(-(x - .4) ** 2), lambda x: 1 / (1 + (x - .9) ** 2)]


def spied(t, seen, add=0.0):
    """target and derivative, recording the points at which they are evaluated"""
    def f(x):
        v = t['f'](np.asarray(engine.settle(x), float)) + add
        if np.ndim(v):
            seen['f'] += np.asarray(engine.settle(x), float).ravel().tolist()
        else:
            seen['f'].append(float(engine.settle(x)))
        return v

    def df(x):
        x_ = np.asarray(engine.settle(x), float)
        if np.ndim(x_) and not seen['init']:
            seen['init'] = x_.ravel().tolist()
            seen['f'] = []
        return t['df'](x_)
    return f, df


def start(t, seen, g, add, **kw):
    f, df = spied(t, seen, add)
    a = dict(kw)
    if t['init'] is not None:
        a['init'] = np.array(t['init'])
    return ars.sample(f, df, t['lb'], t['ub'], ome=g, **a)


def law(cfg, R):
    """law of the first draw after every history of rejections"""
    t, add = dict(TARGETS[cfg['m']]), cfg.get('add', 0.0)
    if t['init'] is None:   # starting points do not depend on draws
        with np.errstate(all='ignore'):
            ok, b = R.call(ars.brace, t['f'], t['lb'], t['ub'], key='law.')
        if not ok:
            return
        t['init'] = np.asarray(b, float).tolist()

    def fn(g):
        seen = {'init': [], 'f': []}
        x = next(start(t, seen, g, add, max_points=cfg['cap'], max_draws=1))
        x = float(engine.settle(x))
        n = g.tape.ndraws // 2 - 1
        return x, n, tuple(seen['f'][:n]), tuple(seen['init'])
    with np.errstate(all='ignore'):
        lv = R.explore(fn, key='law.', K={'uniform': cfg['k'], 'default': cfg['k']}, max_draws=2 * cfg['rounds'], max_depth=60, wmin=1e-12)
    if not lv:
        R.check(False, 'law.empty', 'no draw within %d rounds' % cfg['rounds'], m=cfg['m'])
        return
    logz, want = moments(cfg['m'], FS)
    groups = {}
    for l in lv:
        if not R.check(t['lb'] <= l.val[0] <= t['ub'], 'law.support', 'draws lie in the support', m=cfg['m'], x=l.val[0]):
            return
        if len(l.val[2]) != l.val[1]:
            R.note('rejection history not visible')
            return
        groups.setdefault((l.val[1], l.val[2], l.val[3]), []).append(l)
    # probability that a history happens: product over its nodes; derived from the acceptance probabilities of the hull
    for (n, hist, init), ls in sorted(groups.items(), key=lambda q: q[0][0]):
        w = sum(l.w for l in ls)
        pts = list(init) + list(hist)[:max(0, cfg['cap'] - len(init))]
        H = Hull(t, pts)
        acc = math.exp(logz - H.ref - math.log(H.total))
        if acc < .1:   # too narrow within the envelope for the nodes; kind 'accept' is exact
            continue
        if n == 0:
            R.near(w, acc, tol(cfg, t), 'law.accept', 'probability that the first proposal is accepted', m=cfg['m'], init=init)
        # law of the accepted draw
        got = [sum(l.w * h(l.val[0]) for l in ls) / w for h in FS]
        if not R.near(got, want, tol(cfg, t), 'law.draw', 'law of the draw after %d rejections' % n, m=cfg['m'], history=hist, init=init):
            return
        R.state((cfg['m'], cfg['cap'], n, tuple(np.round(hist, 9))))
    # acceptance after one rejection: ratio of accepted weight between rounds of the same history
    byhist = {}
    for (n, hist, init), ls in groups.items():
        byhist[(n, hist)] = (sum(l.w for l in ls), init)
    # mass check by round: P(accepted in round n) = sum over histories P(history) a(history); compare the first two rounds exactly
    one = [(h, w, init) for (n, h), (w, init) in byhist.items() if n == 1]
    if one and cfg['rounds'] >= 2:
        init = one[0][2]
        H0 = Hull(t, list(init))
        exp_ = 0.0
        # expected mass of round 1 by integration over the rejected point
        cuts = sorted(set([q for q in H0.br] + [q for q in list(init) + [-3.0, -1.0, 0.0, 1.0, 3.0] if t['lb'] < q < t['ub']]))

        def integrand(x):
            h = H0(x)
            rej = math.exp(h - H0.ref) / H0.total * max(0.0, 1 - math.exp(min(0.0, float(t['f'](x)) - h)))
            if rej < 1e-12:
                return 0.0
            H1 = Hull(t, list(init) + [x]) if cfg['cap'] > len(init) else H0
            return rej * math.exp(logz - H1.ref - math.log(H1.total))
        exp_ = sum(integrate.quad(integrand, a, b, epsabs=1e-6, limit=60)[0] for a, b in zip(cuts, cuts[1:]))
        R.near(sum(w for _, w, _ in one), exp_, 2 * tol(cfg, t), 'law.refined', 'probability of accepting the second proposal with the hull refined by the first', m=cfg['m'], cap=cfg['cap'])


def accept(cfg, R):
    """a proposal is accepted with probability exp(target - hull), exactly"""
    t = TARGETS[cfg['m']]
    sets = [t['init']] if t['init'] is not None else []
    for n in range(2, cfg['size'] + 1):
        for s in it.combinations(t['pts'] or (), n):
            d = [float(t['df'](p)) for p in s]
            if (t['lb'] > -INF or d[0] > 1e-9) and (t['ub'] < INF or d[-1] < -1e-9):
                sets.append(s)
    if t['pts'] is None:
        with np.errstate(all='ignore'):
            ok, b = R.call(ars.brace, t['f'], t['lb'], t['ub'], key='accept.')
        if not ok:
            return
        sets.append(tuple(np.asarray(b, float).tolist()))
    step = max(1, len(sets) // 40)
    for s in sets[::step]:
        H = Hull(t, s)
        tt = dict(t, init=list(s))

        def fn(g):
            seen = {'init': [], 'f': []}
            try:
                return float(engine.settle(next(start(tt, seen, g, 0.0, max_draws=1)))), True
            except engine.Prune:
                return (seen['f'][0] if seen['f'] else None), False
        with np.errstate(all='ignore'):
            lv = R.explore(fn, key='accept.', K={'uniform': 5, 'default': 5}, max_draws=2, max_depth=20)
        if not lv or any(l.val[0] is None for l in lv):
            R.note('rejected proposals not visible')
            return
        by = {}
        for l in lv:
            a = by.setdefault(l.val[0], [0.0, 0.0])
            a[int(l.val[1])] += l.w
        for x, (rej, acc) in sorted(by.items()):
            want = math.exp(min(0.0, float(t['f'](x)) - H(x)))
            if not R.near(acc / (acc + rej), want, 1e-8, 'accept.prob', 'acceptance probability of a proposal', m=cfg['m'], points=s, x=x):
                return
            R.state((cfg['m'], s, x))


def tol(cfg, t):
    k = cfg['k']
    base = {2: .2, 3: .12, 4: .06, 5: .045, 7: .02, 8: .02, 10: .012, 16: .006}[k]
    return base


def count(cfg, R):
    """exactly the requested number of draws, with real generators; nothing but the generator decides them"""
    t = TARGETS[cfg['m']]
    for n in (0, 1, 2, 5, 30):
        for cap in (2, 4, 100):
            seen = {'init': [], 'f': []}

            def go(sd):
                with np.errstate(all='ignore'):
                    return np.array([float(x) for x in start(t, {'init': [], 'f': []}, np.random.default_rng(sd), 0.0, max_points=cap, max_draws=n)])
            ok, x = R.call(go, 7 * n + cap, key='count.', timeout=5.0)
            if not ok:
                return
            R.check(len(x) == n, 'count.number', 'as many draws as requested', m=cfg['m'], got=len(x), want=n)
            R.check(np.all((x >= t['lb']) & (x <= t['ub'])), 'count.support', 'draws lie in the support', m=cfg['m'])
            ok, y = R.call(go, 7 * n + cap, key='count.', timeout=5.0)
            if ok:
                R.check(np.array_equal(x, y), 'count.repeat', 'equal generators give equal draws', m=cfg['m'])
            R.state((cfg['m'], n, cap, x.tobytes()))
    # without a limit the iterator goes on
    ok, x = R.call(lambda: [float(next(s)) for s in [start(t, {'init': [], 'f': []}, np.random.default_rng(3), 0.0)] for _ in range(40)], key='count.', timeout=5.0)
    if ok:
        R.check(len(x) == 40, 'count.unlimited', 'draws without limit')


def hull(cfg, R):
    """hull functions for every admissible subset of the point menu"""
    t = TARGETS[cfg['m']]
    f, df = t['f'], t['df']
    sets = []
    for n in range(2, cfg['size'] + 1):
        for s in it.combinations(t['pts'], n):
            d = [float(df(p)) for p in s]
            if (t['lb'] > -INF or d[0] > 1e-9) and (t['ub'] < INF or d[-1] < -1e-9):
                sets.append(s)
    lo = t['lb'] if t['lb'] > -INF else min(t['pts']) - 2.0
    hi = t['ub'] if t['ub'] < INF else max(t['pts']) + 2.0
    grid = lo + (hi - lo) * (np.arange(40) + .5) / 40
    grid = np.array(sorted(set(grid.tolist())))
    for j, s in enumerate(sets[cfg['part']::4]):
        x = np.array(s)
        fx, dfx = f(x), df(x)
        ok, inner = R.call(ars.gen_upper, x, fx, dfx, key='hull.')
        if not ok:
            return
        y = np.array([t['lb'], *inner, t['ub']])
        H = Hull(t, s)
        if not R.check(len(y) == len(x) + 1 and np.all(np.diff(y) >= -1e-12) and all(y[i] - 1e-9 <= x[i] <= y[i + 1] + 1e-9 for i in range(len(x))), 'hull.breaks', 'each tangent is used around its own point', x=s, y=y):
            return
        for q in grid:
            if q in s:
                continue
            ok1, up = R.call(ars.eval_upper, x, fx, dfx, y, q, key='hull.')
            ok2, low = R.call(ars.eval_lower, x, fx, q, key='hull.')
            if not (ok1 and ok2):
                return
            v = float(f(q))
            if not (R.near(up, H(q), 1e-9, 'hull.upper', 'upper hull is the smallest tangent', m=cfg['m'], points=s, x=q) and
                    R.check(low <= v + 1e-9 and up >= v - 1e-9, 'hull.encloses', 'hulls enclose the log density', low=low, f=v, up=up, points=s, x=q)):
                return
            want = float(np.interp(q, x, fx)) if x[0] < q < x[-1] else -INF
            if not R.check(low == want or abs(low - want) < 1e-9, 'hull.lower', 'lower hull joins the points', m=cfg['m'], got=low, want=want, points=s, x=q):
                return
        R.state((cfg['m'], s))
        # envelope distribution, exact at a grid of thresholds
        if j % 4 == 0:
            for q in grid[1::3]:
                with np.errstate(all='ignore'):
                    lv = R.explore(lambda g: bool(ars.sample_envelope(x, fx, dfx, y, g) <= q), key='hull.', observe=False)
                if not lv or R.fails:
                    return
                p = sum(l.w for l in lv if l.val)
                if not R.near(p, H.cdf(q), 1e-8 if not any(l.inexact for l in lv) else .1, 'hull.envelope', 'distribution of the envelope draw', m=cfg['m'], points=s, at=q):
                    return


def brace(cfg, R):
    """starting points of model end-point densities and scaled targets bracket the mode inside the support"""
    cases = []
    bs, ms, ss = (.1, .4, 1.0, 2.5, 5.0), (.2, .5, 1.0, 2.0, 5.0), (.1, .3, .7, 1.1, 2.0)
    Ts, vs = (.01, .1, .5, 1.0, 5.0, 20.0), (.1, .5, 1.0, 2.0, 5.0)
    for b, m, s, T, v in it.product(bs, ms, ss, Ts, vs):
        if 2 * b * m >= s * s:
            thi = np.array([b, m, s])
            x0 = float(mcir.reduce(thi, v))
            cases.append((('cir', b, m, s, T, v), lambda x, thi=thi, x0=x0, T=T: mcir.sx_eval_drift(thi, x) - np.square(x - x0) / (2 * T), lambda x, thi=thi, x0=x0, T=T: mcir.eval_drift(thi, x) - (x - x0) / T, 0.0, INF))
    for b, T, x0 in it.product((.01, .1, 1.0, 5.0, 20.0), (.001, .01, .1, 1.0, 10.0, 100.0), (-50.0, -3.0, -.5, 0.0, .2, 1.0, 200.0)):
        thi = np.array([b, 1.0])
        cases.append((('ou', b, T, x0), lambda x, thi=thi, x0=x0, T=T: mou.sx_eval_drift(thi, x) - np.square(x - x0) / (2 * T), lambda x, thi=thi, x0=x0, T=T: mou.eval_drift(thi, x) - (x - x0) / T, -INF, INF))
    if cfg['big']:
        cases = cases[cfg['i']::12]
    else:
        cases = cases[cfg['i']::4][::4]
    for name, f, df, lb, ub in cases:
        with np.errstate(all='ignore'):
            ok, b = R.call(ars.brace, f, lb, ub, key='brace.')
        if not ok:
            return
        b = np.asarray(b, float)
        d = np.asarray(df(b), float)
        if not R.check(b.shape == (2,) and lb <= b[0] < b[1] <= ub and np.all(np.isfinite(d)) and (lb > -INF or d[0] > 0) and (ub < INF or d[1] < 0), 'brace.points', 'starting points bracket the mode inside the support', case=name, got=b, slope=d):
            return
        R.state((name, float(b[0]), float(b[1])))
