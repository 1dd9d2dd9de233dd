"""C26: bridge skeleton proposals honour bounds, layers and symmetry."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.ea3lib import seed as Z, skeleton as K
from ctbayes.ito.models import cir as icir, ou as iou
from ctbayes.misc.exceptions import BudgetConstraintError
from ctbayes.sdelib import hitting as H, layers as L
from ctbayes.switching.models import ou as sou
from mc import engine, harness
from checks import oracle as O
from checks.common import inf

RULE = 'all branches of the proposal (layer, side, escape decisions, acceptance) with exact probabilities and the extremum and its time on quantile nodes: crossing flags given the extremum exactly, and the joint law of side, flags, extremum and its time given the layer against integrals of closed-form densities; layers, rejection at the bounds and normalised proposals by exact probabilities'
BOUNDS = {'quick': '16 bridges and bounds (none, one-sided, two-sided, asymmetric): laws of layers 1 to 7 and rejection at the bounds; joint laws for 9 of them and of the normalised proposals, layers 1 and 2, 6 nodes for each continuous draw',
          'thorough': '34 bridges and bounds; joint laws for all of them, layers 1 to 3, 7 nodes'}
ASSUME = ['escape decisions, layers and the extremum sampler alone are decided by C06 to C08']

INF = math.inf
ESC = H.sample_bessel3br_esc
ESIG = inspect.signature(ESC)
LAYER = L.sample_layer
MIN = H.sample_brownbr_min
MSIG = inspect.signature(MIN)
RAW = K.sample_raw_skeleton
SIG = inspect.signature(RAW)
CASES = [(1.0, 0.0, 0.0, None, None), (1.0, -.3, .9, None, None), (.25, 1.2, 1.0, None, None), (4.0, 2.0, 0.0, None, None),
         (1.0, 0.0, 0.0, 1.0, None), (1.0, -.3, .9, .5, None), (1.0, .9, -.3, None, .4), (.5, .4, .6, .4, None), (2.0, 1.0, 1.1, .7, None),
         (1.0, 0.0, 0.0, None, .6), (1.0, 0.0, 0.0, .8, .9), (1.0, -.3, .9, 1.6, .5), (1.0, .9, -.3, .5, 2.0), (.3, 0.0, .1, .4, 3.0),
         (9.0, -5.0, -5.0, None, 1.0), (.01, 2.0, 2.05, 2.0, None)]
QUICK = [CASES[i] for i in (1, 6, 11, 13, 15)]
MORE = [(1.0, 1.0, -1.0, None, None), (100.0, 3.0, -8.0, None, None), (1e-4, 0.0, .01, None, None), (1.0, 0.0, 0.0, .2, None), (1.0, 0.0, 0.0, None, .2), (2.0, .1, .1001, .3, None),
        (.6, 50.0, 50.5, 1.0, None), (1.5, -1.0, 2.0, .4, .4), (1.5, 2.0, -1.0, .4, 1.0), (3.0, 0.0, 1e-9, None, .5), (1.0, .5, .5, .5, .5), (1.0, .5, .5, 3.0, .3), (1.0, .5, .5, .3, 3.0),
        (.25, 1.0, 1.2, .25, 4.0), (4.0, 0.0, 2.0, 4.0, .25), (1.0, .1, 2.0, .1, None), (1.0, 2.0, .1, .1, None), (1.0, -2.0, -.1, None, .1)]


def configs(tier, seed):
    big = tier != 'quick'
    for T, x, y, a, b in CASES + (MORE if big else []):
        s = math.sqrt(T)
        d = dict(T=T, x=x, y=y, lb=None if a is None else min(x, y) - a * s, ub=None if b is None else max(x, y) + b * s)
        if big or (T, x, y, a, b) in QUICK:
            yield dict(kind='joint', k=7 if big else 6, deep=3 if big else 2, **d)
        if big or a != b or x == y:
            yield dict(kind='layer', wmin=2e-6 if big else 1e-5, **d)
        yield dict(kind='bounds', **d)
    for m in ('ito', 'switching', 'plain'):
        for i in range(3):
            if big or (m, i) in (('ito', 0), ('switching', 2), ('plain', 0), ('plain', 1)):
                yield dict(kind='seed', m=m, i=i, k=7 if big else 6, deep=3 if big else 2)
    yield dict(kind='cir')
    for lb, ub in ((None, 1.0), (-.8, None), (-.8, 1.0)):
        yield dict(kind='tilt', lb=lb, ub=ub)


def run(cfg, R):
    globals()[cfg['kind']](cfg, R)


def edges(T, x, y, lb, ub, n):
    return [tuple(map(float, L.compute_edges(i, T, x, y, lb, ub))) for i in range(n + 1)]


# ---- the exact joint law given the layer

def mass(T, x, y, inn, out, nm, nt):
    """per (first flag, second flag): integrals of (1, level, time, level * time) for proposals with a minimum between out[0] and inn[0]"""
    hi_in, hi_out = inn[1], out[1]
    F = lambda m: math.exp(-2 * (x - m) * (y - m) / T)
    f0, f1 = F(out[0]), F(inn[0])
    us, uw = np.polynomial.legendre.leggauss(nm)
    res = {}
    for u, w in zip(us, uw):
        p = f0 + (f1 - f0) * (u + 1) / 2
        m = (x + y) / 2 - math.sqrt((x - y) ** 2 - 2 * T * math.log(p)) / 2
        da, db = max(x - m, 1e-300), max(y - m, 1e-300)
        # density of the time in log odds
        dens = lambda t: da * db / (t * (T - t)) ** 1.5 * math.exp(-da * da / (2 * t) - db * db / (2 * (T - t))) * t * (T - t) / T
        ys = np.linspace(-14, 14, nt)
        ts = T / (1 + np.exp(-ys))
        ds = np.array([dens(t) for t in ts])
        far = [(math.log(t / (T - t)), d) for t, d in zip(ts, ds) if d > 0]
        if not far or max(d for _, d in far) <= 0:
            continue
        pk = max(far, key=lambda q: q[1])[0]
        lo = min(q for q, d in far if d > 1e-14 * max(d for _, d in far))
        hi = max(q for q, d in far if d > 1e-14 * max(d for _, d in far))
        g = (hi - lo) / (nt - 1)
        ys = np.linspace(lo - g, hi + g, nt)
        ts = T / (1 + np.exp(-ys))
        ds = np.array([dens(t) for t in ts])
        ds = ds / ds.sum()
        del pk
        for t, d in zip(ts, ds):
            if d < 1e-12:
                continue
            for flags, q in flagprob(T, x, y, m, t, hi_in, hi_out).items():
                r = res.setdefault(flags, np.zeros(4))
                r += (f1 - f0) * w / 2 * d * q * np.array([1.0, m, t, m * t])
    return res


def flagprob(T, x, y, m, t, hi_in, hi_out):
    """weights of the crossing flags given minimum and its time (a proposal that also reaches the other sector counts half)"""
    if min(x, y) in (x, y) and hi_in == max(x, y):   # first layer: no flags
        return {None: O.bes_stay(t, 0, x - m, hi_out - m) * O.bes_stay(T - t, 0, y - m, hi_out - m)}
    a = [O.bes_stay(d, 0, v - m, hi_in - m) for d, v in ((t, x), (T - t, y))]
    b = [O.bes_stay(d, 0, v - m, hi_out - m) for d, v in ((t, x), (T - t, y))]
    return {(f, g): (.5 if f or g else 1.0) * ((b[0] - a[0]) if f else a[0]) * ((b[1] - a[1]) if g else a[1]) for f in (False, True) for g in (False, True)}


def flip(e):
    return (-e[1], -e[0])


def inv(R, s, T, x, y, lb, ub, E, key='joint.'):
    """invariants of one proposal; returns (layer, side, extremum, its time, flags) or None"""
    if isinstance(s, Z.SeedSkeleton):
        s = K.Skeleton(*s)
    t, v = np.asarray(s.t, float), np.asarray(s.x, float)
    eps = 1e-9 * (1 + abs(x) + abs(y) + math.sqrt(T))
    ok = R.check(len(t) == len(v) == 3 and t[0] == 0 and abs(t[-1] - T) < 1e-12 * T and abs(v[0] - x) < eps and abs(v[-1] - y) < eps, key + 'ends', 'proposal starts and ends at the requested points', t=t, x=v)
    ok = ok and R.check(0 < t[1] < T, key + 'span', 'the extremum is strictly inside the span', t=t)
    lo = s.tight_x < s.loose_x
    ok = ok and R.check(abs(v[1] - s.tight_x) < eps, key + 'extremum', 'the revealed value is the tight limit', x=v, tight=s.tight_x)
    a, b = min(s.tight_x, s.loose_x), max(s.tight_x, s.loose_x)
    ok = ok and R.check(a <= min(v) + eps and max(v) <= b + eps, key + 'encloses', 'limits enclose all revealed values', x=v, limits=(a, b))
    ok = ok and R.check(lb - eps <= a and b <= ub + eps, key + 'bounds', 'limits lie inside the global bounds', limits=(a, b), bounds=(lb, ub))
    ok = ok and R.check(a - eps <= s.hit_x <= b + eps, key + 'hit', 'crossing level lies within the limits', level=s.hit_x, limits=(a, b))
    if not ok:
        return None
    err = [abs((e[1] if lo else e[0]) - s.loose_x) + (0 if (e[0] - eps <= s.tight_x <= i[0] + eps if lo else i[1] - eps <= s.tight_x <= e[1] + eps) else 1e9) + abs((i[1] if lo else i[0]) - s.hit_x) for i, e in zip(E, E[1:])]
    k = int(np.argmin(err))
    if err[k] > 1:
        if not (E[-1][0] <= a and b <= E[-1][1]):
            return 'far'
    if not R.check(err[k] < 10 * eps, key + 'sector', 'extremum, loose limit and crossing level belong to one layer', tight=s.tight_x, loose=s.loose_x, level=s.hit_x, side='low' if lo else 'high', nearest=(E[k], E[k + 1])):
        return None
    fl = None if s.hit_i is None else tuple(bool(q) for q in s.hit_i)
    if not R.check(fl is None or len(fl) == 2, key + 'flags', 'one flag per interval', flags=fl):
        return None
    return k + 1, ('low' if lo else 'high'), float(s.tight_x), float(t[1]), fl


def joint(cfg, R):
    T, x, y, lb, ub = cfg['T'], cfg['x'], cfg['y'], inf(cfg['lb'], -1), inf(cfg['ub'])
    check_joint(R, lambda g: K.sample_raw_skeleton(T, x, y, (lb, ub), g), T, x, y, lb, ub, cfg['k'], 'joint.', cfg['deep'])


def check_joint(R, fn, T, x, y, lb, ub, k, key, deep):
    ok, E = R.call(edges, T, x, y, lb, ub, 40, key=key)
    if not ok:
        return
    both = not math.isinf(lb) and not math.isinf(ub)
    cut = min(E[deep][0], -E[deep][1]) - 1e-9
    tries, gen = [0], [None]

    def first(*a, **kw):
        """two-sided bounds make the sampler of layers retry until its first draw fits; the first attempt only"""
        d0 = gen[0].tape.ndraws
        v = LAYER(*a, **kw)
        if gen[0].tape.ndraws > d0 + 1:
            raise engine.Prune
        return v

    def once(*a, **kw):
        """one attempt per proposal (attempts are independent given the layer), the first layers only"""
        b = MSIG.bind(*a, **kw)
        b.apply_defaults()
        tries[0] += 1
        if tries[0] > 1 or (b.arguments['lb_min_x'] is not None and b.arguments['lb_min_x'] < cut):
            raise engine.Prune
        return MIN(*a, **kw)

    def attempt(g):
        tries[0], gen[0] = 0, g
        return fn(g)
    with np.errstate(all='ignore'), engine.replaced((MIN, once), (LAYER, first)):
        lv = R.explore(attempt, key=key, K={'uniform': k, 'wald': k, 'default': k}, max_draws=13 if both else 12, wmin=3e-7, max_leaves=400000)
    got, cond = {}, {}
    for l in lv:
        r = inv(R, l.val, T, x, y, lb, ub, E, key)
        if r is None:
            return
        if r == 'far' or r[0] > deep:
            continue
        n, side, m, t, fl = r
        a = got.setdefault((n, side, fl), np.zeros(4))
        a += l.w * np.array([1.0, m, t, m * t])
        c = cond.setdefault((n, side, m, t), {})
        c[fl] = c.get(fl, 0.0) + l.w
        R.state((T, x, y, lb, ub, n, side, m, t, fl))
    if not got:
        R.note('no proposal finished in one attempt')
        return
    # flags given the extremum: exact
    worst = 0
    for (n, side, m, t), c in cond.items():
        inn, out = E[n - 1], E[n]
        if side == 'low':
            p = flagprob(T, x, y, m, t, inn[1], out[1])
        else:
            i_, o_ = flip(inn), flip(out)
            p = {None if q is None else q[::-1]: w for q, w in flagprob(T, -y, -x, -m, T - t, i_[1], o_[1]).items()}
        tot, tp = sum(c.values()), sum(p.values())
        if tp < 1e-9:
            continue
        heavy = max(c.values())
        for q in set(c) | set(p):
            if q not in c and tot * p[q] / tp < 1e-5 or heavy < 1e-4:   # cut off
                continue
            if not R.check(abs(c.get(q, 0.0) / tot - p.get(q, 0.0) / tp) < 2e-2 * max(1e-3 / heavy, 1e-4) + 1e-6, key + 'crossing', 'probability of crossing flags %s given the extremum: %.8g, exactly %.8g' % (q, c.get(q, 0.0) / tot, p.get(q, 0.0) / tp), layer=n, side=side, extremum=m, time=t):
                return
            worst += 1
    # joint law given the layer
    s = math.sqrt(T)
    for n in range(1, deep + 1):
        mine = {q[1:]: v for q, v in got.items() if q[0] == n}
        tot = sum(v[0] for v in mine.values())
        if tot < 2e-3:
            continue
        inn, out = E[n - 1], E[n]
        low = mass(T, x, y, inn, out, 12, 60)
        high = mass(T, -y, -x, flip(inn), flip(out), 12, 60)
        want = {('low', f): v for f, v in low.items()}
        for f, v in high.items():
            want[('high', None if f is None else f[::-1])] = np.array([v[0], -v[1], T * v[0] - v[2], -(T * v[1] - v[3])])
        wt = sum(v[0] for v in want.values())
        # the oracle's own total is known in closed form
        S = lambda a, b: O.stay(T, x, y, a, b)
        PA, PB, PD = S(*out) - S(inn[0], out[1]), S(*out) - S(out[0], inn[1]), S(*out) - (S(*inn) if n > 1 else 0.0)
        if n == 1:
            ref = dict(low=PA, high=PB)
        else:
            both_ = PA + PB - PD
            ref = dict(low=PA - both_ / 2, high=PB - both_ / 2)
        rt = sum(ref.values())
        tol = .012 if k < 10 else .006
        for side in ref:
            w_or = sum(v[0] for q, v in want.items() if q[0] == side)
            if abs(w_or - ref[side]) > 2e-3 * rt:
                R.note('oracle integral inaccurate')
                return
            g = sum(v[0] for q, v in mine.items() if q[0] == side) / tot
            if not R.check(abs(g - ref[side] / rt) < tol, key + 'side', 'probability of the %s side in layer %d: %.6g, exactly %.6g' % (side, n, g, ref[side] / rt)):
                return
        for q in set(mine) | set(want):
            g, w = mine.get(q, np.zeros(4)) / tot, want.get(q, np.zeros(4)) / wt
            sc = np.array([1.0, s, T, s * T])
            # levels relative to the end point, so that large offsets do not hide differences
            rel = lambda v: np.array([v[0], v[1] - x * v[0], v[2], v[3] - x * v[2]]) / sc
            if not R.check(np.all(np.abs(rel(g) - rel(w)) < tol * (1.5 if k < 10 else 1)), key + 'law', 'joint law of side, flags, extremum and its time in layer %d' % n, which=q, got=rel(g), want=rel(w)):
                return


def layer(cfg, R):
    """law of the layer, with one node per continuous draw: rejected attempts do not change the layer"""
    T, x, y, lb, ub = cfg['T'], cfg['x'], cfg['y'], inf(cfg['lb'], -1), inf(cfg['ub'])
    ok, E = R.call(edges, T, x, y, lb, ub, 60, key='layer.')
    if not ok:
        return
    def esc(*a, **kw):
        """escape decisions of Bessel bridges with a fixed probability: the layer does not depend on them"""
        b = ESIG.bind(*a, **kw)
        b.apply_defaults()
        b = b.arguments
        return bool(b['ue_x'] <= max(b['init_x'], b['fin_x']) or b['ome'].uniform() < .12)
    with np.errstate(all='ignore'), engine.replaced((ESC, esc)):
        lv = R.explore(lambda g: K.sample_raw_skeleton(T, x, y, (lb, ub), g), key='layer.', K={'uniform': 1, 'wald': 1, 'default': 1}, wmin=cfg['wmin'], max_draws=60, max_leaves=400000)
    d = {}
    for l in lv:
        r = inv(R, l.val, T, x, y, lb, ub, E, 'layer.')
        if r is None:
            return
        if r != 'far':
            d[r[0]] = d.get(r[0], 0.0) + l.w
    whole = O.stay(T, x, y, lb, ub)
    cum = [0.0] + [O.stay(T, x, y, *e) / whole for e in E[1:]]
    slack = R.last.pruned + 1e-6
    if slack > .05:
        R.note('too much mass cut off')
    for n in range(1, 8):
        if not R.check(abs(d.get(n, 0.0) - (cum[n] - cum[n - 1])) <= slack, 'layer.law', 'probability of layer %d: %.9g, exactly %.9g (tolerance %.1g)' % (n, d.get(n, 0.0), cum[n] - cum[n - 1], slack)):
            return
        R.state((T, x, y, lb, ub, n))


def bounds(cfg, R):
    """proposals for a path with a free end point that leave the bounds are rejected"""
    T, x, lb, ub = cfg['T'], cfg['x'], inf(cfg['lb'], -1), inf(cfg['ub'])
    if math.isinf(lb) and math.isinf(ub):
        return
    s = math.sqrt(T)
    ends = [v for v in (cfg['y'], x, x - .3 * s, x + .7 * s) if lb + .05 * s < v < ub - .05 * s]
    ends = sorted(set(ends))
    if len(ends) < 2:
        return

    def fn(g):
        def menu():
            while True:
                yield ends[int(engine.settle(g.integers(len(ends))))]
        flat = lambda v: np.zeros(np.shape(v))
        try:
            with engine.replaced((RAW, raw)):
                p = next(K.sample_skeleton(T, x, (lb, ub), menu(), flat, lambda a, b: (0.0, 0.0, 1e-12), g, 1))
        except BudgetConstraintError:
            return None
        return float(p.x[-1])
    called = []

    def raw(*a, **kw):
        b = SIG.bind(*a, **kw).arguments
        called.append(1)
        t, p, q = b['fin_t'], b['init_x'], b['fin_x']
        return K.Skeleton(np.array([0.0, t / 2, t]), np.array([p, min(p, q) - .01 * s, q]), min(p, q) - .01 * s, max(p, q) + .01 * s, max(p, q), None)
    with np.errstate(all='ignore'):
        lv = R.explore(fn, key='bounds.', K={'uniform': 1, 'wald': 1, 'default': 1}, wmin=2e-6, max_draws=60, max_leaves=400000)
    d = {}
    for l in lv:
        d[l.val] = d.get(l.val, 0.0) + l.w
    if not called:
        R.note('proposals not visible')
        return
    slack = R.last.pruned + 1e-6
    for e in ends:
        w = O.stay(T, x, e, lb, ub) / len(ends)
        R.check(abs(d.get(e, 0.0) - w) <= slack, 'bounds.rejected', 'probability of a proposal that ends at %.6g and stays within the bounds: %.8g, exactly %.8g (tolerance %.1g)' % (e, d.get(e, 0.0), w, slack), ends=ends)
        R.state((T, x, lb, ub, e))


def seed(cfg, R):
    """normalised proposals are skeletons from zero to zero over unit time"""
    i, k = cfg['i'], cfg['k']
    T, v0, v1 = ((.7, .3, -.4), (2.5, 0.0, 0.0), (.1, 1.5, 1.9))[i]
    if cfg['m'] == 'ito':
        ops = iou.gen_normops(np.array([.8, .6]), np.array([0.0, T]), np.array([v0, v1]))
        bd = iou.bounds_x
    elif cfg['m'] == 'switching':
        ops = sou.gen_normops(np.array([[.8, .6, .9], [.3, .2, 1.4]]), np.array([0.0, T]), np.array([1, 1]), np.array([v0, v1]))
        bd = sou.bounds_x
    else:
        x0, d = v0, 0.0   # equal end points: a bounded interval is one in normalised coordinates, too
        norm = lambda t, x: (t / T, None if x is None else (x - x0 - d * t / T) / math.sqrt(T))
        den = lambda s, z: (s * T, None if z is None else z * math.sqrt(T) + x0 + d * s)
        ops = [(norm, den)]
        bd = ((x0 - .8 * math.sqrt(T), INF), (x0 - 1.2 * math.sqrt(T), x0 + .7 * math.sqrt(T)), (-INF, x0 + .6 * math.sqrt(T)))[i]
    lz, uz = [(b - v0) / math.sqrt(T) if not math.isinf(b) else b for b in bd]
    check_joint(R, lambda g: Z.sample_raw_seed(bd, *ops[0], g), 1.0, 0.0, 0.0, float(lz), float(uz), k, 'seed.', cfg['deep'])


def cir(cfg, R):
    """bounded model with different end points: the normalised proposal should cover all paths within the bounds"""
    thi = np.array([1.0, .5, .7])
    T, va, vb = 1.0, .1, .4
    ops = icir.gen_normops(thi, np.array([0.0, T]), np.array([va, vb]))[0]
    xa, xb = (float(q) for q in icir.reduce(thi, np.array([va, vb])))
    with np.errstate(all='ignore'):
        lv = R.explore(lambda g: Z.sample_raw_seed(icir.bounds_x, *ops, g), key='cir.', K={'uniform': 2, 'wald': 2, 'default': 2}, max_draws=12, wmin=1e-6)
    s = math.sqrt(T)
    low = min((min(l.val[2], l.val[3]) for l in lv), default=None)
    if low is None:
        R.note('no proposal')
        return
    for l in lv:
        xs = ops[1](np.asarray(l.val[0], float), np.asarray(l.val[1], float))[1]
        if not R.check(np.all(xs > 0), 'cir.inside', 'revealed values map into the bounds', got=xs):
            return
    # paths below this normalised level are possible at the end point that is further away from the bound
    reach = -max(xa, xb) / s
    R.check(low < -min(xa, xb) / s - 1e-6 and low > reach - 1e-6, 'cir.cover', 'normalised proposals reach every path within the bounds', lowest=low, needed_below=-min(xa, xb) / s)


def tilt(cfg, R):
    """end points that differ: limits of the normalised proposal map into the bounds at both ends"""
    lb, ub = inf(cfg['lb'], -1), inf(cfg['ub'])
    for T, x0, x1 in ((.5, -.2, .6), (1.5, .5, -.4)):
        s = math.sqrt(T)
        norm = lambda t, x: (t / T, None if x is None else (x - x0 - (x1 - x0) * t / T) / s)
        den = lambda t, z: (t * T, None if z is None else z * s + x0 + (x1 - x0) * t)
        with np.errstate(all='ignore'):
            lv = R.explore(lambda g: Z.sample_raw_seed((lb, ub), norm, den, g), key='tilt.', K={'uniform': 2, 'wald': 2, 'default': 2}, max_draws=9, wmin=1e-4)
        for l in lv:
            q = Z.SeedSkeleton(*l.val)
            v = np.array([float(q.tight_z) * s + w for w in (x0, x1)] + [float(q.loose_z) * s + w for w in (x0, x1)])
            xs = den(np.asarray(q.s, float), np.asarray(q.z, float))[1]
            if not R.check(np.all(v >= lb - 1e-9) and np.all(v <= ub + 1e-9) and np.all(xs >= lb - 1e-9) and np.all(xs <= ub + 1e-9), 'tilt.inside', 'limits of the proposal map into the bounds at both ends', limits=v, values=xs, bounds=(lb, ub)):
                return
            R.state((T, lb, ub, q.tight_z, q.loose_z, q.s[1]))
