"""C22: Monte Carlo expectation maximisation maximises what it says, within bounds."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.ea3lib import seed as Z
from ctbayes.ito import mcem as IE, mcmc as IC
from ctbayes.ito.models import ou as iou
from ctbayes.mjplib import skeleton as K
from ctbayes.switching import mcem as SE, mcmc as SC, types as T
from ctbayes.switching.models import ou as sou, ou2 as sou2
from mc import engine, harness

RULE = 'the real estimators run as transition systems against a completed-data likelihood of known form: every sequence of objective levels from an alphabet around the tolerance to a depth, with invariants on parameters, particles, objective and stopping at every step; every bound configuration and starting value of a grid; every set of up to two regime paths on a time grid for the generator step; all support times on a quadrature menu; all draws of real path interpolation on a menu for repeated objective evaluations'
BOUNDS = {'quick': '4 levels to depth 4 (depth 3 for three further settings of learning rate and thinning), 14 bound configurations by 3 starts, regime paths with up to 3 jumps among 2 or 3 regimes, 3 hyperparameter settings',
          'thorough': '5 levels to depth 4, 4 levels to depth 5, 27 starts, all pairs of regime paths'}
ASSUME = ['path updates and interpolation are replaced by tokens where the objective must be known exactly; interpolation itself is C09 and C10']

IUP, SUP, INT, RAW, FWD = IC.update_sde, SC.update_hidden, Z.interpolate_seed, Z.sample_raw_seed, K.sample_forwards
SIG = {f: inspect.signature(f) for f in (IUP, SUP, INT, FWD)}
NAMES = {IUP: 'thi z mod ctrl ome pool'.split(), SUP: 'thi lam z h mod ctrl sampler ome pool'.split(), INT: 'seed new_t norm_rsde denorm_rsde ome'.split(), FWD: 'fin_t init_x gen ome'.split()}
POOL = lambda tasks: [f(*a, **kw) for f, a, kw in tasks]
TT, VT = np.array([0.0, .5, 1.5]), np.array([.2, -.3, .4])


def bind(f, a, kw):
    b = SIG[f].bind(*a, **kw)
    b.apply_defaults()
    return dict(zip(NAMES[f], b.arguments.values()))


def configs(tier, seed):
    big = tier != 'quick'
    for which in ('ito', 'sw'):
        for b in range(len(BND)):
            for s in range(27 if big else 3):
                yield dict(kind='param', w=which, b=b, s=s)
        for rate, thin, nsup in ((1.5, 2, 2), (1.0, 1, 1), (1.2, 3, 1), (2.0, 2, 3)):
            yield dict(kind='drive', w=which, rate=rate, thin=thin, nsup=nsup, b=0, depth=(5 if rate == 1.0 else 4) if big else 4 if rate == 1.5 else 3, lev=5 if big and rate != 1.0 else 4)
        yield dict(kind='drive', w=which, rate=1.5, thin=2, nsup=2, b=5, depth=4 if big else 3, lev=4)
        yield dict(kind='long', w=which, rate=1.5)
        yield dict(kind='long', w=which, rate=1.0)
        for nsup in (1, 2, 3):
            yield dict(kind='support', w=which, nsup=nsup)
        for i in range(6 if big else 3):
            yield dict(kind='quiet', w=which, i=i)
            yield dict(kind='real', w=which, i=i)
        for b in (0, 1, 3, 9):
            yield dict(kind='se', w=which, b=b)
        yield dict(kind='buffer', w=which)
    for h in range(4):
        yield dict(kind='hyper', h=h)
        for d in (2, 3):
            for part in range(4):
                yield dict(kind='gen', d=d, h=h, part=part, big=big)


def run(cfg, R):
    globals()[cfg['kind']](cfg, R)


# ---- a completed-data model of known form: particles are tokens with a centre and a level

INF = math.inf
# bounds of two parameters, buffer
BND = [((None, None), 1e-2), (([-INF, -INF], [INF, INF]), 1e-2), (([0.0, 0.0], [INF, INF]), 1e-2), (([0.0, 0.0], [10.0, 10.0]), 1e-2), (([-INF, 0.3], [.1, INF]), 1e-2),
       (([0.0, 0.0], [.2, .3]), 1e-2), (([.5, -2.0], [3.0, -.5]), 1e-2), (([.5, -2.0], [.51, -1.995]), 1e-2), (([.4, .2], [.4, .2]), 1e-2), (([-1.0, -1.0], [1.0, 1.0]), .25),
       (([-1.0, -1.0], [1.0, 1.0]), .0), (([2.0, 2.0], [3.0, 4.0]), .1), (([-3.0, -4.0], [-2.0, -3.0]), .1), (([0.0, -INF], [INF, 0.0]), .4)]
A = np.array([[2.0, .3], [.3, 1.5]])
CENT = np.array([[.4, .1], [.6, -.2], [.1, .5], [.3, .2], [-.2, .1], [.5, .6]])


def buffered(b):
    (lb, ub), buf = BND[b]
    lo = np.array([-INF, -INF] if lb is None else lb, float)
    hi = np.array([INF, INF] if ub is None else ub, float)
    d = np.array([min((h - l) / 2 if np.isfinite(h - l) else INF, buf) for l, h in zip(lo, hi)])
    return lo + d, hi - d


def nbounds(b):
    (lb, ub), buf = BND[b]
    return None if lb is None else np.array(lb, float), None if ub is None else np.array(ub, float)


def prior(thi):
    t = np.atleast_2d(thi)
    return float(np.sum(t @ np.array([.3, -.2]) - .05 * np.sum(t ** 2, 1)))


def quad(thi, k):
    d = np.asarray(thi, float) - CENT[k % len(CENT)]
    return .5 * float(d @ A @ d)


def token(k, lev=0.0, i=0):
    """path of particle k on segment i, its level in the limits"""
    return Z.SeedSkeleton(np.array([0.0, .5, 1.0]), np.array([0.0, float(k), 0.0]), float(k), float(lev), float(i), None)


class Part(object):
    """the particles' stand-ins"""

    def __init__(self, R):
        self.R, self.calls, self.evals, self.k, self.lev, self.good = R, [], 0, 0, 0.0, True
        self.y = None

    def need(self, c, key, msg, **d):
        if self.good and not c:
            self.good = False
            self.R.fail(key, msg, **d)

    def interp(self, *a, **kw):
        v = bind(INT, a, kw)
        z, t = v['seed'], np.asarray(v['new_t'], float)
        self.evals += 1
        dt = v['norm_rsde'].seg
        self.need(np.all((t >= 0) & (t <= dt)), 'support.range', 'support times lie in their interval', t=t, dt=dt)
        # code particle and level into the value
        return z, np.full(len(t), z.tight_z) + 1j * z.loose_z

    def model(self, which, b, prior_=prior):
        self.which = which
        lb, ub = nbounds(b)
        if which == 'ito':
            return IE.Model(TT, VT, (lb, ub), prior_, self.aug, self.ops, self.base, self.disc, None)
        return SE.Model(TT, VT, (lb, ub), (np.where(np.eye(2) > 0, np.nan, 1.0) * np.array([[1.5], [2.5]]), np.where(np.eye(2) > 0, np.nan, 1.0) * np.array([[1.2], [.7]])), prior_,
                        self.saug, self.sops, self.sbase, self.sdisc, None)

    def aug(self, thi, t, vt, ome):
        return [token(99, 0.0, i) for i in range(len(t) - 1)]

    def saug(self, thi, y, t, vt, ome):
        return [token(99, 0.0, 0), token(99, 0.0, 1), token(99, 0.0, 2)], T.Anchorage(np.array([0.0, .5, .9, 1.5]), np.array([0, 0, 1, 1]), np.array([.2, -.3, .1, .4]))

    class Op(object):
        def __init__(self, thi, dt):
            self.thi, self.seg = thi, dt

        def __call__(self, t, x):
            return np.asarray(t) / self.seg, x

    def ops(self, thi, t, vt):
        return [(self.Op(thi, d), self.Op(thi, d)) for d in np.diff(t)]

    def sops(self, thi, t, yt, vt):
        return self.ops(thi, t, vt)

    def base(self, thi, t, vt):
        return .2 * float(np.sum(np.sin(thi)))

    def disc(self, thi, x):
        x = np.asarray(x)
        return np.array([quad(thi, int(round(q.real))) - q.imag for q in x]) if x.size else np.zeros(0)

    def sbase(self, thi, t, yt, vt, restrict=None):
        parts = [.2 * float(np.sum(np.sin(thi[y]))) * (r + 1) for r, y in enumerate((0, 1))]
        return (sum(parts) if restrict is None else parts[restrict]), 7.0

    def sdisc(self, thi, y, x):
        return self.disc(thi[y], x)


def obj_ito(thi, ks, lev):
    T_ = TT[-1]
    return np.array([.2 * float(np.sum(np.sin(thi))) - T_ * (quad(thi, k) - lev) for k in ks]) + prior(thi)


def obj_sw(thi, i, ks, lev, d=(.9, .6), extra=None):
    return np.array([.2 * (i + 1) * float(np.sum(np.sin(thi[i]))) - d[i] * (quad(thi[i], k) - lev) for k in ks]) + prior(thi)


STARTS = [np.array(p) for p in it.product((.9, -.6, .02), (.15, 1.8, -1.2))]
STARTS = [STARTS[0], STARTS[4], STARTS[8]] + [np.array(p) for p in it.product((.9, -.6, .02, 2.5), (.15, 1.8, -1.2, -2.9, .5, -.9))]


def best(f, lo, hi, x0):
    """reference maximum on a fine grid refined around the best point"""
    lo_, hi_ = np.maximum(lo, -4), np.minimum(hi, 5)
    c, w = (lo_ + hi_) / 2, (hi_ - lo_) / 2
    val = -INF
    for r in range(14):
        pts = [np.clip(c + w * np.array(u), lo, hi) for u in it.product(np.linspace(-1, 1, 7), repeat=2)]
        vs = [f(p) for p in pts]
        j = int(np.argmax(vs))
        val, c, w = max(val, vs[j]), pts[j], w * .45
    return val


def param(cfg, R):
    """one maximisation over the parameter"""
    P = Part(R)
    mod = P.model(cfg['w'], cfg['b'])
    lo, hi = buffered(cfg['b'])
    if np.any(lo > hi + 1e-12):
        return
    x0 = STARTS[cfg['s']]
    ks = (0, 1, 2)
    buf = BND[cfg['b']][1]
    xs = np.clip(x0, lo, hi)
    with engine.replaced((INT, P.interp)):
        if cfg['w'] == 'ito':
            zz = [[token(k, .4, i) for i in range(2)] for k in ks]
            ok, out = R.call(IE.update_param, x0, zz, mod, IE.Controls(bound_buffer=buf), np.random.default_rng(1), POOL, key='param.')
            if not ok:
                return
            thi, obj = np.asarray(out[0]), out[1]
            f = lambda q: float(np.mean(obj_ito(q, ks, .4)))
            check_opt(R, cfg, thi, obj, f(thi), f(xs), best(f, lo, hi, xs), lo, hi)
        else:
            h = P.saug(None, None, None, None, None)[1]
            zz = [[token(k, .4, i) for i in range(3)] for k in ks]
            th0 = np.stack([x0, x0[::-1] * .8])
            ok, out = R.call(SE.update_param, th0, zz, [h] * 3, mod, SE.Controls(bound_buffer=buf), np.random.default_rng(1), POOL, key='param.')
            if not ok:
                return
            thi, obj = np.asarray(out[0]), out[1]
            if not R.check(thi.shape == (2, 2), 'param.shape', 'one parameter vector per regime', got=thi.shape):
                return
            tot = 0.0
            for i in (0, 1):
                f = lambda q: float(np.mean(obj_sw(np.where(np.arange(2)[:, None] == i, q, th0), i, ks, .4)))
                s = np.clip(th0[i], lo, hi)
                check_opt(R, cfg, thi[i], None, f(thi[i]), f(s), best(f, lo, hi, s), lo, hi)
                tot += f(thi[i])
            R.near(obj, tot, 1e-9, 'param.value', 'objective returned with the parameters', cfg=cfg)
    R.state((cfg['w'], cfg['b'], cfg['s'], tuple(np.round(thi.ravel(), 8))))


def check_opt(R, cfg, thi, obj, fv, fs, fb, lo, hi):
    R.check(np.all(thi >= lo - 1e-12) and np.all(thi <= hi + 1e-12), 'param.bounds', 'parameters stay inside the buffered bounds', thi=thi, lo=lo, hi=hi)
    if obj is not None:
        R.near(obj, fv, 1e-9, 'param.value', 'objective returned with the parameter', thi=thi)
    R.check(fv >= fs - 1e-9, 'param.worse', 'not worse than the starting value', got=fv, start=fs)
    R.check(fv >= fb - .06 * max(1.0, abs(fb)), 'param.maximum', 'the parameter maximises the objective up to the tolerance', got=fv, best=fb, thi=thi)


def buffer(cfg, R):
    f = (IE if cfg['w'] == 'ito' else SE).buffer_bounds
    for b in range(len(BND)):
        lb, ub = nbounds(b)
        for args in ((lb, ub), (lb, None), (None, ub)):
            ok, out = R.call(f, args[0], args[1], 2, BND[b][1], key='buffer.')
            if not ok:
                continue
            lo = np.full(2, -INF) if args[0] is None else args[0]
            hi = np.full(2, INF) if args[1] is None else args[1]
            d = np.minimum(np.where(np.isfinite(hi - lo), (hi - lo) / 2, INF), BND[b][1])
            R.near(out[0], lo + d, 1e-12, 'buffer.lower', 'buffered lower bound', bound=b)
            R.near(out[1], hi - d, 1e-12, 'buffer.upper', 'buffered upper bound', bound=b)
            R.state((b, tuple(out[0]), tuple(out[1])))


# ---- the iteration

def levels(n, ftol=1e-2):
    return [0.0, .4 * ftol, 3 * ftol, -2.5 * ftol, 1.0][:n]


def drive(cfg, R):
    """every sequence of objective levels: the level of the particles is chosen at each iteration"""
    lev = levels(cfg['lev'])
    buf = BND[cfg['b']][1]
    lo, hi = buffered(cfg['b'])
    x0 = np.array([.05, .15])
    C = dict(n_thin_mcmc=cfg['thin'], n_disc_supports=cfg['nsup'], learning_rate=cfg['rate'], bound_buffer=buf)

    def fn(g):
        P = Part(R)
        mod = P.model(cfg['w'], cfg['b'])
        L = {'now': 0.0}
        count = [0]
        log = []
        P.R = _Quiet()

        def upd(*a, **kw):
            v = bind(IUP, a, kw)
            count[0] += 1
            log.append((np.array(v['thi'], float), [q.tight_z for q in v['z']], count[0]))
            return [token(count[0], L['now'], i) for i in range(2)]

        def hid(*a, **kw):
            v = bind(SUP, a, kw)
            count[0] += 1
            log.append((np.array(v['thi'], float), [q.tight_z for q in v['z']], count[0], np.array(v['lam'], float), v['h']))
            return [token(count[0], L['now'], i) for i in range(3)], v['h']
        out = []
        pair = (IUP, upd) if cfg['w'] == 'ito' else (SUP, hid)
        with engine.replaced(pair, (INT, P.interp)):
            if cfg['w'] == 'ito':
                run_ = IE.maximize_posterior(x0, mod, IE.Controls(**C), np.random.default_rng(3))
            else:
                run_ = SE.maximize_posterior(x0, mod, SE.Controls(**C), np.random.default_rng(3))
            for i in range(cfg['depth']):
                L['now'] = lev[int(g.choice(len(lev), p=[1.0 / len(lev)] * len(lev)))]
                a, n0 = len(log), P.evals
                try:
                    step = next(run_)
                except StopIteration:
                    out.append(None)
                    break
                out.append((step, L['now'], log[a:]))
        return out, (P.R.f[0] if P.R.f else None), x0
    lv = R.explore(fn, key='drive.', observe=False)
    C_ = IE.Controls()
    for l in lv:
        check_run(R, cfg, l.val, lo, hi)
        if len(R.fails) > 5:
            return


class _Quiet(object):
    def __init__(self):
        self.f = []

    def fail(self, key, msg, **d):
        self.f.append((key, msg, d))


def check_run(R, cfg, val, lo, hi, ftol=1e-2):
    out, bad, x0 = val
    if bad:
        R.fail(bad[0], bad[1], **bad[2])
        return
    sw = cfg['w'] == 'sw'
    last_thi = np.stack([x0, x0]) if sw else x0
    last_obj, last_n, prev_tok, last_lam = -INF, 0, 99.0, None
    sig = []
    for i, o in enumerate(out):
        if o is None:
            break
        step, lev, log = o
        if sw:
            obj, thi, lam, zz, hh = step
        else:
            obj, thi, zz = step
        n = len(zz)
        ids = [int(round(z[0].tight_z)) for z in zz]
        R.check(n > last_n and (i > 0 or n >= 1), 'drive.particles', 'the number of particles grows', got=n, before=last_n)
        R.check(len(log) == n * cfg['thin'], 'drive.thinning', 'one particle per thinning interval', updates=len(log), particles=n)
        slots = [(k - log[0][2]) // cfg['thin'] for k in ids] if log else []
        R.check(slots == list(range(n)), 'drive.thinning', 'one particle from each thinning interval', slots=slots)
        for j, e in enumerate(log):
            if not R.check(np.array_equal(e[0], last_thi), 'drive.parameter', 'particles of an iteration are drawn at the parameter of the previous one', got=e[0], want=last_thi, iteration=i):
                return
            want = prev_tok if j == 0 else float(log[j - 1][2])
            if j:
                R.check(set(e[1]) == {want}, 'drive.chain', 'updates start from the path before', got=e[1], want=want)
            if sw and last_lam is not None:
                R.check(np.array_equal(e[3], last_lam), 'drive.generator', 'hidden paths are updated under the generator of the previous iteration', got=e[3], want=last_lam)
            if sw:
                R.near(np.sum(e[3], 1), np.zeros(2), 1e-9, 'drive.rows', 'generator rows sum to zero', got=e[3])
        thi = np.asarray(thi)
        R.check(np.all(thi >= lo - 1e-12) and np.all(thi <= hi + 1e-12), 'drive.bounds', 'parameters stay inside the buffered bounds', thi=thi)
        if sw:
            want = sum(float(np.mean(obj_sw(np.where(np.arange(2)[:, None] == r, thi, last_thi), r, ids, lev))) for r in (0, 1)) + gen_value(hh, lam)
            R.near(np.sum(lam, 1), np.zeros(2), 1e-9, 'drive.rows', 'generator rows sum to zero', got=lam)
            last_lam = np.asarray(lam)
        else:
            want = float(np.mean(obj_ito(thi, ids, lev)))
        R.near(obj, want, 1e-9, 'drive.value', 'objective of the iteration', iteration=i)
        done = abs(obj - last_obj) < ftol
        if i + 1 < len(out):
            R.check((out[i + 1] is None) == done, 'drive.stop', 'iteration ends exactly when the objective changes by less than the tolerance', change=obj - last_obj, stopped=out[i + 1] is None)
        last_thi, last_obj, last_n, prev_tok = thi, obj, n, float(ids[-1])
        sig.append((round(float(obj), 6), n))
        R.state(tuple(sig))


HYP = (np.array([[np.nan, 1.5], [2.5, np.nan]]), np.array([[np.nan, 1.2], [.7, np.nan]]))


def gen_value(hh, lam):
    tot = 0.0
    for h in hh:
        for i in range(len(h.t) - 1):
            tot += (h.t[i + 1] - h.t[i]) * lam[int(h.yt[i]), int(h.yt[i])]
            if i + 1 < len(h.t) - 1 and h.yt[i + 1] != h.yt[i]:
                tot += math.log(lam[int(h.yt[i]), int(h.yt[i + 1])])
    tot /= len(hh)
    for a in (0, 1):
        b = 1 - a
        tot += (HYP[0][a, b] - 1) * math.log(lam[a, b]) - HYP[1][a, b] * lam[a, b]
    return tot


def long(cfg, R):
    """the objective keeps moving: many iterations, one sequence"""
    c = dict(cfg, thin=1, nsup=1, b=0)
    x0 = np.array([.05, .15])
    P = Part(R)
    mod = P.model(cfg['w'], 0)
    L, count, log, out = {'now': 0.0}, [0], [], []

    def upd(*a, **kw):
        v = bind(IUP, a, kw)
        count[0] += 1
        log.append((np.array(v['thi'], float), [q.tight_z for q in v['z']], count[0]))
        return [token(count[0], L['now'], i) for i in range(2)]

    def hid(*a, **kw):
        v = bind(SUP, a, kw)
        count[0] += 1
        log.append((np.array(v['thi'], float), [q.tight_z for q in v['z']], count[0], np.array(v['lam'], float), v['h']))
        return [token(count[0], L['now'], i) for i in range(3)], v['h']
    with engine.replaced((IUP, upd) if cfg['w'] == 'ito' else (SUP, hid), (INT, P.interp)):
        kw = dict(n_thin_mcmc=1, n_disc_supports=1, learning_rate=cfg['rate'])
        run_ = IE.maximize_posterior(x0, mod, IE.Controls(**kw), np.random.default_rng(3)) if cfg['w'] == 'ito' else SE.maximize_posterior(x0, mod, SE.Controls(**kw), np.random.default_rng(3))
        for i in range(14):
            L['now'] = 1.0 * (i % 2) + .3 * i if i < 12 else L['now']
            a = len(log)
            ok, step = R.call(next, run_, None, key='long.')
            if not ok:
                return
            out.append(None if step is None else (step, L['now'], log[a:]))
            if step is None:
                break
    check_run(R, c, (out, None, x0), *buffered(0))


# ---- the objective

def support(cfg, R):
    """support times are uniform: the averaged potential is the time integral, for paths that are polynomials in time"""
    nsup = cfg['nsup']
    P = Part(R)
    coef = np.array([.3, -1.1, .8, .5])

    def interp(*a, **kw):
        v = bind(INT, a, kw)
        t = np.asarray(engine.settle(v['new_t']), float)
        return v['seed'], np.polyval(coef, t) + v['seed'].hit_z

    def fn(g):
        if cfg['w'] == 'ito':
            mod = IE.Model(TT, VT, (None, None), lambda q: .25, None, P.ops, lambda thi, t, v: 2.0, lambda thi, x: thi[0] * x, None)
            f = IE.update_objective(np.array([1.0, 2.0]), [[token(0, 0, i) for i in range(2)]], mod, IE.Controls(n_disc_supports=nsup), g, POOL)
            return [float(f(np.array([q, 2.0]))[0]) for q in (1.0, 1.6)]
        mod = SE.Model(TT, VT, (None, None), None, lambda q: .25, None, P.sops, lambda thi, t, yt, v, r=None: (2.0, 7.0), lambda thi, y, x: thi[y, 0] * x, None)
        h = P.saug(None, None, None, None, None)[1]
        f = SE.update_objective(np.array([[1.0, 2.0], [1.0, 2.0]]), [[token(0, 0, i) for i in range(3)]], [h], mod, SE.Controls(n_disc_supports=nsup), g, POOL)
        return [float(f(np.array([[q, 2.0], [q, 2.0]]), r)[0]) for q in (1.0, 1.6) for r in (0, 1)]
    nd = 2 if cfg['w'] == 'ito' else 3
    k = {1: 6, 2: 4, 3: 3}[nsup] if nd == 2 else {1: 4, 2: 2, 3: 2}[nsup]
    with engine.replaced((INT, interp)):
        lv = R.explore(fn, key='support.', K={'uniform': k, 'sorted': k, 'default': k})
    if not lv:
        return
    m = harness.mean(lv, lambda v: v)
    I = lambda dt, i: float(np.polyval(np.polyint(coef), dt)) + i * dt
    if cfg['w'] == 'ito':
        want = [2.25 - q * (I(.5, 0) + I(1.0, 1)) for q in (1.0, 1.6)]
    else:
        want = [2.25 - q * ([I(.5, 0) + I(.4, 1), I(.6, 2)][r]) for q in (1.0, 1.6) for r in (0, 1)]
    R.near(m, want, 1e-7 if k > 2 or nsup > 1 and k > 1 and not any(l.inexact for l in lv) else 2e-2, 'support.mean', 'average over support times against the time integral', nsup=nsup)


def real_case(cfg):
    thi = [np.array([.7, .9]), np.array([1.4, 1.2]), np.array([.4, 1.6])][cfg['i'] % 3]
    if cfg['w'] == 'ito':
        return thi, IE.Model(TT, VT, iou.bounds_thi, iou.eval_log_prior, iou.sample_aug, iou.gen_normops, iou.eval_biased_log_lik, iou.eval_disc, iou.eval_bounds_disc), None
    m = (sou, sou2)[cfg['i'] % 2]
    th = np.stack([thi, thi[::-1] * 1.1])
    return th, SE.Model(TT, VT, m.bounds_thi, (HYP[0], HYP[1]), m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc), \
        K.Skeleton(np.array([0.0, .8]), np.array([0, 1]), 1.5)


def known(i):
    """a revealed skeleton of either orientation"""
    z = np.array([0.0, .4, -.2, 0.0]) if i % 2 else np.array([0.0, -.3, .1, 0.0])
    return Z.SeedSkeleton(np.array([0.0, .3, .7, 1.0]), z, .4 if i % 2 else -.3, -1.1 if i % 2 else 1.2, -.6 if i % 2 else .7, [True, False, True] if i % 3 else [False, False, False])


def quiet(cfg, R):
    """real interpolation: every draw on a menu; evaluating the objective draws nothing and repeats itself"""
    thi, mod, y = real_case(cfg)

    def fn(g):
        if cfg['w'] == 'ito':
            zz = [[known(i + k + cfg['i']) for i in range(2)] for k in range(1)]
            f = IE.update_objective(thi, zz, mod, IE.Controls(n_disc_supports=1), g, POOL)
            ev = lambda t: float(f(t)[0])
        else:
            h = T.Anchorage(np.array([0.0, .5, 1.5]), np.array([0, 0, 0]) if cfg['i'] % 2 else np.array([1, 1, 1]), VT)
            zz = [[known(i + k + cfg['i']) for i in range(2)] for k in range(1)]
            f = SE.update_objective(thi, zz, [h], mod, SE.Controls(n_disc_supports=1), g, POOL)
            ev = lambda t: float(f(t, int(h.yt[0]))[0])
        n = g.tape.ndraws
        out = [ev(thi), ev(thi * 1.2), ev(thi), ev(thi * .7), ev(thi * 1.2)]
        return out, g.tape.ndraws - n
    lv = R.explore(fn, key='quiet.', K={'uniform': 3, 'normal': 2, 'default': 2}, eps=.02, wmin=2e-4)
    for l in lv:
        v, n = l.val
        if not R.check(n == 0, 'quiet.draws', 'evaluating the objective consumes no randomness', draws=n):
            return
        if not R.check(v[0] == v[2] and v[1] == v[4], 'quiet.repeat', 'the objective is a function of the parameter', got=v):
            return


def real(cfg, R):
    """real generators, paths and model: repeated evaluations agree bitwise and leave every generator alone"""
    thi, mod, y = real_case(cfg)
    for sd in range(6):
        ome = np.random.default_rng(50 * cfg['i'] + sd)
        if cfg['w'] == 'ito':
            zz = [mod.sample_aug(thi, TT, VT, ome) for _ in range(1 + sd % 3)]
            ok, f = R.call(IE.update_objective, thi, zz, mod, IE.Controls(n_disc_supports=1 + sd % 3), ome, POOL, key='real.')
            ev = lambda t: np.asarray(f(t))
        else:
            zh = [mod.sample_aug(thi, y, TT, VT, ome) for _ in range(1 + sd % 3)]
            ok, f = R.call(SE.update_objective, thi, [q[0] for q in zh], [q[1] for q in zh], mod, SE.Controls(n_disc_supports=1 + sd % 3), ome, POOL, key='real.')
            ev = lambda t: np.stack([f(t, r) for r in (0, 1)])
        if not ok:
            return
        s = repr(ome.bit_generator.state)
        v = [ev(t) for t in (thi, thi * 1.2, thi, thi * .8, thi * 1.2)]
        R.check(repr(ome.bit_generator.state) == s, 'real.draws', 'evaluating the objective consumes no randomness', seed=sd)
        R.check(np.array_equal(v[0], v[2]) and np.array_equal(v[1], v[4]), 'real.repeat', 'the objective is a function of the parameter', seed=sd)
        R.check(v[0].shape[-1] == 1 + sd % 3 and np.all(np.isfinite(v[0])), 'real.size', 'one value per particle', got=v[0].shape)
        R.state((cfg['w'], cfg['i'], sd, v[0].tobytes()))


def se(cfg, R):
    """standard errors: inverse of the observed information of the average over particles"""
    P = Part(R)
    mod = P.model(cfg['w'], cfg['b'], prior_=lambda q: 0.0)
    lo, hi = buffered(cfg['b'])
    buf = BND[cfg['b']][1]
    ks = (0, 1, 2, 3)
    C = np.cov(CENT[list(ks)].T)
    for x0 in (np.array([.1, .15]), np.array([.15, .05]), np.clip(np.array([.01, .01]), lo, hi), hi):
        if not np.all(np.isfinite(x0)) or np.any(x0 < lo) or np.any(x0 > hi):
            continue
        edge = np.min([np.abs(x0 - lo), np.abs(x0 - hi)])
        if 0 < edge < .08:
            continue
        with engine.replaced((INT, P.interp)):
            if cfg['w'] == 'ito':
                zz = [[token(k, .4, i) for i in range(2)] for k in ks]
                ok, out = R.call(IE.est_se, x0, zz, mod, IE.Controls(bound_buffer=buf), np.random.default_rng(1), POOL, key='se.')
                cases = [(out, x0, TT[-1], 1)]
            else:
                h = P.saug(None, None, None, None, None)[1]
                zz = [[token(k, .4, i) for i in range(3)] for k in ks]
                ok, out = R.call(SE.est_se, np.stack([x0, x0]), zz, [h] * 4, mod, SE.Controls(bound_buffer=buf), np.random.default_rng(1), POOL, key='se.')
                cases = list(zip(out, (x0, x0), (.9, .6), (1, 2))) if ok else []
        if not ok:
            return
        for got, x, T_, w in cases:
            if edge == 0:
                R.check(got is None, 'se.edge', 'no standard error at a bound', x=x)
                continue
            info = T_ * A + .2 * w * np.diag(np.sin(x)) - T_ * T_ * A @ C @ A
            want = np.linalg.inv(info)
            if np.all(np.diag(want) > 0):
                if R.check(got is not None, 'se.none', 'standard errors are available', x=x):
                    R.near(got, want, 1e-5, 'se.value', 'inverse of the observed information', x=x)
            else:
                R.check(got is None, 'se.sign', 'no standard error without positive variances', x=x)
            R.state((cfg['w'], cfg['b'], tuple(x)))


# ---- the generator step

def hyper(cfg, R):
    """first generator: prior mean with rows that sum to zero"""
    d = 2 + cfg['h'] % 2
    al = 1.0 + np.arange(d * d).reshape(d, d) * (.3 if cfg['h'] > 1 else 0.0)
    be = 1.0 + np.arange(d * d)[::-1].reshape(d, d) * (.2 if cfg['h'] > 1 else 0.0)
    np.fill_diagonal(al, np.nan)
    np.fill_diagonal(be, np.nan)
    seen = []

    def fwd(*a, **kw):
        v = bind(FWD, a, kw)
        seen.append(np.array(v['gen'], float))
        return K.Skeleton(np.array([0.0]), np.array([0]), 1.5)
    keep = al.copy(), be.copy()
    P = Part(R)
    mod = SE.Model(TT, VT, (None, None), (al, be), prior, P.saug, P.sops, P.sbase, P.sdisc, None)

    class Stop(Exception):
        pass

    def hid(*a, **kw):
        v = bind(SUP, a, kw)
        seen.append(np.array(v['lam'], float))
        raise Stop
    with engine.replaced((FWD, fwd), (SUP, hid)):
        R.call(next, SE.maximize_posterior(np.array([.1, .2]), mod, SE.Controls(), np.random.default_rng(0)), key='hyper.', allow=(Stop,))
    if not seen:
        R.note('initial generator not seen')
        return
    want = np.where(np.isnan(keep[0]), 0.0, keep[0] / keep[1])
    want = want - np.diag(np.sum(want, 1))
    for q in seen:
        R.near(q, want, 1e-12, 'hyper.initial', 'initial generator is the prior mean with rows that sum to zero', h=cfg['h'])
    R.check(np.array_equal(al, keep[0], equal_nan=True) and np.array_equal(be, keep[1], equal_nan=True), 'hyper.kept', 'hyperparameters are not changed')
    R.state((cfg['h'], d))


def all_paths(d, grid, nj):
    out = []
    for n in range(nj + 1):
        for ts in it.combinations(grid, n):
            for ys in it.product(range(d), repeat=n + 1):
                if all(a != b for a, b in zip(ys, ys[1:])):
                    out.append(K.Skeleton(np.array([0.0] + list(ts)), np.array(ys), 1.5))
    return out


def anchorage(y, extra):
    tt = sorted(set(y.t.tolist()) | set(extra) | {1.5})
    yt = [int(y.xt[np.searchsorted(y.t, q, 'right') - 1]) for q in tt[:-1]] + [int(y.xt[-1])]
    return T.Anchorage(np.array(tt), np.array(yt), np.zeros(len(tt)))


def gen(cfg, R):
    """the generator step is the exact maximiser and returns its value"""
    d = cfg['d']
    al = [np.full((d, d), 1.0), np.full((d, d), 2.5), 1.2 + .3 * np.arange(d * d).reshape(d, d), 3.0 - .2 * np.arange(d * d).reshape(d, d)][cfg['h']].astype(float)
    be = [np.full((d, d), 1.0), np.full((d, d), .4), .5 + .2 * np.arange(d * d)[::-1].reshape(d, d), np.full((d, d), 2.0)][cfg['h']].astype(float)
    np.fill_diagonal(al, np.nan)
    np.fill_diagonal(be, np.nan)
    ps = all_paths(d, (.2, .55, .7, 1.3), 3 if d == 2 else 2)
    pairs = [(p,) for p in ps] + [(p, ps[(3 * i + 5) % len(ps)]) for i, p in enumerate(ps)] + [(p, ps[(5 * i + 1) % len(ps)], ps[(7 * i + 2) % len(ps)]) for i, p in enumerate(ps)]
    if cfg['big']:
        pairs += list(it.combinations_with_replacement(ps[:40], 2))
    for grp in pairs[cfg['part']::4]:
        hh = [anchorage(y, (.5, 1.1)) for y in grp]
        ok, out = R.call(SE.update_generator, hh, (al.copy(), be.copy()), key='gen.')
        if not ok:
            return
        lam, val = np.asarray(out[0], float), float(out[1])
        num, den = np.zeros((d, d)), np.zeros(d)
        for y in grp:
            e = np.append(y.t, 1.5)
            for k in range(len(y.t)):
                den[y.xt[k]] += (e[k + 1] - e[k]) / len(grp)
                if k + 1 < len(y.t):
                    num[y.xt[k], y.xt[k + 1]] += 1.0 / len(grp)

        def F(m):
            tot = 0.0
            for a in range(d):
                for b in range(d):
                    if a != b:
                        c = num[a, b] + al[a, b] - 1
                        tot += (c * math.log(m[a, b]) if m[a, b] > 0 else (0.0 if c == 0 else -INF)) - (den[a] + be[a, b]) * m[a, b]
            return tot
        if not R.near(np.sum(lam, 1), np.zeros(d), 1e-9, 'gen.rows', 'rows sum to zero', got=lam):
            return
        f0 = F(lam)
        if not R.near(val, f0, 1e-9, 'gen.value', 'value of the average expected log posterior', lam=lam, paths=[list(map(list, y[:2])) for y in grp]):
            return
        for a in range(d):
            for b in range(d):
                if a != b:
                    for s in (.9, .999, 1.001, 1.1):
                        m = lam.copy()
                        m[a, b] = lam[a, b] * s if lam[a, b] > 0 else (s - 1 if s > 1 else 0.0)
                        if not R.check(F(m) <= f0 + 1e-9, 'gen.maximum', 'a neighbouring generator is not better', lam=lam, a=a, b=b, s=s):
                            return
        R.state((d, cfg['h'], tuple(np.round(lam.ravel(), 9))))
