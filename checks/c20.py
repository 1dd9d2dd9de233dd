"""C20: model definitions are mutually consistent."""
import importlib
import itertools as it
import math

import numpy as np

from mc import engine, harness

RULE = 'every point of product grids of parameters, states, intervals, durations, end points and parameter pairs for the five supplied models: derivatives by extrapolated differences, bounds against the potential at every grid point of the interval or path, vector evaluation against scalar evaluation, and the reduced drift against the stated process'
BOUNDS = {'quick': '9 to 12 parameters, 25 states, all 300 intervals of the state grid with infinite ends, 16 parameter pairs by 81 end point, duration and limit combinations by 189 path points',
          'thorough': '16 to 27 parameters, 41 states, all pairs of parameters'}
ASSUME = ['the stated processes: ito.ou dV=-bV dt+s dW; ito.cir dV=b(m-V)dt+s sqrt(V)dW; switching.ou drift -bV, volatility 1/g; ou2 drift -bV, volatility b/l; ou3 drift -rlV, volatility r (as in the parameter-difference bounds of each module)',
          'cir is judged where its zero boundary is not reached (2bm >= s^2)']

MODS = {'ito.ou': 0, 'ito.cir': 0, 'switching.ou': 1, 'switching.ou2': 1, 'switching.ou3': 1}


def mod(name):
    a, b = name.split('.')
    return importlib.import_module('ctbayes.%s.models.%s' % (a, b))


def params(name, tier):
    big = tier != 'quick'
    if name == 'ito.cir':
        g = [(b, m, s) for b in (.4, 1.0, 2.5) for m in (.5, 1.0, 2.0) for s in ((.3, .7, 1.1) if big else (.3, .9)) if 2 * b * m >= s * s]
    else:
        v = (.2, .7, 1.0, 2.3) if big else (.3, 1.0, 2.3)
        g = [(a, b) for a in v for b in v]
    return [np.array(p, float) for p in g]


def states(name, tier):
    n = 41 if tier != 'quick' else 25
    return np.geomspace(.05, 12, n) if name == 'ito.cir' else np.linspace(-4, 4, n)


def configs(tier, seed):
    for name in MODS:
        P = params(name, tier)
        for i in range(len(P)):
            for kind in ('derivs', 'reduce', 'bounds', 'ops'):
                yield dict(kind=kind, m=name, i=i, tier=tier)
            for j in range(len(P)):
                if i != j and (tier != 'quick' or (i * 7 + j * 3) % 5 == 0 or np.sum(P[i] != P[j]) == 1):
                    yield dict(kind='grad', m=name, i=i, j=j, tier=tier)
        yield dict(kind='vector', m=name, tier=tier)
        yield dict(kind='prior', m=name, tier=tier)
        yield dict(kind='hyper', m=name, tier=tier)
        if name == 'ito.ou' or name == 'ito.cir':
            yield dict(kind='gradient', m=name, tier=tier)


def run(cfg, R):
    dict(derivs=derivs, reduce=reduce_, bounds=bounds, ops=ops, grad=grad, gradient=gradient, vector=vector, prior=prior, hyper=hyper)[cfg['kind']](cfg, R)


class M(object):
    """one model at one parameter, in scalar form"""

    def __init__(self, name, p):
        self.m, self.sw, self.name = mod(name), MODS[name], name
        self.p = p
        if self.sw:
            other = p * 1.7 + .1
            self.full = np.array([other, p, other * .8])
            self.a = (self.full, 1)
        else:
            self.full = p
            self.a = (p,)

    def drift(self, x): return self.m.eval_drift(*self.a, x)
    def sdrift(self, x): return self.m.sx_eval_drift(*self.a, x)
    def ddrift(self, x): return self.m.dx_eval_drift(*self.a, x)
    def disc(self, x): return self.m.eval_disc(*self.a, x)
    def bounds(self, l, u): return self.m.eval_bounds_disc(*self.a, l, u)
    def vol(self): return float(self.m.eval_vol(*self.a)) if self.sw else 1.0
    def reduce(self, v): return self.m.reduce(v) if self.sw else self.m.reduce(self.p, v)
    def dereduce(self, x): return self.m.dereduce(x) if self.sw else self.m.dereduce(self.p, x)
    def dreduce(self, v): return self.m.dv_reduce(v) if self.sw else self.m.dv_reduce(self.p, v)

    def grad(self, q, T, v0, v1, l, u): return self.m.eval_bounds_grad(self.p, q, T, v0, v1, l, u)

    def ops(self, t, vt):
        if self.sw:
            return self.m.gen_normops(self.full, t, np.ones(len(t), int), vt)
        return self.m.gen_normops(self.p, t, vt)


def ref(name, p):
    """stated drift and volatility of the observed process"""
    if name == 'ito.ou':
        return (lambda v: -p[0] * v), (lambda v: p[1])
    if name == 'ito.cir':
        return (lambda v: p[0] * (p[1] - v)), (lambda v: p[2] * math.sqrt(v))
    if name == 'switching.ou':
        return (lambda v: -p[0] * v), (lambda v: 1 / p[1])
    if name == 'switching.ou2':
        return (lambda v: -p[0] * v), (lambda v: p[0] / p[1])
    return (lambda v: -p[0] * p[1] * v), (lambda v: p[0])


def diff(f, x, n=1):
    """first or second derivative by extrapolated central differences"""
    h = 1e-2 * min(1.0, abs(x) if x else 1.0)
    if n == 1:
        d = [(float(f(x + k)) - float(f(x - k))) / (2 * k) for k in (h, h / 2, h / 4)]
    else:
        f0 = float(f(x))
        d = [(float(f(x + k)) - 2 * f0 + float(f(x - k))) / k ** 2 for k in (h, h / 2, h / 4)]
    e = [(4 * d[1] - d[0]) / 3, (4 * d[2] - d[1]) / 3]
    return (16 * e[1] - e[0]) / 15


def derivs(cfg, R):
    m = M(cfg['m'], params(cfg['m'], cfg['tier'])[cfg['i']])
    k = cfg['m'] + '-'
    v2 = m.vol() ** 2
    R.check(v2 > 0, k + 'vol', 'volatility must be positive')
    for x in states(cfg['m'], cfg['tier']):
        x = float(x)
        ok, b = R.call(m.drift, x, key=k)
        ok2, db = R.call(m.ddrift, x, key=k)
        ok3, phi = R.call(m.disc, x, key=k)
        ok4, _ = R.call(m.sdrift, x, key=k)
        if not (ok and ok2 and ok3 and ok4):
            return
        R.near(diff(m.sdrift, x), b, 1e-6, k + 'antiderivative', 'derivative of sx_eval_drift against the drift', x=x, thi=m.p)
        R.near(diff(m.drift, x), db, 1e-6, k + 'derivative', 'derivative of the drift against dx_eval_drift', x=x, thi=m.p)
        R.near(phi, (float(b) ** 2 / v2 + float(db)) / 2, 1e-9, k + 'potential', 'potential', x=x, thi=m.p)
        R.state((phi, b, db))


def reduce_(cfg, R):
    m = M(cfg['m'], params(cfg['m'], cfg['tier'])[cfg['i']])
    k = cfg['m'] + '-'
    b, s = ref(cfg['m'], m.p)
    for v in states(cfg['m'], cfg['tier']):
        v = float(v)
        ok, x = R.call(m.reduce, np.array([v]), key=k)
        if not ok:
            return
        x = float(x[0])
        R.near(float(m.dereduce(np.array([x]))[0]), v, 1e-9, k + 'inverse', 'dereduce(reduce(v))', v=v)
        d1 = diff(m.reduce, v)
        R.near(float(m.dreduce(np.array([v]))[0]), d1, 1e-6, k + 'dreduce', 'derivative of the reduction', v=v)
        R.near(abs(d1) * s(v), m.vol(), 1e-6, k + 'volatility', 'volatility of the reduced process', v=v, thi=m.p)
        R.near(float(m.drift(x)), d1 * b(v) + diff(m.reduce, v, 2) * s(v) ** 2 / 2, 1e-5, k + 'reduced-drift', 'drift of the reduced process', v=v, thi=m.p)
        R.state((x, d1))


def bounds(cfg, R):
    m = M(cfg['m'], params(cfg['m'], cfg['tier'])[cfg['i']])
    k = cfg['m'] + '-'
    cir = cfg['m'] == 'ito.cir'
    g = states(cfg['m'], cfg['tier'])
    fine = np.geomspace(1e-3, 60, 4001) if cir else np.linspace(-12, 12, 4801)
    phi = np.array([float(m.disc(float(x))) for x in fine])
    ends = list(g[::1]) + ([60.0] if cir else [-12.0, 12.0])
    ends = sorted(set(map(float, ends)))
    edge = [(-math.inf, u) for u in ends[::4]] + [(l, math.inf) for l in ends[::4]] + [(-math.inf, math.inf)] if not cir else \
        [(0.0, u) for u in ends[::3]] + [(-.5, u) for u in ends[::3]]
    mono = cir and 4 * m.p[0] * m.p[1] < 3 * m.p[2] ** 2
    if mono:
        edge = []
    for l, u in [(a, b) for a, b in it.combinations(ends, 2)] + edge:
        ok, v = R.call(m.bounds, l, u, key=k)
        if not ok:
            return
        inf_, lo, hi = map(float, v)
        sel = (fine >= l) & (fine <= u)
        pts = phi[sel]
        for e in (l, u):
            if math.isfinite(e) and not (cir and e <= 0):
                pts = np.append(pts, float(m.disc(e)))
        tol = 1e-9 * (1 + np.max(np.abs(pts)))
        R.check(lo <= np.min(pts) + tol, k + 'lower', 'lower bound %.9g above the potential %.9g' % (lo, np.min(pts)), l=l, u=u, thi=m.p)
        R.check(hi >= np.max(pts) - tol, k + 'upper', 'upper bound %.9g below the potential %.9g' % (hi, np.max(pts)), l=l, u=u, thi=m.p)
        R.check(lo <= hi, k + 'order', 'bounds out of order', l=l, u=u, lo=lo, hi=hi)
        if not mono:
            R.check(inf_ <= np.min(phi) + tol and math.isfinite(inf_), k + 'global', 'global lower bound %.9g above the potential %.9g' % (inf_, np.min(phi)), thi=m.p)
            R.check(inf_ <= lo + tol, k + 'global-local', 'global lower bound above the local one', l=l, u=u)
        R.state((l, u, lo, hi))
    if not mono and hasattr(m.m, 'eval_inf_disc'):
        ok, v = R.call(m.m.eval_inf_disc, *m.a, key=k + 'inf-')
        if ok:
            R.check(math.isfinite(float(v)) and float(v) <= np.min(phi) + 1e-9 * (1 + abs(np.min(phi))), k + 'inf', 'eval_inf_disc above the potential', got=float(v), want=float(np.min(phi)))


def ops(cfg, R):
    m = M(cfg['m'], params(cfg['m'], cfg['tier'])[cfg['i']])
    k = cfg['m'] + '-'
    cir = cfg['m'] == 'ito.cir'
    vt = np.array([.6, 1.9, .2, .9]) if cir else np.array([.6, -1.9, .2, .2])
    for t in (np.array([0, .5, 1.7, 2.0]), np.array([3.0, 3.2, 7.0, 19.0])):
        ok, o = R.call(m.ops, t, vt, key=k)
        if not ok:
            return
        R.check(len(o) == 3, k + 'ops-count', 'one pair of maps per interval')
        xt = [float(m.reduce(np.array([v]))[0]) for v in vt]
        for (nf, inf), dt, x0, x1 in zip(o, np.diff(t), xt, xt[1:]):
            u = np.array([0, .1, .35, .8, 1.0]) * dt
            x = np.array([x0, .3, 2.0, 1.1, x1])
            s, z = nf(u, x)
            R.near(s, u / dt, 1e-12, k + 'ops-time', 'normalised times')
            R.near([z[0], z[-1]], [0, 0], 1e-9, k + 'ops-ends', 'the bridge ends are mapped to zero')
            R.near(z, (x - x0 - u / dt * (x1 - x0)) / (math.sqrt(dt) * m.vol()), 1e-9, k + 'ops-scale', 'normalised path is a standard bridge')
            b, y = inf(s, z)
            R.near(b, u, 1e-9, k + 'ops-inverse', 'times back')
            R.near(y, x, 1e-9, k + 'ops-inverse', 'values back')
            R.check(nf(u, None)[1] is None and inf(s, None)[1] is None, k + 'ops-none', 'times alone')
            R.near(nf(u, None)[0], s, 1e-12, k + 'ops-none', 'times alone')
            R.near(inf(s, None)[0], u, 1e-9, k + 'ops-none', 'times alone')
            R.state((s, z))


def grad(cfg, R):
    P = params(cfg['m'], cfg['tier'])
    p, q = P[cfg['i']], P[cfg['j']]
    a, b = M(cfg['m'], p), M(cfg['m'], q)
    k = cfg['m'] + '-grad'
    cir = cfg['m'] == 'ito.cir'
    dv = np.abs(p - q)
    upd = p != q
    S = np.linspace(0, 1, 9)
    for T in (.3, 1.0, 2.5):
        for v0, v1 in ((.6, 1.4), (2.0, .5), (1.0, 1.0)) if cir else ((.6, -1.4), (-2.0, .5), (1.0, 1.0)):
            for l, u in ((-.4, .7), (.9, -1.3), (-.2, 2.0)):
                ok, g = R.call(a.grad, q, T, v0, v1, l, u, key=k + '-')
                if not ok:
                    return
                g = np.asarray(g, float)
                if not R.check(g.shape == p.shape and np.all(np.isfinite(g)) and np.all(g >= 0), k + '-shape', 'one finite bound per parameter', got=g):
                    return
                lim = float(np.sum(dv[upd]) * np.sum(g[upd]))
                vt = np.array([v0, v1])
                (na, ia), = a.ops(np.array([0, T]), vt)
                (nb, ib), = b.ops(np.array([0, T]), vt)
                worst, at = 0.0, None
                for z in np.linspace(min(l, u), max(l, u), 21):
                    xa, xb = ia(S, np.full(9, z))[1], ib(S, np.full(9, z))[1]
                    okx = (xa > 0) & (xb > 0) if cir else np.ones(9, bool)
                    for x, y, s in zip(xa[okx], xb[okx], S[okx]):
                        d = abs(float(a.disc(float(x))) - float(b.disc(float(y))))
                        if d > worst:
                            worst, at = d, (float(s), float(z))
                R.check(worst <= lim * (1 + 1e-9) + 1e-12, k, 'potential changes by %.6g, more than the bound %.6g' % (worst, lim), thi=p, prime=q, T=T, v0=v0, v1=v1, l=l, u=u, at=at)
                R.state((T, v0, l, worst, lim))


def gradient(cfg, R):
    """reported derivative of the potential by the parameters, the normalised path and the end points held fixed"""
    name = cfg['m']
    k = name + '-gradient'
    if not hasattr(mod(name), 'eval_grad'):
        R.note('%s has no eval_grad' % name)
        return
    S, Z = np.array([.1, .5, .8]), np.array([-.3, .2, 1.1])
    for p in params(name, cfg['tier']):
        for T in (.3, 2.5):
            for v0, v1 in ((.6, 1.4), (2.0, .5)):
                ok, g = R.call(mod(name).eval_grad, p, T, v0, v1, S * T, Z, key=k + '-')
                if not ok:
                    return
                for i in range(p.size):
                    def phi(u):
                        q = p.copy()
                        q[i] = u
                        m = M(name, q)
                        (nf, inf), = m.ops(np.array([0, T]), np.array([v0, v1]))
                        return np.array([float(m.disc(float(x))) for x in inf(S, Z)[1]])
                    h = 1e-4
                    d = (8 * (phi(p[i] + h) - phi(p[i] - h)) - (phi(p[i] + 2 * h) - phi(p[i] - 2 * h))) / (12 * h)
                    R.near(np.broadcast_to(np.asarray(g[i], float), d.shape), d, 1e-6, k, 'derivative of the potential by parameter %d' % i, thi=p)


def vector(cfg, R):
    """arrays of states (and of regimes) give the same as one by one"""
    name = cfg['m']
    m = mod(name)
    k = name + '-vector-'
    xs = states(name, cfg['tier'])[::3]
    P = params(name, cfg['tier'])
    if not MODS[name]:
        for p in P:
            for f in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_disc', 'reduce', 'dereduce', 'dv_reduce'):
                fn = getattr(m, f)
                ok, v = R.call(fn, p, xs, key=k)
                if ok:
                    R.near(v, [float(fn(p, float(x))) for x in xs], 1e-12, k + f, 'vector against scalar', thi=p)
                    R.near(fn(p)(xs), v, 1e-15, k + 'curried', 'curried call')
                    R.state((f, v))
        return
    for th in (np.array([P[0], P[3], P[5]]), np.array([P[-1], P[1]])):
        n = len(th)
        for f in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_disc', 'eval_vol'):
            fn = getattr(m, f)
            vol = f == 'eval_vol'
            one = (lambda y, x: fn(th, y)) if vol else (lambda y, x: fn(th, y, x))
            yt = np.arange(len(xs)) % n
            ok, v = R.call(one, yt, xs, key=k)
            if ok:
                R.near(np.broadcast_to(np.asarray(v, float), xs.shape) if np.asarray(v).shape in ((), xs.shape) else v,
                       [float(one(int(y), float(x))) for y, x in zip(yt, xs)], 1e-12, k + f, 'vector of regimes and states against scalars', thi=th)
                R.state((f, v))
            for y in range(n):
                ok, v = R.call(one, y, xs, key=k)
                if ok:
                    R.near(np.broadcast_to(np.asarray(v, float), xs.shape) if np.asarray(v).shape in ((), xs.shape) else v,
                           [float(one(y, float(x))) for x in xs], 1e-12, k + f, 'vector of states against scalars', thi=th)
        # a regime's functions do not depend on the other regimes
        other = th.copy()
        other[1:] *= 1.9
        for x in xs[:5]:
            for f in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_disc'):
                R.near(float(getattr(m, f)(other, 0, float(x))), float(getattr(m, f)(th, 0, float(x))), 1e-12, k + 'own-regime', 'depends on the parameters of another regime')
            R.near(m.eval_bounds_disc(other, 0, -1.0, float(abs(x) + 1)), m.eval_bounds_disc(th, 0, -1.0, float(abs(x) + 1)), 1e-12, k + 'own-regime-bounds', 'depends on the parameters of another regime')


def prior(cfg, R):
    name = cfg['m']
    m = mod(name)
    k = name + '-prior'
    P = params(name, cfg['tier'])
    for p in P:
        full = np.array([p, p * 1.3]) if MODS[name] else p
        ok, v = R.call(m.eval_log_prior, full, key=k + '-')
        if ok:
            R.check(np.shape(v) == () and math.isfinite(float(v)), k, 'log prior of an admissible parameter is a finite number', got=v)
        for i in range(p.size):
            bad = full.copy()
            bad[(0, i) if MODS[name] else i] = -.3
            ok, v = R.call(m.eval_log_prior, bad, key=k + '-')
            if ok:
                R.check(v == -math.inf, k + '-outside', 'log prior outside the admissible set', thi=bad, got=v)
        R.state((p, v))


def hyper(cfg, R):
    """declared bounds and start are consistent"""
    name = cfg['m']
    m = mod(name)
    k = name + '-declared'
    th, (lb, ub) = np.asarray(m.init_thi, float), m.bounds_thi
    R.check(len(lb) == len(ub) == len(th) == params(name, 'quick')[0].size, k, 'one bound per parameter')
    R.check(np.all(lb < th) and np.all(th < ub), k, 'the start is inside the bounds', init=th, lb=lb, ub=ub)
    full = np.repeat(th[None], 2, 0) if MODS[name] else th
    R.check(math.isfinite(float(m.eval_log_prior(full))), k, 'finite prior at the start')
    R.check(m.bounds_x[0] < m.bounds_x[1], k, 'bounds of the reduced process')
    R.state(th)
