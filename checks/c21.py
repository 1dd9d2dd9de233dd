"""C21: path weights and biased likelihoods combine to the exact transition density."""
import importlib
import inspect
import itertools as it
import math

import numpy as np
from scipy import special, stats

from ctbayes.ea3lib import seed as Z
from ctbayes.ito import mcem as IE, static as IS
from ctbayes.misc import ars
from ctbayes.mjplib import skeleton as K
from ctbayes.switching import mcem as SE, static as SS
from mc import engine, harness

RULE = 'every parameter, observation pattern and regime path of a grid, for the supplied models and for models assembled from other drifts and reductions: the closed-form part plus the exact log-expectation of the path functional (solution of the Feynman-Kac equation for the potential the code reports) against the exact transition density; all anchor draws of the augmentation on a quadrature menu; estimators explored over every number of potential evaluations'
BOUNDS = {'quick': '4 diffusions (3 to 4 parameters, 4 observation patterns), 5 switching models (2 to 3 parameters, 9 regime paths with up to 4 switches, 3 observation patterns), up to 3 anchors per interval with 7 to 15 nodes each',
          'thorough': 'twice the parameters and observation patterns, 11 to 25 nodes'}
ASSUME = ['the stated processes are those of C20', 'cir is judged where its zero boundary is not reached']


# ---- exact kernels

_eig = {}


def kernel(disc, vol, x0, x1, dt, key):
    """log kernel of exp(-dt H), H = -vol^2/2 d2/dx2 + disc: closed form for a quadratic potential, otherwise spectral"""
    xs = np.array([-2.0, -.7, 0.1, .9, 2.1, 3.0])
    y = np.asarray(disc(xs), float) + 0 * xs
    (a, b, c), *_ = np.linalg.lstsq(np.stack([xs ** 2, xs, np.ones(6)], 1), y, rcond=None)
    if np.max(np.abs(a * xs ** 2 + b * xs + c - y)) > 1e-9 * (1 + np.max(np.abs(y))) or a < -1e-9:
        return math.log(spectral(disc, vol, x0, x1, dt, key))
    if a < 1e-9:
        if abs(b) > 1e-9:
            return math.log(spectral(disc, vol, x0, x1, dt, key))
        return lbm(x1 - x0, vol * vol * dt) - c * dt
    u, v, om = x0 + b / (2 * a), x1 + b / (2 * a), vol * math.sqrt(2 * a)
    sh = math.sinh(om * dt)
    return .5 * math.log(om / (2 * math.pi * vol ** 2 * sh)) - om / (2 * vol ** 2) * ((u * u + v * v) / math.tanh(om * dt) - 2 * u * v / sh) - (c - b * b / (4 * a)) * dt


def spectral(disc, vol, x0, x1, dt, key):
    """the same with a sinc basis, for any potential"""
    r = 2.5 + 5 * vol
    n = int(2 * r / (.055 * vol)) + 1
    x = np.linspace(-r, r, n)
    dx = x[1] - x[0]
    if key not in _eig:
        if len(_eig) > 40:
            _eig.clear()
        i = np.arange(n)
        d = i[:, None] - i[None]
        with np.errstate(divide='ignore'):
            kin = np.where(d == 0, math.pi ** 2 / 6, (-1.0) ** np.abs(d) / np.where(d == 0, 1, d) ** 2) / dx ** 2
        _eig[key] = np.linalg.eigh(vol ** 2 * kin + np.diag(np.broadcast_to(np.asarray(disc(x), float), x.shape)))
    e, v = _eig[key]
    a, b = [v.T @ np.sinc((q - x) / dx) / math.sqrt(dx) for q in (x0, x1)]
    return float(np.sum(a * b * np.exp(-dt * e)))


def kernel_radial(disc, x0, x1, dt):
    """the same for disc = (nu^2 - 1/4) / (2 x^2) + om^2 x^2 / 2 + c on the half line; None if disc is not of this form"""
    xs = np.array([.4, 1.0, 2.3, .7, 3.1, 1.6])
    A = np.stack([1 / xs ** 2, xs ** 2, np.ones(6)], 1)
    y = np.array([float(disc(q)) for q in xs])
    (a, b, c), *_ = np.linalg.lstsq(A, y, rcond=None)
    if np.max(np.abs(A @ [a, b, c] - y)) > 1e-8 * (1 + np.max(np.abs(y))) or 2 * a + .25 < 0 or b <= 0:
        return None
    nu, om = math.sqrt(2 * a + .25), math.sqrt(2 * b)
    sh = math.sinh(om * dt)
    arg = om * x0 * x1 / sh
    return math.log(om * math.sqrt(x0 * x1) / sh * special.ive(nu, arg)) + arg - om / 2 * (x0 ** 2 + x1 ** 2) / math.tanh(om * dt) - c * dt


def lbm(d, v):
    return -.5 * math.log(2 * math.pi * v) - d * d / (2 * v)


# ---- diffusions

class Ito(object):
    half = False
    grid = dict()

    def model(self):
        return importlib.import_module('ctbayes.ito.models.' + self.name)


class Ou(Ito):
    name = 'ou'
    thi = [(.6, 1.0), (1.7, .5), (1.0, 1.3), (.2, .8), (3.0, 1.6), (.9, .7)]
    obs = [([0, .7], [.3, -.5]), ([0, .3, 1.4], [.2, 1.1, -.4]), ([.5, 1.0, 1.3, 2.6], [-1.0, .2, .1, .8]), ([0, 2.0], [0.0, 1.5])]

    def logp(self, p, v0, v1, dt):
        b, s = p
        return stats.norm.logpdf(v1, v0 * math.exp(-b * dt), s * math.sqrt((1 - math.exp(-2 * b * dt)) / (2 * b)))


class Cir(Ito):
    name, half = 'cir', True
    thi = [(1.0, 1.0, .7), (.5, 2.0, 1.1), (2.0, .6, .4), (1.0, 1.0, 1.0), (.4, 1.5, .3), (1.5, .5, 1.1)]
    obs = [([0, .7], [.8, 1.3]), ([0, .3, 1.4], [1.0, .6, 2.0]), ([.5, 1.0, 1.3, 2.6], [.4, 1.2, 1.1, .9]), ([0, 2.0], [2.5, .5])]

    def logp(self, p, v0, v1, dt):
        b, m, s = p
        c = 2 * b / (s * s * (1 - math.exp(-b * dt)))
        return math.log(2 * c) + stats.ncx2.logpdf(2 * c * v1, 4 * b * m / s ** 2, 2 * c * v0 * math.exp(-b * dt))


def build_ito(drift, sdrift, ddrift, reduce, dereduce, dv, bounds=lambda t, l, u: (0, 0, 0)):
    names = ['eval_disc', 'eval_biased_log_lik', 'sample_aug', 'gen_normops', 'sample_sde', 'maximize_posterior', 'sample_posterior']
    from toolz import curry
    out = IS.assemble_model(np.ones(2), (-np.inf, np.inf), (None, None), curry(reduce), curry(dereduce), curry(dv), curry(drift), curry(sdrift), curry(ddrift),
                            curry(bounds), curry(lambda a, b, *r: np.zeros(2)), lambda t: 0.0)
    return type('M', (), dict(zip(names, map(staticmethod, out)), eval_drift=staticmethod(drift), reduce=staticmethod(reduce), bounds_x=(-np.inf, np.inf)))


class Logou(Ou):
    """logarithm (scaled by the volatility) of the observation is an OU process around a mean"""
    name = 'logou'
    thi = [(.6, 1.0), (1.3, .5), (.8, 1.3), (1.1, .7)]
    obs = [([0, .7], [.8, 1.3]), ([0, .3, 1.4], [1.0, .6, 2.0]), ([.5, 1.0, 1.3, 2.6], [.4, 1.2, 1.1, .9])]

    def model(self):
        return build_ito(lambda t, x: t[0] * (.3 - x), lambda t, x: t[0] * (.3 * x - np.square(x) / 2), lambda t, x: -t[0] + 0 * x,
                         lambda t, v: np.log(v) / t[1], lambda t, x: np.exp(t[1] * x), lambda t, v: 1 / (v * t[1]))

    def logp(self, p, v0, v1, dt):
        b, s = p
        x0, x1 = math.log(v0) / s, math.log(v1) / s
        return stats.norm.logpdf(x1, .3 + (x0 - .3) * math.exp(-b * dt), math.sqrt((1 - math.exp(-2 * b * dt)) / (2 * b))) - math.log(v1 * s)


class Tanh(Ou):
    """drift k tanh(k x + a): a mixture of two drifting Brownian motions, with a decreasing reduction"""
    name = 'tanh'
    thi = [(.6, 1.0), (1.3, -.5), (.8, .2), (1.1, 0.0)]

    def model(self):
        return build_ito(lambda t, x: t[0] * np.tanh(t[0] * x + t[1]), lambda t, x: np.log(np.cosh(t[0] * x + t[1])), lambda t, x: t[0] ** 2 / np.square(np.cosh(t[0] * x + t[1])),
                         lambda t, v: -2 * v, lambda t, x: -x / 2, lambda t, v: -2 + 0 * v)

    def logp(self, p, v0, v1, dt):
        k, a = p
        x0, x1 = -2 * v0, -2 * v1
        return lbm(x1 - x0, dt) + math.log(np.cosh(k * x1 + a) / np.cosh(k * x0 + a)) - k * k * dt / 2 + math.log(2)


ITO = {c.name: c for c in (Ou, Cir, Logou, Tanh)}


# ---- switching diffusions

def build_sw(drift, sdrift, ddrift, vol, reduce, dereduce, dv, bounds=lambda t, y, l, u: (0, 0, 0), init=np.ones(2)):
    names = ['eval_disc', 'eval_biased_log_lik', 'sample_aug', 'gen_normops', 'maximize_posterior', 'sample_posterior']
    from toolz import curry
    out = SS.assemble_model(init, (-np.inf, np.inf), (None, None), reduce, dereduce, dv, curry(drift), curry(sdrift), curry(ddrift), curry(vol),
                            curry(bounds), curry(lambda a, b, *r: np.zeros(2)), lambda t: 0.0)
    return type('M', (), dict(zip(names, map(staticmethod, out)), eval_vol=staticmethod(vol), reduce=staticmethod(reduce)))


class Sw(object):
    thi = [[(.6, 1.0), (1.7, .7), (1.0, 1.3)], [(.3, 1.4), (1.2, .8), (.9, 1.0)], [(1.0, 1.0), (.5, 1.8), (1.6, .6)], [(.8, .9), (.8, .9), (2.1, 1.2)]]
    obs = [([0, .9], [.3, -.5]), ([0, .5, 1.7], [.2, 1.1, -.4]), ([0, .4, 1.3, 1.9], [-1.0, .2, .1, .8]), ([0, 1.3], [.5, .6])]

    def model(self):
        return importlib.import_module('ctbayes.switching.models.' + self.name)

    def par(self, p):
        """rate, volatility"""
        return {'ou': lambda a, g: (a, 1 / g), 'ou2': lambda b, l: (b, b / l), 'ou3': lambda r, l: (r * l, r)}[self.name](*p)

    def logp(self, p, v0, v1, dt):
        b, s = self.par(p)
        return stats.norm.logpdf(v1, v0 * math.exp(-b * dt), s * math.sqrt((1 - math.exp(-2 * b * dt)) / (2 * b)))

    def vol(self, p):
        return self.par(p)[1]

    def red(self, v):
        return v

    def lder(self, v):
        return 0.0


class SOu(Sw): name = 'ou'


class SOu2(Sw): name = 'ou2'


class SOu3(Sw): name = 'ou3'


class SLog(Sw):
    """logarithm of the observation reverts to a level that depends on the regime"""
    name = 'log'
    obs = [([0, .9], [.8, 1.3]), ([0, .5, 1.7], [1.0, .6, 2.0]), ([0, .4, 1.3, 1.9], [.4, 1.2, 1.1, .9]), ([0, 1.3], [1.5, .7])]
    LEV = np.array([.5, -.3, .1])

    def model(self):
        L = self.LEV
        return build_sw(lambda t, y, x: t[y, 0] * (L[y] - x), lambda t, y, x: t[y, 0] * (L[y] * x - np.square(x) / 2), lambda t, y, x: -t[y, 0] + 0 * x, lambda t, y: t[y, 1],
                        lambda v: np.log(v), lambda x: np.exp(x), lambda v: 1 / v)

    def par(self, p): return p

    def red(self, v): return math.log(v)

    def lder(self, v): return -math.log(v)

    def logp(self, p, v0, v1, dt, y=0):
        b, s = p
        x0, x1 = math.log(v0), math.log(v1)
        l = self.LEV[y]
        return stats.norm.logpdf(x1, l + (x0 - l) * math.exp(-b * dt), s * math.sqrt((1 - math.exp(-2 * b * dt)) / (2 * b))) - x1


class SDrift(Sw):
    """constant drift and volatility by regime, with a decreasing reduction"""
    name = 'drift'

    def model(self, bounds=lambda t, y, l, u: (0, 0, 0)):
        return build_sw(lambda t, y, x: t[y, 0] + 0 * x, lambda t, y, x: t[y, 0] * x, lambda t, y, x: 0 * x, lambda t, y: t[y, 1],
                        lambda v: -v / 2, lambda x: -2 * x, lambda v: -.5 + 0 * v, bounds)

    def par(self, p): return p

    def red(self, v): return -v / 2

    def lder(self, v): return -math.log(2)

    def logp(self, p, v0, v1, dt):
        return stats.norm.logpdf(-v1 / 2, -v0 / 2 + p[0] * dt, p[1] * math.sqrt(dt)) - math.log(2)


SW = {c.name: c for c in (SOu, SOu2, SOu3, SLog, SDrift)}
# regime paths over the unit span: times as fractions of the last observation time
PATHS = [([0], [0]), ([0, .37], [1, 0]), ([0, .83], [0, 2]), ([0, .11, .47], [0, 1, 0]), ([0, .52, .6], [2, 0, 1]), ([0, .62, .75, .81], [0, 1, 2, 0]), ([0, .13, .24, .91], [1, 2, 0, 1]),
         ([0, .07, .33, .57, .88], [2, 1, 0, 1, 2]), ([0], [2])]


def configs(tier, seed):
    big = tier != 'quick'
    for name, c in ITO.items():
        for i in range(len(c.thi) if big else min(3, len(c.thi))):
            for j in range(len(c.obs)):
                yield dict(kind='ito', m=name, i=i, j=j)
            yield dict(kind='endpt', m=name, i=i)
    for name, c in SW.items():
        for i in range(len(c.thi) if big else 2):
            for j in range(len(c.obs) if big else 3):
                for k in range(len(PATHS)):
                    yield dict(kind='sections', m=name, i=i, j=j, k=k)
                    yield dict(kind='anchors', m=name, i=i, j=j, k=k, big=big)
    for k in range(len(PATHS)):
        yield dict(kind='est', k=k, j=k % 3)
        yield dict(kind='estlog', k=k, j=(k + 1) % 3, m=list(SW)[k % 5], i=k % 2)
    for j in range(3):
        yield dict(kind='estito', j=j)
        yield dict(kind='estlogito', j=j, i=j)


def run(cfg, R):
    globals()[cfg['kind']](cfg, R)


def ito(cfg, R):
    c = ITO[cfg['m']]()
    m = c.model()
    p = np.array(c.thi[cfg['i']], float)
    t, v = c.obs[cfg['j']]
    t, v = np.array(t, float), np.array(v, float)
    ok, got = R.call(m.eval_biased_log_lik, p, t, v, key='ito.')
    if not ok:
        return
    x = [float(m.reduce(p, np.array([q]))[0]) for q in v]
    disc = m.eval_disc(p)
    want, lf = 0.0, 0.0
    for i in range(len(t) - 1):
        dt = t[i + 1] - t[i]
        k = kernel_radial(disc, x[i], x[i + 1], dt) if c.half else kernel(disc, 1.0, x[i], x[i + 1], dt, (c.name, cfg['i']))
        if k is None:
            R.fail('ito.form', 'potential is not that of a radial process', m=cfg['m'])
            return
        lf += k - lbm(x[i + 1] - x[i], dt)
        want += c.logp(p, v[i], v[i + 1], dt)
        ok, part = R.call(m.eval_biased_log_lik, p, t[i:i + 2], v[i:i + 2], key='ito.')
        if ok:
            R.near(part + k - lbm(x[i + 1] - x[i], dt), c.logp(p, v[i], v[i + 1], dt), 1e-6, 'ito.%s' % cfg['m'], 'log transition density', p=p, t=t, v=v, i=i)
    R.near(got + lf, want, 1e-6, 'ito.%s' % cfg['m'], 'log likelihood from the closed form and the path functional', p=p, t=t, v=v)
    R.check(np.ndim(got) == 0, 'ito.shape', 'the log likelihood is a number')
    R.state((cfg['m'], cfg['i'], cfg['j'], float(got)))


LOGC = ars.sample
SIGA = inspect.signature(LOGC)


def endpt(cfg, R):
    """the end point density used in simulation times the path functional is proportional to the transition density"""
    c = ITO[cfg['m']]()
    m = c.model()
    p = np.array(c.thi[cfg['i']], float)
    seen = []

    def stub(*a, **kw):
        b = SIGA.bind(*a, **kw)
        b.apply_defaults()
        seen.append(b.arguments)
        return iter([.7])
    for fin, v0, vs in ((.8, .9, (.4, 1.1, 1.9, .7)), (1.7, .5, (.3, 1.3, .8))):
        del seen[:]
        with engine.replaced((LOGC, stub)):
            ok, _ = R.call(lambda: m.sample_sde(p, np.array([0.0, fin]), fin, v0, None, np.random.default_rng(1)), key='endpt.')
        if not ok:
            continue
        if not seen:
            R.note('end points are not drawn by the log-concave sampler')
            continue
        f, df = list(seen[0].values())[:2]
        x0 = float(m.reduce(p, np.array([v0]))[0])
        disc = m.eval_disc(p)
        const = []
        for v in vs:
            x = float(m.reduce(p, np.array([v]))[0])
            k = kernel_radial(disc, x0, x, fin) if c.half else kernel(disc, 1.0, x0, x, fin, (c.name, cfg['i']))
            jac = math.log(abs(float(m.reduce(p, np.array([v + 1e-6]))[0] - m.reduce(p, np.array([v - 1e-6]))[0]) / 2e-6))
            const.append(float(f(x)) + k - lbm(x - x0, fin) + jac - c.logp(p, v0, v, fin))
            R.near(float(df(x)), (float(f(x + 1e-5)) - float(f(x - 1e-5))) / 2e-5, 1e-5, 'endpt.gradient', 'derivative of the log density of the end point', m=cfg['m'], x=x)
            R.state((cfg['m'], cfg['i'], fin, v))
        R.near(const, [const[0]] * len(const), 1e-5, 'endpt.density', 'end point density times path functional relative to the transition density', m=cfg['m'], p=p, fin=fin)


def setting(cfg):
    c = SW[cfg['m']]()
    thi = np.array(c.thi[cfg['i']], float)
    t, v = c.obs[cfg['j']]
    t, v = np.array(t, float), np.array(v, float)
    s, y = PATHS[cfg['k']]
    skel = K.Skeleton(np.array(s, float) * t[-1], np.array(y), t[-1])
    return c, thi, t, v, skel


def nodes(t, skel, start=0.0):
    """times and regimes of all anchors, by definition; and which of them are observations"""
    tt = np.array(sorted(set(t.tolist()) | set(skel.t.tolist())))
    yt = np.array([int(skel.xt[np.searchsorted(skel.t, q, 'right') - 1]) for q in tt[:-1]] + [int(skel.xt[-1])])
    return tt, yt, np.array([q in set(t.tolist()) for q in tt])


def true_logp(c, p, v0, v1, dt, y):
    return c.logp(p, v0, v1, dt, y) if c.name == 'log' else c.logp(p, v0, v1, dt)


def lfk(c, m, thi, y, v0, v1, dt, tag):
    """log-expectation of the path functional on one section"""
    x0, x1, s = c.red(v0), c.red(v1), c.vol(thi[y])
    if c.name == 'drift':
        return -dt * float(np.asarray(m.eval_disc(thi, y, np.array([.3])))[0])
    k = kernel(m.eval_disc(thi, y), s, x0, x1, dt, (c.name, tag, y))
    return k - lbm(x1 - x0, s * s * dt)


def sections(cfg, R):
    c, thi, t, v, skel = setting(cfg)
    m = c.model()
    tt, yt, isob = nodes(t, skel)
    for var in range(2):
        vt = np.interp(tt, t, v)
        vt[~isob] = vt[~isob] + (.25 if var else -.15) * np.cos(3 * np.arange(np.sum(~isob)) + var)
        ok, got = R.call(m.eval_biased_log_lik, thi, tt, yt, vt, key='sections.')
        if not ok:
            return
        first, second = got
        pr, fk, bm = [], [], []
        for i in range(len(tt) - 1):
            dt, y = tt[i + 1] - tt[i], int(yt[i])
            pr.append(true_logp(c, thi[y], vt[i], vt[i + 1], dt, y))
            fk.append(lfk(c, m, thi, y, vt[i], vt[i + 1], dt, cfg['i']))
            bm.append(lbm(c.red(vt[i + 1]) - c.red(vt[i]), c.vol(thi[y]) ** 2 * dt) + c.lder(vt[i + 1]))
        R.near(first + sum(fk), sum(pr), 1e-6, 'sections.joint', 'closed form and path functional against the density of anchors and observations', m=cfg['m'], thi=thi, tt=tt, yt=yt, vt=vt)
        # the second part takes out the bridge law of the anchors given the observations
        ob = np.where(isob)[0]
        br = 0.0
        for a, b in zip(ob, ob[1:]):
            sg = sum(c.vol(thi[int(yt[i])]) ** 2 * (tt[i + 1] - tt[i]) for i in range(a, b))
            br += sum(bm[a:b]) - (lbm(c.red(vt[b]) - c.red(vt[a]), sg) + c.lder(vt[b]))
        R.near(second, -br, 1e-8, 'sections.bridge', 'second part against minus the log density of the anchors', m=cfg['m'], tt=tt, yt=yt, vt=vt)
        # regimes
        tot = 0.0
        for r in range(3):
            ok, g = R.call(m.eval_biased_log_lik, thi, tt, yt, vt, r, key='sections.')
            if not ok:
                return
            sel = [i for i in range(len(tt) - 1) if yt[i] == r]
            R.near(g[0] + sum(fk[i] for i in sel), sum(pr[i] for i in sel), 1e-6, 'sections.regime', 'closed form of one regime against the density of its sections', m=cfg['m'], r=r, tt=tt, yt=yt)
            tot += g[0]
            for r2 in range(3):
                if r2 != r:
                    other = thi.copy()
                    other[r2] *= 1.3
                    ok, g2 = R.call(m.eval_biased_log_lik, other, tt, yt, vt, r, key='sections.')
                    if ok:
                        R.near(g2[0], g[0], 1e-12, 'sections.depends', 'closed form of one regime does not depend on the parameters of another', m=cfg['m'])
        R.near(tot, first, 1e-9, 'sections.split', 'regimes add up', m=cfg['m'], tt=tt, yt=yt)
        R.state((cfg['m'], cfg['i'], cfg['j'], cfg['k'], var, float(first)))


RAW = Z.sample_raw_seed


def anchors(cfg, R):
    """sample_aug: law of the anchors, and the exact likelihood given the regime path as an average over them"""
    c, thi, t, v, skel = setting(cfg)
    m = c.model()
    tt, yt, isob = nodes(t, skel)
    n = int(np.sum(~isob))
    q = {0: 1, 1: 15, 2: 11, 3: 9, 4: 6}[n] if not cfg['big'] else {0: 1, 1: 25, 2: 21, 3: 15, 4: 9}[n]
    dummy = Z.SeedSkeleton(np.array([0.0, .5, 1]), np.array([0.0, .2, 0]), .2, -1.0, 0.0, None)
    calls = []

    def raw(*a, **kw):
        calls.append(1)
        return dummy

    def fn(g):
        del calls[:]
        z, h = m.sample_aug(thi, skel, t, v, g)
        return np.array(h.t, float), np.array(h.yt), np.array(h.vt, float), len(z), len(calls)
    with engine.replaced((RAW, raw)):
        lv = R.explore(fn, key='anchors.', K={'normal': q}, eps=1e-12, observe=False)
    if not lv:
        return
    if R.last.pruned > 1e-6 or any(l.inexact for l in lv):
        R.note('anchor draws not fully resolved')
        return
    mass = sum(l.w for l in lv)
    good = True
    for l in lv:
        ht, hy, hv, nz, nc = l.val
        good = good and R.near(ht, tt, 1e-12, 'anchors.times', 'anchor times are the observations and switches', m=cfg['m']) and R.check(hy.tolist() == yt.tolist(), 'anchors.regimes', 'regime from each anchor', got=hy, want=yt)
        good = good and R.near(hv[isob], v, 1e-9, 'anchors.observations', 'observations are kept', m=cfg['m']) and R.check(nz == len(tt) - 1, 'anchors.segments', 'one path per section', got=nz)
        R.state((cfg['m'], cfg['i'], cfg['j'], cfg['k'], tuple(np.round(hv, 9))))
        if not good:
            return
    # law of reduced anchors: Gaussian bridge in the clock of the squared volatility
    X = np.array([[c.red(q_) for q_ in l.val[2]] for l in lv])
    W = np.array([l.w for l in lv]) / mass
    mu = W @ X
    cov = (X - mu).T @ (W[:, None] * (X - mu))
    clock = np.concatenate([[0], np.cumsum([c.vol(thi[int(yt[i])]) ** 2 * (tt[i + 1] - tt[i]) for i in range(len(tt) - 1)])])
    ob = np.where(isob)[0]
    emu, ecov = np.zeros(len(tt)), np.zeros((len(tt), len(tt)))
    for a, b in zip(ob, ob[1:]):
        L = clock[b] - clock[a]
        for i in range(a, b + 1):
            u = (clock[i] - clock[a]) / L
            emu[i] = c.red(v[list(ob).index(a)]) * (1 - u) + c.red(v[list(ob).index(b)]) * u
            for j in range(i, b + 1):
                ecov[i, j] = ecov[j, i] = (clock[i] - clock[a]) * (clock[b] - clock[j]) / L
    R.near(mu, emu, 1e-7, 'anchors.mean', 'mean of the anchors', m=cfg['m'], tt=tt, yt=yt)
    R.near(cov, ecov, 1e-7, 'anchors.covariance', 'covariance of the anchors', m=cfg['m'], tt=tt, yt=yt)
    if n:
        s3 = np.sqrt(np.diag(ecov))[~isob]
        R.near(W @ ((X - emu)[:, ~isob] / s3) ** 4, [3.0] * n, 1e-5, 'anchors.kurtosis', 'anchors are normal', m=cfg['m'])
    # likelihood given the regime path
    if n <= 3:
        est = 0.0
        for l in lv:
            hv = l.val[2]
            ok, (a, b) = R.call(m.eval_biased_log_lik, thi, tt, yt, hv, key='anchors.')
            if not ok:
                return
            est += l.w / mass * math.exp(a + b + sum(lfk(c, m, thi, int(yt[i]), hv[i], hv[i + 1], tt[i + 1] - tt[i], cfg['i']) for i in range(len(tt) - 1)))
        R.near(math.log(est), path_logp(c, thi, tt, yt, isob, v), 2e-4 if not cfg['big'] else 1e-4, 'anchors.likelihood', 'likelihood of the observations given the regime path, averaged over the anchors', m=cfg['m'], thi=thi, tt=tt, yt=yt)


def path_logp(c, thi, tt, yt, isob, v):
    """exact Gaussian likelihood of the reduced observations given the regime path"""
    x = [c.red(q) for q in v]
    out, k = 0.0, 0
    mean, var = x[0], 0.0
    for i in range(len(tt) - 1):
        p, dt, y = thi[int(yt[i])], tt[i + 1] - tt[i], int(yt[i])
        if c.name == 'drift':
            mean, var = mean + p[0] * dt, var + p[1] ** 2 * dt
        else:
            b, s = c.par(p)
            l = c.LEV[y] if c.name == 'log' else 0.0
            e = math.exp(-b * dt)
            mean, var = l + (mean - l) * e, var * e * e + s * s * (1 - e * e) / (2 * b)
        if isob[i + 1]:
            k += 1
            out += lbm(x[k] - mean, var) + c.lder(v[k])
            mean, var = x[k], 0.0
    return out


# ---- the estimators used in expectation maximisation

INT = Z.interpolate_seed
SIGI = inspect.signature(INT)


def bnd(t, y, l, u):
    c = (t[y, 0] / t[y, 1]) ** 2 / 2
    return c - .6, c - .12 - .03 * y, c + .1 + .04 * y


def mark(z):
    return z._replace(hit_z=z.hit_z + 1.0)


def blank(i):
    return Z.SeedSkeleton(np.array([0.0, .5, 1.0]), np.array([0.0, .2 + i, 0.0]), .2 + i, -1.0 - i, 0.0, None)


def interp(*a, **kw):
    b = SIGI.bind(*a, **kw).arguments
    return mark(b['seed']), np.zeros(len(b['new_t']))


def est(cfg, R):
    """constant potential with loose bounds: the estimate averages to the exact weight"""
    c = SDrift()
    m = c.model(bnd)
    t, v = c.obs[cfg['j']]
    t, v = np.array(t, float), np.array(v, float)
    thi = np.array(c.thi[0], float) * .6
    s, y = PATHS[cfg['k']]
    skel = K.Skeleton(np.array(s, float) * t[-1], np.array(y), t[-1])
    tt, yt, isob = nodes(t, skel)
    vt = np.interp(tt, t, v) + .1 * ~isob
    from ctbayes.switching import types as T
    h = T.Anchorage(tt, yt, vt)
    mod = SE.Model(t, v, (None, None), None, lambda q: 0.0, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, None)
    from toolz import curry
    mod = mod._replace(eval_bounds_disc=curry(bnd))
    z = [blank(i) for i in range(len(tt) - 1)]

    def fn(g):
        val, new = SE.est_aug_lik(thi, z, h, mod, g)
        return float(val), [(float(q.tight_z), float(q.hit_z)) for q in new]
    with engine.replaced((INT, interp)):
        lv = R.explore(fn, key='est.', K={'uniform': 1}, eps=5e-6, observe=False, nmax_poisson=6, tail=1e-6)
    if not lv:
        return
    a, b = m.eval_biased_log_lik(thi, tt, yt, vt)
    want = math.exp(a + b - sum((thi[yt[i], 0] / thi[yt[i], 1]) ** 2 / 2 * (tt[i + 1] - tt[i]) for i in range(len(tt) - 1)))
    got = sum(l.w * math.exp(l.val[0]) for l in lv)
    R.near(got / want, 1.0, 20 * R.last.pruned + 1e-6, 'est.mean', 'average of the estimated likelihood against the likelihood', k=cfg['k'], pruned=R.last.pruned)
    for l in lv[:300]:
        R.check([q[0] for q in l.val[1]] == [.2 + i for i in range(len(z))], 'est.paths', 'paths stay in order', got=l.val[1])
        R.state(tuple(q[1] for q in l.val[1]))


def estito(cfg, R):
    c = Tanh()
    from toolz import curry
    fb = curry(lambda t, l, u: (t[0] ** 2 / 2 - .5, t[0] ** 2 / 2 - .2, t[0] ** 2 / 2 + .4))
    m = build_ito(lambda t, x: t[0] * np.tanh(t[0] * x + t[1]), lambda t, x: np.log(np.cosh(t[0] * x + t[1])), lambda t, x: t[0] ** 2 / np.square(np.cosh(t[0] * x + t[1])),
                  lambda t, v: -2 * v, lambda t, x: -x / 2, lambda t, v: -2 + 0 * v)
    t, v = c.obs[cfg['j']]
    t, v = np.array(t, float), np.array(v, float)
    p = np.array(c.thi[0])
    mod = IE.Model(t, v, (None, None), lambda q: 0.0, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, fb)
    z = [blank(i) for i in range(len(t) - 1)]

    def fn(g):
        val, new = IE.est_aug_lik(p, z, mod, g)
        return float(val), [(float(q.tight_z), float(q.hit_z)) for q in new]
    with engine.replaced((INT, interp)):
        lv = R.explore(fn, key='est.', K={'uniform': 1}, eps=1e-7, observe=False, nmax_poisson=10)
    if not lv:
        return
    want = math.exp(sum(c.logp(p, v[i], v[i + 1], t[i + 1] - t[i]) for i in range(len(t) - 1)))
    R.near(sum(l.w * math.exp(l.val[0]) for l in lv) / want, 1.0, 20 * R.last.pruned + 1e-6, 'est.ito', 'average of the estimated likelihood against the transition density', j=cfg['j'])
    for l in lv[:300]:
        R.check([q[0] for q in l.val[1]] == [.2 + i for i in range(len(z))], 'est.paths', 'paths stay in order', got=l.val[1])
        R.state(tuple(q[1] for q in l.val[1]))


class Silent(object):
    """a generator nobody may draw from"""

    def __getattr__(self, k):
        raise engine.EngineError('not modelled: draw from the generator (%s)' % k)


def known_seed(s, i):
    """a path revealed at the given relative times"""
    s = np.concatenate([[0.0], s, [1.0]])
    z = np.concatenate([[0.0], .3 * np.sin(2.0 * np.arange(1, len(s) - 1) + i), [0.0]])
    return Z.SeedSkeleton(s, z, float(np.min(z)) if i % 2 else float(np.max(z)), 2.0 if i % 2 else -2.0, 1.0 if i % 2 else -1.0, None)


def same(p, q):
    return np.allclose(np.interp(q.s, p.s, p.z), q.z, atol=1e-7) and np.allclose(np.interp(p.s, q.s, q.z), p.z, atol=1e-7)


def estlog(cfg, R):
    """at revealed times the discretised estimate is determined: it adds closed form and time average of the potential"""
    c = SW[cfg['m']]()
    m = c.model()
    _, thi, t, v, skel = setting(cfg)
    tt, yt, isob = nodes(t, skel)
    vt = np.interp(tt, t, v) + .1 * ~isob
    from ctbayes.switching import types as T
    h = T.Anchorage(tt, yt, vt)
    mod = SE.Model(t, v, (None, None), None, lambda q: 0.0, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, None)
    for nsup in (1, 2, 3):
        sup, zz = [], []
        for i, dt in enumerate(np.diff(tt)):
            sp = dt * (np.arange(nsup) + .37) / nsup
            sup.append(sp)
            ops = m.gen_normops(thi, *h)
            zz.append(known_seed(np.asarray(ops[i][0](sp, None)[0]), i))
        parts = []
        for i, dt in enumerate(np.diff(tt)):
            y = int(yt[i])
            s = zz[i].s[1:-1]
            x0, x1 = c.red(vt[i]), c.red(vt[i + 1])
            x = x0 + s * (x1 - x0) + math.sqrt(dt) * c.vol(thi[y]) * zz[i].z[1:-1]
            parts.append(-dt * float(np.mean(np.asarray(m.eval_disc(thi, y, x)) + 0 * x)))
        tot = 0.0
        for r in (None, 0, 1, 2):
            ok, out = R.call(SE.est_log_aug_lik, thi, zz, h, mod, sup, np.random.default_rng(5), r, key='estlog.')
            if not ok:
                return
            sel = [i for i in range(len(parts)) if r is None or yt[i] == r]
            a = m.eval_biased_log_lik(thi, tt, yt, vt, r)[0]
            R.near(out[0], a + sum(parts[i] for i in sel), 1e-9, 'estlog.sum', 'discretised log likelihood', m=cfg['m'], r=r, k=cfg['k'])
            R.check(len(out[1]) == len(zz) and all(same(p, q) for p, q in zip(out[1], zz)), 'estlog.paths', 'paths revealed at the times stay as they are', r=r)
            if r is None:
                full = out[0]
            else:
                tot += out[0]
            R.state((cfg['m'], cfg['k'], nsup, r, float(out[0])))
        R.near(tot, full, 1e-9, 'estlog.split', 'regimes add up', m=cfg['m'], k=cfg['k'])


def estlogito(cfg, R):
    for name in ITO:
        c = ITO[name]()
        m = c.model()
        p = np.array(c.thi[cfg['i']], float)
        t, v = c.obs[cfg['j']]
        t, v = np.array(t, float), np.array(v, float)
        mod = IE.Model(t, v, (None, None), lambda q: 0.0, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, None)
        for nsup in (1, 2, 3):
            ops = m.gen_normops(p, t, v)
            sup = [dt * (np.arange(nsup) + .37) / nsup for dt in np.diff(t)]
            zz = [known_seed(np.asarray(ops[i][0](sup[i], None)[0]), i) for i in range(len(sup))]
            want = float(m.eval_biased_log_lik(p, t, v))
            for i, dt in enumerate(np.diff(t)):
                s = zz[i].s[1:-1]
                x0, x1 = [float(m.reduce(p, np.array([q]))[0]) for q in v[i:i + 2]]
                x = x0 + s * (x1 - x0) + math.sqrt(dt) * zz[i].z[1:-1]
                want -= dt * float(np.mean(np.asarray(m.eval_disc(p, x)) + 0 * x))
            ok, out = R.call(IE.est_log_aug_lik, p, zz, mod, sup, np.random.default_rng(5), key='estlog.')
            if not ok:
                return
            R.near(out[0], want, 1e-9, 'estlog.sum', 'discretised log likelihood', m=name, j=cfg['j'])
            R.check(len(out[1]) == len(zz) and all(same(a, b) for a, b in zip(out[1], zz)), 'estlog.paths', 'paths revealed at the times stay as they are')
            R.state((name, cfg['j'], nsup, float(out[0])))
