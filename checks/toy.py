"""A family of models whose path coins have known probabilities: paths are tokens with an identity and a count of refinements."""
import inspect
import math

import numpy as np

from ctbayes.ea3lib import seed as Z
from mc import engine

DUAL, FLIP, INTEG = Z.flip_dual_coin, Z.flip_poisson_coin, Z.integrate_disc_bound
SIG = {f: inspect.signature(f) for f in (DUAL, FLIP, INTEG)}


def args(f, a, kw):
    b = SIG[f].bind(*a, **kw)
    b.apply_defaults()
    return b.arguments


def path(ident, count=0):
    return Z.SeedSkeleton(np.array([0.0, .5, 1.0]), np.array([0.0, ident, 0.0]), float(ident), ident + .5, float(count), None)


def ident(z):
    return int(round(float(z.tight_z)))


def count(z):
    return int(round(float(z.hit_z)))


def refine(z):
    return z._replace(hit_z=z.hit_z + 1.0)


class Tag(object):
    """stands for a function of the model at a parameter value (and on a segment)"""

    def __init__(self, kind, thi, seg=None):
        self.kind, self.thi, self.seg = kind, np.array(thi, float), seg

    def __call__(self, *a, **kw):
        if self.kind == 'denorm':
            s = np.asarray(a[0], float)
            return s * self.seg[0], (None if a[1] is None else np.asarray(a[1], float))
        if self.kind == 'norm':
            return np.asarray(a[0], float) / self.seg[0], (None if a[1] is None else np.asarray(a[1], float))
        raise AssertionError('potential evaluated outside the coin')


def wob(*v):
    """an irregular but smooth number in (0, 1)"""
    x = sum((i + 1.7) * float(u) for i, u in enumerate(v))
    return .5 + .5 * math.sin(3.1 * x + 1.3 * math.cos(2.3 * x))


class Broken(Exception):
    pass


class Coins(object):
    """stand-ins for the path coins, with exact probabilities from the integral Phi(theta, path, segment)"""

    def __init__(self, Phi, LB, rounds, size=1.0):
        self.Phi, self.LB, self.rounds = Phi, LB, rounds
        self.reset()
        self.total = 0
        self.batch = None
        self.group = {}

    def reset(self):
        self.flips, self.calls, self.thetas, self.bad = {}, 0, [], []

    def stubs(self):
        return (DUAL, self.dual), (FLIP, self.flip), (INTEG, self.integ)

    def count(self, z, seg):
        k = (ident(z), seg)
        self.flips[k] = self.flips.get(k, 0) + 1
        where = self.group.get(k, (seg, ident(z)))      # (which two-coin problem, which coin of it)
        used = {}
        for f, v in self.flips.items():
            g, c = self.group.get(f, (f[1], f[0]))
            if g == where[0]:
                used[c] = max(used.get(c, 0), v)
        if sum(used.values()) > self.rounds:      # rounds are alike: what is left enters by normalisation
            raise engine.Prune
        self.total += 1

    def need(self, c, msg):
        if not c:
            self.bad.append(msg)

    def known(self, z, seg, d):
        """a path must be presented with everything revealed so far"""
        have = self.flips.get((ident(z), seg), 0)
        self.need(count(z) - self.start(z, seg) == have, '%s: path presented with %d of %d refinements' % (d, count(z) - self.start(z, seg), have))

    def start(self, z, seg):
        return self.first.setdefault((ident(z), seg), count(z))

    first = None

    def dual(self, *a, **kw):
        v = args(DUAL, a, kw)
        z, g = v['seed'], v['ome']
        t0, t1 = v['eval_disc_nil'], v['eval_disc_prime']
        seg = v['norm_rsde_nil'].seg
        self.need(t0.kind == t1.kind == 'disc', 'potentials expected')
        for n, d, e, i in (('norm_rsde_nil', 'denorm_rsde_nil', t0, 0), ('norm_rsde_prime', 'denorm_rsde_prime', t1, 1)):
            self.need(np.array_equal(v[n].thi, e.thi) and np.array_equal(v[d].thi, e.thi), 'potential and normalisation at different parameters')
            self.need(v[n].seg == v[d].seg == seg and v[n].kind == 'norm' and v[d].kind == 'denorm', 'normalisation of another segment')
        self.need(v['batch_size'] == self.batch, 'batch size')
        self.thetas.append((t0.thi, t1.thi))
        need = self.intensity(t0.thi, t1.thi, seg, z)
        self.need(float(v['intensity']) >= need - 1e-9, 'intensity %.4g below the bound %.4g of the change' % (float(v['intensity']), need))
        self.known(z, seg, 'dual')
        self.count(z, seg)
        d = self.Phi(t1.thi, z, seg) - self.Phi(t0.thi, z, seg)
        G = .05 + max(d if v['upside'] else -d, 0.0)
        p = math.exp(-G)
        return bool(g.choice(2, p=[p, 1 - p]) == 0), refine(z)

    def flip(self, *a, **kw):
        v = args(FLIP, a, kw)
        z, g, e, b = v['seed'], v['ome'], v['eval_disc'], v['eval_bounds_disc']
        seg = v['norm_rsde'].seg
        self.need(e.kind == 'disc' and b.kind == 'bounds' and np.array_equal(e.thi, b.thi) and np.array_equal(v['norm_rsde'].thi, e.thi) and np.array_equal(v['denorm_rsde'].thi, e.thi), 'one parameter in potential, bounds and normalisation')
        self.need(v['batch_size'] == self.batch, 'batch size')
        self.thetas.append(e.thi)
        self.known(z, seg, 'flip')
        self.count(z, seg)
        p = math.exp(-(self.Phi(e.thi, z, seg) - self.LB(e.thi, z, seg)))
        return bool(g.choice(2, p=[p, 1 - p]) == 0), -self.LB(e.thi, z, seg), refine(z)

    def integ(self, *a, **kw):
        v = args(INTEG, a, kw)
        b = v['eval_bounds_disc']
        self.need(b.kind == 'bounds' and np.array_equal(v['norm_rsde'].thi, b.thi), 'one parameter in bounds and normalisation')
        return -self.LB(b.thi, v['seed'], v['norm_rsde'].seg)

    def intensity(self, thi0, thi1, seg, z):
        return float(np.sum(np.abs(thi1 - thi0) * grad(seg, z)))


def grad(seg, z):
    """bound on the gradient of the potential; depends on the segment and the limits of the path"""
    return np.array([.5 + abs(float(seg[1])) + abs(z.tight_z) * .1, .7 + float(seg[0]) + abs(z.loose_z) * .1])


def eval_bounds_grad(thi0, thi1, fin_t, init_v, fin_v, lb_z, ub_z):
    lo, hi = sorted((float(lb_z), float(ub_z)))
    if abs(hi - lo - .5) > 1e-9:
        raise Broken('limits of one path')
    return np.array([.5 + max(abs(float(init_v)), 0) + lo * .1, .7 + float(fin_t) + hi * .1])
