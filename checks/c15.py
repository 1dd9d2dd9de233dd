"""C15: diffusion MCMC updates leave the posterior invariant."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.ito import mcmc as U
from ctbayes.misc import adapt as A
from checks import toy
from mc import engine

RULE = 'for a family of models whose coins have known probabilities: all outcomes of every draw and coin of a parameter or path update with exact transition probabilities, detailed balance between every pair of states of a grid, and the hidden conditions (which path is flipped at which parameter, nothing revealed is forgotten) on every execution; change of variable of proposals on a quadrature menu'
BOUNDS = {'quick': '1 to 3 segments, two parameters with 3 values each, two rounds of coin flips (later rounds are distributed as the first and enter by exact normalisation), delayed acceptance on and off, escape probabilities 0, .3',
          'thorough': 'three rounds of coin flips; escape probability .01 as well'}
ASSUME = ['coins have the probabilities decided by C12, the two-coin algorithm its own (C14)']

TIMES = {1: [0, .8], 2: [0, .5, 1.3], 3: [0, .5, 1.3, 1.7]}
V = [.4, -.2, 1.1, .3]
GRID = [np.array([.5, .9, 1.6]), np.array([.4, 1.0, 1.3])]


def configs(tier, seed):
    rounds = 2 if tier == 'quick' else 3
    for pre in (True, False):
        for e in (0.0, .3) if tier == 'quick' else (0.0, .01, .3):
            for n in (1, 2, 3):
                if tier == 'quick' and n == 3 and e:
                    continue
                yield dict(kind='param', pre=pre, e=e, n=n, rounds=min(rounds, 4 - n) if n > 1 else rounds)
            for n in (1, 2):
                if tier == 'quick' and not pre:
                    continue
                yield dict(kind='path', pre=pre, e=e, n=n, rounds=rounds if n == 1 else 2)
            if tier != 'quick' or pre and e:
                yield dict(kind='forget', pre=pre, e=e)
    for bounds in ((-np.inf, np.inf), (0.0, np.inf), (-1.5, np.inf), (-np.inf, 2.0), (.2, 3.0)):
        yield dict(kind='proposal', bounds=[float(b) for b in bounds])
    for n in (1, 2, 3):
        yield dict(kind='wiring', n=n)


def run(cfg, R):
    dict(param=param, path=path, proposal=proposal, wiring=wiring, forget=forget)[cfg['kind']](cfg, R)


def segments(n):
    t = TIMES[n]
    return [(round(t[i + 1] - t[i], 9), V[i], V[i + 1]) for i in range(n)]


def key(seg):
    return tuple(round(float(v), 9) for v in seg)


def Phi(thi, z, seg):
    return .9 * toy.wob(thi[0], 2 * thi[1], toy.ident(z), seg[0], seg[1]) + LB(thi, z, seg)


def LB(thi, z, seg):
    return .4 * toy.wob(thi[1], thi[0] * .3, toy.ident(z) * 2, seg[2]) - .5


def prior(thi):
    if thi[0] > 1.55 and thi[1] > 1.25:
        return -math.inf
    return 1.1 * toy.wob(thi[0], thi[1] * 1.7) - 2


def lik(thi, t, vt):
    return 1.5 * toy.wob(thi[0] * 1.1, thi[1] * .7, len(t), np.sum(np.diff(t)[::2]), vt[0], 2 * vt[-1]) - 3


class World(object):
    def __init__(self, n, rounds):
        self.n, self.t, self.vt = n, np.array(TIMES[n], float), np.array(V[:n + 1])
        self.coins = toy.Coins(Phi, LB, rounds)
        self.coins.batch = 7
        self.props = None
        self.bad = []

    def gen_normops(self, thi, t, vt):
        out = []
        for dt, a, b in zip(np.diff(t), vt, vt[1:]):
            s = key((dt, a, b))
            if s not in [key(q) for q in segments(self.n)]:
                self.coins.need(False, 'normalisation of an unknown segment %s' % (s,))
            out.append((toy.Tag('norm', thi, s), toy.Tag('denorm', thi, s)))
        return out

    def lik(self, thi, t, vt):
        if not (np.allclose(t, self.t) and np.allclose(vt, self.vt)):
            self.coins.need(False, 'likelihood of other data')
        return lik(thi, self.t, self.vt)

    def sample_aug(self, thi, t, vt, g):
        self.coins.need(np.allclose(t, self.t) and np.allclose(vt, self.vt), 'proposals for other data')
        self.aug_thi = np.array(thi, float)
        return [toy.path(int(g.choice([1, 2, 3], p=WIENER)) + 10 * (i + 1)) for i in range(len(t) - 1)]

    def model(self):
        return U.Model(self.t, self.vt, (np.array([0.0, 0.0]), np.array([np.inf, np.inf])), prior, self.sample_aug, self.gen_normops, self.lik,
                       lambda thi: toy.Tag('disc', thi), lambda thi: toy.Tag('bounds', thi), toy.eval_bounds_grad)

    def target_thi(self, thi, z):
        lp = prior(thi) + lik(thi, self.t, self.vt)
        return lp - sum(Phi(thi, z_, key(s)) for z_, s in zip(z, segments(self.n)))


WIENER = [.5, .3, .2]


class Fake(object):
    """a proposal mechanism on a grid with known, asymmetric probabilities"""

    def __init__(self, prop, lf, lb):
        self.out, self.told, self.asked = (prop, lf, lb), [], 0

    def propose(self, ome):
        self.asked += 1
        return self.out

    def adapt(self, x, prob):
        self.told.append((np.array(x, float), float(prob)))


def q(i, j):
    """probability of proposing value j from value i of a parameter"""
    w = [toy.wob(i, 3 * k) + .2 if k != i else 0 for k in range(3)]
    return w[j] / sum(w)


def param(cfg, R):
    n = cfg['n']
    z0 = [toy.path(3 + i, 2) for i in range(n)]
    acc = {}
    for i0, i1 in it.product(range(3), repeat=2):
        thi = np.array([GRID[0][i0], GRID[1][i1]])
        for j in (1, 2):       # the proposed value of each parameter, cyclically
            jj = ((i0 + j) % 3, (i1 + j) % 3)
            W = World(n, cfg['rounds'])
            mod, ctrl = W.model(), U.Controls(pr_portkey=cfg['e'], ea_batch_size=7, precoin=cfg['pre'])
            zc = [toy.path(3 + i, 2) for i in range(n)]

            def fn(g):
                W.coins.reset()
                W.coins.first = {}
                f = [Fake(GRID[s][jj[s]], math.log(q((i0, i1)[s], jj[s])), math.log(q(jj[s], (i0, i1)[s]))) for s in (0, 1)]
                tc = thi.copy()
                r = U.update_params(tc, list(zc), mod, ctrl, f, g)
                return r, f, dict(W.coins.flips), list(W.coins.bad), np.array_equal(tc, thi), list(W.coins.thetas)
            with engine.replaced(*W.coins.stubs()):
                lv = R.explore(fn, key='param-', allow=(), observe=False)
            if not lv:
                return
            stage, a, b = {}, {}, {}
            for l in lv:
                (th, z), f, flips, bad, same, thetas = l.val
                th = np.array(th, float)
                s = [k for k in (0, 1) if f[k].asked]
                if not R.check(len(s) == 1 and f[s[0]].asked == 1, 'param-one', 'exactly one parameter is proposed per update', asked=[x.asked for x in f]):
                    return
                s = s[0]
                prop = thi.copy()
                prop[s] = GRID[s][jj[s]]
                moved = np.array_equal(th, prop)
                ok = R.check(moved or np.array_equal(th, thi), 'param-value', 'the parameter is the old or the proposed one', got=th)
                ok &= R.check(not bad, 'param-coin', 'coins: %s' % bad[:2])
                ok &= R.check(same, 'param-mutates', 'the old parameter array is unchanged')
                ok &= R.check(len(z) == n and all(toy.ident(z_) == 3 + k for k, z_ in enumerate(z)), 'param-path', 'paths keep their places', got=[toy.ident(z_) for z_ in z])
                if not ok:
                    return
                for k, (z_, sg) in enumerate(zip(z, segments(n))):
                    m = flips.get((3 + k, key(sg)), 0)
                    if not R.check(toy.count(z_) == 2 + m, 'param-forgotten', 'everything revealed by the coins is kept', kept=toy.count(z_) - 2, revealed=m, escape=cfg['e']):
                        return
                R.check(all(np.array_equal(x, thi) and np.array_equal(y, prop) for x, y in thetas), 'param-pair', 'coins compare the old with the proposed parameter')
                told = f[s].told
                R.check(len(told) == 1 and not f[1 - s].told and np.allclose(told[0][0], th[s]) and told[0][1] == float(moved), 'param-adapt',
                        'adaptation is told the value kept and whether it was accepted', told=[list(map(str, x)) for x in told], kept=th[s], moved=moved)
                d = stage.setdefault(s, [0.0, 0.0])
                d[0] += l.w
                if not flips:
                    d[1] += l.w
                    if moved:
                        R.fail('param-nocoin', 'a parameter accepted without any coin')
                if flips:
                    (a if moved else b)[s] = (a if moved else b).get(s, 0.0) + l.w
            for s in (0, 1):
                if not R.check(s in stage, 'param-sector', 'every parameter is proposed'):
                    return
                tot = .5 - stage[s][1]      # mass reaching the coins, unfinished executions included
                den = a.get(s, 0.0) + b.get(s, 0.0)
                p = tot * a.get(s, 0.0) / den if den else 0.0
                acc[(i0, i1), s, jj[s]] = 2 * p
    # detailed balance between every pair
    for ((i0, i1), s, j), p in acc.items():
        i = (i0, i1)
        k = (j, i1) if s == 0 else (i0, j)
        th, tk = [np.array([GRID[0][x[0]], GRID[1][x[1]]]) for x in (i, k)]
        zz = z0
        W = World(n, 1)
        l0, l1 = W.target_thi(th, zz), W.target_thi(tk, zz)
        f = math.exp(l0) * q(i[s], j) * p
        r = math.exp(l1) * q(j, i[s]) * acc[k, s, i[s]]
        R.check(abs(f - r) <= 1e-9 * (f + r) + 1e-300, 'param-balance', 'flow %s to %s: %.8g, back: %.8g (acceptance %.6g, %.6g)' % (i, k, f, r, p, acc[k, s, i[s]]), delayed=cfg['pre'], escape=cfg['e'])
        ratio = math.exp(l1 - l0) * q(j, i[s]) / q(i[s], j) if l0 > -math.inf else None
        if cfg['e'] == 0 and not cfg['pre'] and ratio is not None:
            R.check(abs(p - ratio / (1 + ratio)) < 1e-9, 'param-barker', 'without escape or delay the acceptance is target over sum of targets: %.8g, exactly %.8g' % (p, ratio / (1 + ratio)))
        R.state((i, k, p))
    R.sample(dict(acceptance={str(k): v for k, v in list(acc.items())[:4]}))


def pool(tasks):
    return [f(*a, **kw) for f, a, kw in tasks]


def path(cfg, R):
    """path update: each segment moves independently, reversible with respect to Wiener weight times exp(-integral)"""
    n = cfg['n']
    thi = np.array([.9, 1.0])
    P = [dict() for _ in range(n)]
    joint = {}
    for ids in it.product((1, 2, 3), repeat=n):
        if n == 2 and ids not in ((1, 2), (2, 1), (3, 3), (1, 1)):
            continue
        for props in it.product((1, 2, 3), repeat=n):
            W = World(n, cfg['rounds'])
            mod, ctrl = W.model(), U.Controls(pr_portkey=cfg['e'], ea_batch_size=7, precoin=cfg['pre'])
            z0 = [toy.path(k + 10 * (i + 1) + 100, 2) for i, k in enumerate(ids)]    # kept paths are told from proposals by +100
            W.coins.Phi = lambda th, z, s: Phi(th, toy.path(toy.ident(z) % 100), s)
            W.coins.LB = lambda th, z, s: LB(th, toy.path(toy.ident(z) % 100), s)
            W.sample_aug = lambda th, t, vt, g: [toy.path(k + 10 * (i + 1)) for i, k in enumerate(props)]
            mod = W.model()

            def fn(g):
                W.coins.reset()
                W.coins.first = {}
                z = U.update_sde(thi.copy(), list(z0), mod, ctrl, g, pool)
                return z, dict(W.coins.flips), list(W.coins.bad)
            with engine.replaced(*W.coins.stubs()):
                lv = R.explore(fn, key='path-', observe=False)
            if not lv:
                return
            dist = {}
            for l in lv:
                z, flips, bad = l.val
                ok = R.check(not bad, 'path-coin', 'coins: %s' % bad[:2])
                ok &= R.check(len(z) == n and all(toy.ident(z_) % 100 // 10 == i + 1 for i, z_ in enumerate(z)), 'path-place', 'paths keep their places', got=[toy.ident(z_) for z_ in z])
                if not ok:
                    return
                for i, (z_, sg) in enumerate(zip(z, segments(n))):
                    kept = toy.ident(z_) > 100
                    m = flips.get((toy.ident(z_), key(sg)), 0)
                    if not R.check(toy.count(z_) == (2 if kept else 0) + m, 'path-forgotten', 'everything revealed by the coins is kept: %d of %d revelations on the %s path' % (toy.count(z_) - (2 if kept else 0), m, 'kept' if kept else 'new'), escape=cfg['e']):
                        return
                o = tuple(toy.ident(z_) < 100 for z_ in z)
                dist[o] = dist.get(o, 0.0) + l.w
            tot = sum(dist.values())
            marg = [sum(p for o, p in dist.items() if o[i]) / tot for i in range(n)]
            for o, p in dist.items():
                ref = np.prod([m if b else 1 - m for m, b in zip(marg, o)])
                R.check(abs(p / tot - ref) < 1e-9, 'path-independent', 'segments are accepted independently')
            for i in range(n):
                old = P[i].setdefault((ids[i], props[i]), marg[i])
                R.check(abs(old - marg[i]) < 1e-9, 'path-local', 'acceptance of a segment does not depend on other segments')
    for i in range(n):
        sg = key(segments(n)[i])
        w = {k: math.exp(-Phi(thi, toy.path(k + 10 * (i + 1)), sg)) for k in (1, 2, 3)}
        for (a, b), p in P[i].items():
            if (b, a) in P[i]:
                f, r = w[a] * p, w[b] * P[i][b, a]
                R.check(abs(f - r) < 1e-9, 'path-balance', 'flow %d to %d: %.8g, back %.8g' % (a, b, f, r), escape=cfg['e'], delayed=cfg['pre'])
                if cfg['e'] == 0:
                    R.check(abs(p - w[b] / (w[a] + w[b])) < 1e-9, 'path-barker', 'without escape acceptance is the new weight over the sum: %.8g, exactly %.8g' % (p, w[b] / (w[a] + w[b])))
                R.state((a, b, p))
    R.sample(dict(acceptance=[{str(k): v for k, v in p.items()} for p in P]))


def forget(cfg, R):
    """a path with one hidden bit, revealed by coin flips with a fixed probability: the chain on the bit, followed exactly
    to its equilibrium, has the target odds"""
    quiet, r = .4, (.95, .25)       # probability that a flip reveals nothing and succeeds; success given the revealed bit
    thi = np.array([.9, 1.0])
    names = ['unknown', 0, 1]

    def mk(state, tag):
        return toy.path(tag + (0 if state == 'unknown' else 1 + state))

    def state_of(z):
        k = toy.ident(z) % 100
        return 'unknown' if k == 0 else k - 1
    T, lost = np.zeros((3, 3)), 0.0
    for i, s0 in enumerate(names):
        W = World(1, 1)
        W.sample_aug = lambda th, t, vt, g: [mk('unknown', 100)]
        W.coins.LB = lambda th, z, s: 0.0
        lim = [0]

        def flip(*a, **kw):
            v = toy.args(toy.FLIP, a, kw)
            z, g = v['seed'], v['ome']
            lim[0] += 1
            if lim[0] > 14:
                raise engine.Prune
            s = state_of(z)
            if int(g.choice(2, p=[quiet, 1 - quiet])) == 0:
                return True, 0.0, z
            if s == 'unknown':
                s = int(g.choice(2))
            ok = int(g.choice(2, p=[r[s], 1 - r[s]])) == 0
            return ok, 0.0, mk(s, toy.ident(z) // 100 * 100)
        mod, ctrl = W.model(), U.Controls(pr_portkey=cfg['e'], ea_batch_size=7, precoin=cfg['pre'])

        def fn(g):
            lim[0] = 0
            return state_of(U.update_sde(thi.copy(), [mk(s0, 0)], mod, ctrl, g, pool)[0])
        with engine.replaced((toy.FLIP, flip), (toy.INTEG, lambda *a, **kw: 0.0)):
            lv = R.explore(fn, key='forget-', wmin=3e-7)
        if not lv:
            return
        for l in lv:
            T[i, names.index(l.val)] += l.w
        lost = max(lost, R.last.pruned)
    T /= T.sum(1, keepdims=True)
    w, v = np.linalg.eig(T.T)
    pi = np.real(v[:, int(np.argmin(np.abs(w - 1)))])
    pi /= pi.sum()
    p0 = pi[1] + .5 * pi[0]
    ok = [quiet + (1 - quiet) * x for x in r]
    ref = ok[0] / sum(ok)
    R.check(abs(p0 - ref) < 1e-4 + 4 * lost, 'forget-law', 'equilibrium probability of the bit %.6f, exactly %.6f (unexplored %.1g)' % (p0, ref, lost), escape=cfg['e'])
    R.sample(dict(bit=p0, exact=ref, unexplored=lost))


def proposal(cfg, R):
    """the reported log densities carry the change of variable of the constrained random walk"""
    lb, ub = cfg['bounds'] = [float(b) for b in cfg['bounds']]
    for x0 in (.5, 1.4):
        for hist in (0, 3):
            s = A.MyopicRwSampler(x0, (lb, ub), .2)
            for i in range(hist):
                s.adapt(x0, float(i % 2))

            def fn(g):
                return s.propose(g)
            for l in R.explore(fn, key='proposal-', K=5):
                x, lf, lb_ = [float(v) for v in l.val]
                R.check(lb <= x <= ub, 'proposal-bounds', 'proposals stay inside the constraint', got=x)
                ref = logjac(x, lb, ub) - logjac(x0, lb, ub)
                R.near(lf - lb_, ref, 1e-9, 'proposal-density', 'log density of proposing minus of proposing back', at=x0, to=x)


def logjac(x, lb, ub):
    if math.isinf(lb) and math.isinf(ub):
        return 0.0
    if not math.isinf(lb) and not math.isinf(ub):
        return math.log(ub - lb) - math.log(x - lb) - math.log(ub - x)
    return -math.log(x - lb) if math.isinf(ub) else -math.log(ub - x)


def wiring(cfg, R):
    """one full iteration: paths are updated at the parameter just kept, proposals are made for it, and the iterate is what the updates return"""
    n = cfg['n']
    W = World(n, 3)
    mod, ctrl = W.model(), U.Controls(pr_portkey=.01, ea_batch_size=7, opt_acc_prob=.3)
    calls = []
    orig_p, orig_s = U.update_params, U.update_sde
    sp, ss = inspect.signature(orig_p), inspect.signature(orig_s)

    def up(*a, **kw):
        v = sp.bind(*a, **kw).arguments
        calls.append(('param', np.array(v['thi_nil'], float), [toy.ident(z) for z in v['z']], [(float(np.asarray(s.state)), tuple(map(float, s.bounds)), s.opt_prob) for s in v['param_samplers']]))
        return np.array(v['thi_nil'], float) + .25, [toy.refine(z) for z in v['z']]

    def us(*a, **kw):
        v = ss.bind(*a, **kw).arguments
        calls.append(('sde', np.array(v['thi'], float), [(toy.ident(z), toy.count(z)) for z in v['z_nil']]))
        return [toy.refine(z) for z in v['z_nil']]

    def fn(g):
        del calls[:]
        gen = U.sample_posterior(np.array([.5, .7]), mod, ctrl, g)
        out = [next(gen) for _ in range(3)]
        return out, list(calls)
    with engine.replaced((orig_p, up), (orig_s, us)):
        lv = R.explore(fn, key='wiring-', observe=False)
    for l in lv:
        out, log = l.val
        if not log:
            R.note('updates not called through the module')
            return
        ids = None
        thi, cnt = np.array([.5, .7]), 0
        ok = len(log) == 6 and len(out) == 3
        for k in range(3):
            if not ok:
                break
            p, s = log[2 * k], log[2 * k + 1]
            ids = ids or p[2]
            ok = p[0] == 'param' and s[0] == 'sde' and np.allclose(p[1], thi) and p[2] == ids and len(ids) == n
            thi = thi + .25
            ok = ok and np.allclose(s[1], thi) and s[2] == [(i, cnt + 1) for i in ids]
            cnt += 2
            ok = ok and np.allclose(out[k][0], thi) and [(toy.ident(z), toy.count(z)) for z in out[k][1]] == [(i, cnt) for i in ids]
        R.check(ok, 'wiring-order', 'each iteration updates parameters, then paths at the new parameter, and reports both together', calls=[str(c) for c in log])
        if ok:
            R.check(log[0][3] == [(.5, (0.0, math.inf), .3), (.7, (0.0, math.inf), .3)], 'wiring-samplers', 'one proposal mechanism per parameter, with its own start, bounds and target', got=log[0][3])
    R.state(n)
