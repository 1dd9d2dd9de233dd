"""C16: regime-switching MCMC updates leave the posterior invariant."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.misc import adapt as A
from ctbayes.mjplib import skeleton as K
from ctbayes.switching import mcmc as U, types as T
from checks import toy
from mc import engine

RULE = 'for a family of models whose coins have known probabilities: all outcomes of every draw and coin of a parameter or hidden-path update with exact transition probabilities; detailed balance between every pair of states of a grid, independence of regimes and of sections, and the hidden conditions (which path is flipped at which parameter, which anchors come with which path, nothing revealed is forgotten) on every execution; the generator draw by exact moments'
BOUNDS = {'quick': 'three regimes (one unvisited), 5 segments, 3 parameter values per regime; hidden paths with up to 6 observations, all subsets of conditioning times of two families; one or two rounds of coin flips (later rounds are alike and enter by exact normalisation), escape 0 and .3, delayed acceptance on and off',
          'thorough': 'up to three rounds, escape .01 as well'}
ASSUME = ['coins have the probabilities decided by C12, the two-coin algorithms theirs (C14), regime proposals theirs (C03)']

GRID = [np.array([.5, .4]), np.array([.9, 1.0]), np.array([1.6, 1.3])]
H = T.Anchorage(np.array([0.0, .4, .7, 1.5, 2.1, 2.6]), np.array([0, 1, 1, 0, 0, 0]), np.array([.4, -.2, 1.1, .3, .6, -.5]))
WORLDS = {'short': (np.array([0.0, .75, 1.7]), [.4, 1.1, -.5],
                    [[(0.0, 0), (.3, 1)], [(0.0, 1), (.45, 0), (1.0, 1)], [(0.0, 2), (1.2, 0)]]),
          'long': (np.array([0.0, .75, 1.7, 2.0, 3.1]), [.4, 1.1, -.5, .2, .9],
                   [[(0.0, 0), (.3, 1), (1.9, 0)], [(0.0, 1), (.8, 0), (2.5, 2)], [(0.0, 0)]])}


def configs(tier, seed):
    for pre in (True, False):
        for e in (0.0, .3) if tier == 'quick' else (0.0, .01, .3):
            yield dict(kind='param', pre=pre, e=e, rounds=1)
            yield dict(kind='hidden', world='short', pre=pre, e=e, rounds=1)
            if tier != 'quick' or pre != bool(e):
                yield dict(kind='hidden', world='long', pre=pre, e=e, rounds=1)
            yield dict(kind='hidden', world='short', pre=pre, e=e, rounds=2 if tier == 'quick' else 3)
            if tier != 'quick':
                yield dict(kind='hidden', world='long', pre=pre, e=e, rounds=2)
    yield dict(kind='forget', pre=False, e=.3)
    for n in (2, 3, 4, 6):
        yield dict(kind='propose', n=n)
    yield dict(kind='generator')
    yield dict(kind='wiring')


def run(cfg, R):
    dict(param=param, hidden=hidden, forget=forget, propose=propose, generator=generator, wiring=wiring)[cfg['kind']](cfg, R)


def Phi(thi, z, seg):
    if toy.ident(z) >= 1000 and toy.ident(z) % 3:      # certain coins keep the enumeration small
        return LB(thi, z, seg)
    return .9 * toy.wob(thi[0], 2 * thi[1], toy.ident(z), seg[0], seg[1], seg[3]) + LB(thi, z, seg)


def LB(thi, z, seg):
    return .4 * toy.wob(thi[1], thi[0] * .3, toy.ident(z) * 2, seg[2]) - .5


def prior_row(i, thi):
    if thi[0] > 1.55 and i == 1:
        return -math.inf
    return 1.1 * toy.wob(thi[0], thi[1] * 1.7, i) - 2


def prior(thi):
    return sum(prior_row(i, v) for i, v in enumerate(thi))


def lik_seg(thi, dt, y, v0, v1):
    return 1.2 * toy.wob(thi[0] * 1.1, thi[1] * .7, dt, y, v0, 2 * v1) - 1


def lik(thi, t, yt, vt, restrict=None):
    """per-segment terms of a regime, and a remainder that only depends on the observations"""
    t, yt, vt = np.asarray(t, float), np.asarray(yt), np.asarray(vt, float)
    a = sum(lik_seg(thi[y], round(dt, 9), y, v0, v1) for dt, y, v0, v1 in zip(np.diff(t), yt[:-1], vt, vt[1:]) if restrict is None or y == restrict)
    obs = np.hstack([True, np.diff(yt) == 0])
    b = 1.3 * toy.wob(*[round(d, 9) for d in np.diff(t[obs])], *vt[obs]) - .3 * len(t)
    return a, b


def segments(h):
    return [tuple(float(round(x, 9)) for x in (dt, v0, v1, y)) for dt, y, v0, v1 in zip(np.diff(h.t), h.yt, h.vt, h.vt[1:])]


class World(object):
    def __init__(self, rounds, t, vt):
        self.coins = toy.Coins(Phi, LB, rounds)
        self.coins.batch = 7
        self.t, self.vt = np.array(t, float), np.array(vt, float)
        self.known = None

    def gen_normops(self, thi, t, yt, vt):
        out = []
        for s in segments(T.Anchorage(np.asarray(t, float), np.asarray(yt), np.asarray(vt, float))):
            if self.known is not None and s not in self.known:
                self.coins.need(False, 'normalisation of an unknown segment %s' % (s,))
            out.append((toy.Tag('norm', np.asarray(thi)[int(s[3])], s), toy.Tag('denorm', np.asarray(thi)[int(s[3])], s)))
        return out

    def sample_aug(self, *a):
        raise AssertionError

    def model(self):
        return U.Model(self.t, self.vt, (np.array([0.0, 0.0]), np.array([np.inf, np.inf])), (np.ones((3, 3)), np.ones((3, 3))), prior, self.sample_aug,
                       self.gen_normops, lik, lambda thi, y: toy.Tag('disc', np.asarray(thi)[int(y)]), lambda thi, y: toy.Tag('bounds', np.asarray(thi)[int(y)]), toy.eval_bounds_grad)


def pool(tasks):
    return [f(*a, **kw) for f, a, kw in tasks]


class Fake(object):
    def __init__(self, prop, lf, lb):
        self.out, self.told, self.asked = (prop, lf, lb), [], 0

    def propose(self, ome):
        self.asked += 1
        return self.out

    def adapt(self, x, prob):
        self.told.append((np.array(x, float), float(prob)))


def q(i, j, s):
    w = [toy.wob(i, 3 * k, s) + .2 if k != i else 0 for k in range(3)]
    return w[j] / sum(w)


def same_path(z, ids):
    return len(z) == len(ids) and [toy.ident(z_) for z_ in z] == list(ids)


def param(cfg, R):
    acc = {}
    segs = segments(H)
    for i, shift in it.product([(0, 1, 2), (1, 0, 0), (2, 0, 1), (0, 2, 2), (1, 2, 0), (2, 1, 1)], [(1, 1, 1), (2, 2, 2), (1, 2, 1)][:2 if cfg['e'] else 3]):
        if i[1] == 2:
            i = (i[0], 0, i[2])     # the chain is never at prior zero
        j = tuple((a + b) % 3 for a, b in zip(i, shift))
        thi = np.array([GRID[k] for k in i])
        W = World(cfg['rounds'], H.t, H.vt)
        W.known = set(segs)
        mod, ctrl = W.model(), U.Controls(pr_portkey=cfg['e'], ea_batch_size=7, precoin=cfg['pre'])
        z0 = [toy.path(3 + k, 2) for k in range(5)]

        def fn(g):
            W.coins.reset()
            W.coins.first = {}
            f = [Fake(GRID[j[s]].copy(), math.log(q(i[s], j[s], s)), math.log(q(j[s], i[s], s))) for s in range(3)]
            tc = thi.copy()
            th, z = U.update_params(tc, list(z0), T.Anchorage(*[x.copy() for x in H]), mod, ctrl, f, g, pool)
            return np.array(th, float), z, f, dict(W.coins.flips), list(W.coins.bad), np.array_equal(tc, thi), list(W.coins.thetas)
        with engine.replaced(*W.coins.stubs()):
            lv = R.explore(fn, key='param-', observe=False)
        if not lv:
            return
        dist = {}
        for l in lv:
            th, z, f, flips, bad, same, thetas = l.val
            ok = R.check(all(x.asked == 1 for x in f), 'param-all', 'every regime is proposed once')
            ok &= R.check(th.shape == (3, 2), 'param-shape', 'one parameter row per regime', got=th)
            if not ok:
                return
            o = tuple(np.array_equal(th[s], GRID[j[s]]) for s in range(3))
            ok &= R.check(all(o[s] or np.array_equal(th[s], GRID[i[s]]) for s in range(3)), 'param-value', 'each row is the old or the proposed one', got=th)
            ok &= R.check(not bad, 'param-coin', 'coins: %s' % bad[:2])
            ok &= R.check(same, 'param-mutates', 'the old parameters are unchanged')
            ok &= R.check(same_path(z, range(3, 8)), 'param-path', 'paths keep their places', got=[toy.ident(z_) for z_ in z])
            if not ok:
                return
            for k, sg in enumerate(segs):
                m = flips.get((3 + k, sg), 0)
                if not R.check(toy.count(z[k]) == 2 + m, 'param-forgotten', 'everything revealed by the coins is kept', kept=toy.count(z[k]) - 2, revealed=m, escape=cfg['e']):
                    return
            for s in range(3):
                R.check(len(f[s].told) == 1 and np.array_equal(f[s].told[0][0], th[s]) and f[s].told[0][1] == float(o[s]), 'param-adapt',
                        'each mechanism is told the row kept and whether it was accepted', regime=s, told=[list(map(str, x)) for x in f[s].told], kept=th[s], moved=o[s])
            ks = {tuple(map(tuple, p)) for p in thetas}
            R.check(all(any(p == (tuple(GRID[i[s]]), tuple(GRID[j[s]])) for s in range(3)) for p in ks), 'param-pair', 'coins compare the old with the proposed parameter of one regime')
            dist[o] = dist.get(o, 0.0) + l.w
        # exact normalisation per regime: outcomes given that the coins were reached
        tot = sum(dist.values())
        cond = {}
        for l in lv:
            th, z, f, flips = l.val[:4]
            for s in range(3):
                c = any(f_[1][3] == s for f_ in flips)
                k = (s, c, np.array_equal(th[s], GRID[j[s]]))
                cond[k] = cond.get(k, 0.0) + l.w / tot
        for s in range(3):
            no, yes = cond.get((s, True, False), 0.0), cond.get((s, True, True), 0.0)
            if s == 2:
                n0, y0 = cond.get((s, False, False), 0.0), cond.get((s, False, True), 0.0)
                p = y0 / (n0 + y0)
            else:
                R.check(cond.get((s, False, True), 0.0) == 0, 'param-nocoin', 'a row accepted without a coin', regime=s)
                p = yes / (no + yes) if no + yes else 0.0
                if cfg['pre']:
                    thi1 = thi.copy()
                    thi1[s] = GRID[j[s]]
                    w = [weight(s, GRID[i[s]]) + math.log(q(i[s], j[s], s)), weight(s, GRID[j[s]]) + math.log(q(j[s], i[s], s))]
                    p *= first(w)
            old = acc.setdefault((s, i[s], j[s]), p)
            R.check(abs(old - p) < 1e-9, 'param-local', 'acceptance in regime %d depends on the state of other regimes: %.8g, %.8g' % (s, old, p))
        marg = [sum(v for o, v in dist.items() if o[s]) / tot for s in range(3)]
        for o, v in dist.items():
            R.check(abs(v / tot - np.prod([m if b else 1 - m for m, b in zip(marg, o)])) < 1e-9, 'param-independent', 'regimes are accepted independently', outcome=o)
        if cfg['pre'] and not firststage(cfg, R, i, j, thi, z0, mod, ctrl):
            return
    for (s, a, b), p in acc.items():
        if (s, b, a) not in acc or cfg['pre'] and s == 2:
            continue
        l0, l1 = [target(s, GRID[k]) for k in (a, b)]
        f, r = math.exp(l0) * q(a, b, s) * p, math.exp(l1) * q(b, a, s) * acc[s, b, a]
        R.check(abs(f - r) <= 1e-9 * (f + r) + 1e-300, 'param-balance', 'regime %d, flow %d to %d: %.8g, back: %.8g (acceptance %.6g, %.6g)' % (s, a, b, f, r, p, acc[s, b, a]), delayed=cfg['pre'], escape=cfg['e'])
        if not cfg['pre'] and (cfg['e'] == 0 or s == 2):
            ratio = math.exp(l1 - l0) * q(b, a, s) / q(a, b, s)
            R.check(abs(p - ratio / (1 + ratio)) < 1e-9, 'param-barker', 'without escape or delay the acceptance is target over sum of targets: %.8g, exactly %.8g' % (p, ratio / (1 + ratio)))
        R.state((s, a, b, p))
    R.sample(dict(acceptance={str(k): v for k, v in list(acc.items())[:4]}))


def weight(s, row):
    return prior_row(s, row) + sum(lik_seg(row, g[0], s, g[1], g[2]) for g in segments(H) if g[3] == s)


def target(s, row):
    return weight(s, row) - sum(Phi(row, toy.path(3 + k), g) for k, g in enumerate(segments(H)) if g[3] == s)


def first(w):
    return math.exp(w[1] - np.logaddexp(*w))


def firststage(cfg, R, i, j, thi, z0, mod, ctrl):
    """the share of each regime's proposals that reach the coins, with coins that always succeed"""
    W = World(1, H.t, H.vt)
    W.coins.Phi = lambda th, z, s: -1.0
    flips = {}

    def dual(*a, **kw):
        v = toy.args(toy.DUAL, a, kw)
        s = v['norm_rsde_nil'].seg[3]
        flips[s] = flips.get(s, 0) + 1
        return True, v['seed']

    def fn(g):
        flips.clear()
        f = [Fake(GRID[j[s]].copy(), math.log(q(i[s], j[s], s)), math.log(q(j[s], i[s], s))) for s in range(3)]
        th, _ = U.update_params(thi.copy(), list(z0), H, mod, ctrl._replace(pr_portkey=0.0), f, g, pool)
        return dict(flips), [bool(np.array_equal(th[s], GRID[j[s]])) for s in range(3)]
    with engine.replaced((toy.DUAL, dual)):
        lv = R.explore(fn, key='param-', observe=False)
    for s in range(3):
        w = [weight(s, GRID[i[s]]) + math.log(q(i[s], j[s], s)), weight(s, GRID[j[s]]) + math.log(q(j[s], i[s], s))]
        if s < 2:
            got = sum(l.w for l in lv if s in l.val[0])
            if not R.near(got, first(w), 1e-9, 'param-first', 'share of proposals that pass the first stage', regime=s):
                return False
        else:      # unvisited: the first stage, then an even coin
            got = sum(l.w for l in lv if l.val[1][2])
            if not R.near(got, first(w) / 2, 1e-9, 'param-first', 'acceptance of an unvisited regime after the first stage'):
                return False
    return True


def build(world, k, base):
    """the anchorage of regime path k, with values at switches and path identities"""
    t, vt, paths = WORLDS[world]
    p = paths[k]
    tt = sorted(set(t) | {a for a, _ in p})
    y = [[b for a, b in p if a <= s][-1] for s in tt]
    v = [vt[list(t).index(s)] if s in t else round(.3 + .7 * math.sin(5 * s + k), 6) for s in tt]
    h = T.Anchorage(np.array(tt), np.array(y), np.array(v))
    return h, [toy.path(base + i, 2) for i in range(len(tt) - 1)]


def sections(h, z, times):
    """the part of each section: absolute anchors and paths"""
    cut = [h.t[0]] + sorted(times) + [h.t[-1]]
    out = []
    for a, b in zip(cut, cut[1:]):
        i, j = int(np.argmin(np.abs(h.t - a))), int(np.argmin(np.abs(h.t - b)))
        out.append((h.t[i:j + 1], h.yt[i:j + 1], h.vt[i:j + 1], z[i:j]))
    return out


def agree(world, a, b, t):
    """regime paths that agree at a conditioning time"""
    pa, pb = WORLDS[world][2][a], WORLDS[world][2][b]
    return [y for s, y in pa if s <= t][-1] == [y for s, y in pb if s <= t][-1]


def cases(world):
    t = WORLDS[world][0]
    for a, b in it.permutations(range(len(WORLDS[world][2])), 2):
        free = [float(s) for s in t[1:-1] if agree(world, a, b, s)]
        for r in range(len(free) + 1):
            for sub in it.combinations(free, r):
                if len(sub) <= 2:
                    yield a, b, sub


def hidden(cfg, R):
    world = cfg['world']
    t, vt, paths = WORLDS[world]
    thi = np.array([[.5, .4], [.9, 1.0], [1.6, 1.3]])
    lam = np.array([[-1.0, .6, .4], [.2, -.5, .3], [.7, .8, -1.5]])
    P = {}
    for a, b, cond in cases(world):
        h0, z0 = build(world, a, 100 * a + (10 if world == 'short' else 1000))
        h1, z1 = build(world, b, 100 * b + (10 if world == 'short' else 1000))
        W = World(cfg['rounds'], t, vt)
        W.known = set(segments(h0)) | set(segments(h1))
        y1 = K.Skeleton(np.array([s for s, _ in paths[b]]), np.array([y for _, y in paths[b]]), float(t[-1]))
        seen = []

        def aug(th, y, t_, vt_, g):
            W.coins.need(np.array_equal(th, thi) and np.array_equal(t_, W.t) and np.array_equal(vt_, W.vt) and y is y1, 'augmentation of the proposed regimes at the current parameter')
            return list(z1), T.Anchorage(*[x.copy() for x in h1])
        W.sample_aug = aug
        mod, ctrl = W.model(), U.Controls(pr_portkey=cfg['e'], ea_batch_size=7, precoin=cfg['pre'])

        class Regimes(object):
            told = []

            def propose(self, lam_, t_, g):
                W.coins.need(np.array_equal(lam_, lam), 'proposal at the current generator')
                return y1, np.array(cond, float)

            def adapt(self, y, prob):
                self.told.append((y, float(prob)))

        def fn(g):
            W.coins.reset()
            W.coins.first = {}
            r = Regimes()
            r.told = []
            z, h = U.update_hidden(thi.copy(), lam.copy(), list(z0), T.Anchorage(*[x.copy() for x in h0]), mod, ctrl, r, g, pool)
            return z, h, r.told, dict(W.coins.flips), list(W.coins.bad)
        s0, s1 = sections(h0, z0, cond), sections(h1, z1, cond)
        for side, ss in enumerate((s0, s1)):
            for k, s in enumerate(ss):
                for z_, sg in zip(s[3], segs_of(s)):
                    W.coins.group[toy.ident(z_), sg] = (k, side)
        with engine.replaced(*W.coins.stubs()):
            lv = R.explore(fn, key='hidden-', observe=False, max_leaves=400000)
        if not lv:
            return
        n = len(s0)
        dist, reached = {}, {}
        for l in lv:
            z, h, told, flips, bad = l.val
            if not R.check(not bad, 'hidden-coin', 'coins: %s' % bad[:2]):
                return
            s = match(z, h, s0, s1)
            if not R.check(s is not None, 'hidden-sections', 'the new hidden state is made of whole sections of the old and of the proposed one', t=h.t, yt=h.yt, vt=h.vt, ids=[toy.ident(z_) for z_ in z], times=cond):
                return
            for z_, sg in zip(z, segments(h)):
                m = flips.get((toy.ident(z_), sg), 0)
                if not R.check(toy.count(z_) == 2 + m, 'hidden-forgotten', 'everything revealed by the coins is kept: %d of %d revelations' % (toy.count(z_) - 2, m), escape=cfg['e']):
                    return
            ok = len(told) == 1 and abs(told[0][1] - np.mean(s)) < 1e-12
            y = told[0][0] if told else None
            keep = np.hstack([True, np.diff(h.yt[:]) != 0])
            ok = ok and np.array_equal(y.t, h.t[keep]) and np.array_equal(y.xt, h.yt[keep]) and abs(y.fin_t - t[-1]) < 1e-12
            R.check(ok, 'hidden-adapt', 'the regime mechanism is told the kept regime path and the share of accepted sections', told=str(told), share=np.mean(s))
            dist[s] = dist.get(s, 0.0) + l.w
        tot = sum(dist.values())
        # each section by itself: conditional on whether its coins were reached
        for k in range(n):
            keys = set(zip([toy.ident(z_) for z_ in s0[k][3]], segs_of(s0[k]))) | set(zip([toy.ident(z_) for z_ in s1[k][3]], segs_of(s1[k])))
            c = {}
            for l in lv:
                z, h, told, flips, bad = l.val
                o = match(z, h, s0, s1)[k]
                r = any(f in keys for f in flips)
                c[r, o] = c.get((r, o), 0.0) + l.w / tot
            R.check(c.get((False, True), 0.0) == 0, 'hidden-nocoin', 'a section accepted without a coin')
            yes, no = c.get((True, True), 0.0), c.get((True, False), 0.0)
            p = yes / (yes + no) if yes + no else 0.0
            if cfg['pre']:
                w = [hweight(thi, s0[k]), hweight(thi, s1[k])]
                p *= first(w)
            P[a, b, cond, k] = p
            if (b, a, cond, k) in P:
                f, r = math.exp(htarget(thi, s0[k])) * p, math.exp(htarget(thi, s1[k])) * P[b, a, cond, k]
                R.check(abs(f - r) <= 1e-9 * (f + r), 'hidden-balance', 'section %d of %s, flow %d to %d: %.8g, back: %.8g' % (k, cond, a, b, f, r), delayed=cfg['pre'], escape=cfg['e'])
            if cfg['e'] == 0 and not cfg['pre']:
                d = htarget(thi, s1[k]) - htarget(thi, s0[k])
                R.check(abs(p - 1 / (1 + math.exp(-d))) < 1e-9, 'hidden-barker', 'without escape or delay a section is accepted with its target over the sum: %.8g, exactly %.8g' % (p, 1 / (1 + math.exp(-d))))
            R.state((world, a, b, cond, k, p))
        marg = [sum(v for o, v in dist.items() if o[k]) / tot for k in range(n)]
        for o, v in dist.items():
            R.check(abs(v / tot - np.prod([m if x else 1 - m for m, x in zip(marg, o)])) < 1e-9, 'hidden-independent', 'sections are accepted independently', outcome=o)
        if cfg['pre'] and not hfirst(R, W, thi, lam, z0, h0, mod, ctrl, Regimes, s0, s1):
            return
    R.sample(dict(acceptance={str(k): v for k, v in list(P.items())[:4]}))


def segs_of(s):
    return segments(T.Anchorage(np.array(s[0]), np.array(s[1]), np.array(s[2])))


def hweight(thi, s):
    t, y, v, z = s
    return sum(lik(thi, t, y, v)) - sum(LB(thi[int(g[3])], z_, g) for z_, g in zip(z, segs_of(s)))


def htarget(thi, s):
    t, y, v, z = s
    return sum(lik(thi, t, y, v)) - sum(Phi(thi[int(g[3])], z_, g) for z_, g in zip(z, segs_of(s)))


def match(z, h, s0, s1):
    """which sections are new"""
    ids = [toy.ident(z_) for z_ in z]
    for o in it.product((False, True), repeat=len(s0)):
        ss = [b if x else a for a, b, x in zip(s0, s1, o)]
        if ids != [toy.ident(z_) for s in ss for z_ in s[3]]:
            continue
        t = np.hstack([ss[0][0]] + [s[0][1:] for s in ss[1:]])
        v = np.hstack([ss[0][2]] + [s[2][1:] for s in ss[1:]])
        y = np.hstack([s[1][:-1] for s in ss] + [ss[-1][1][-1:]])
        if len(t) == len(h.t) and np.allclose(t, h.t, atol=1e-12, rtol=0) and np.array_equal(y, h.yt) and np.array_equal(v, h.vt):
            return o
    return None


def hfirst(R, W, thi, lam, z0, h0, mod, ctrl, Regimes, s0, s1):
    flips = set()

    def flip(*a, **kw):
        v = toy.args(toy.FLIP, a, kw)
        flips.add((toy.ident(v['seed']), v['norm_rsde'].seg))
        return True, 0.0, v['seed']

    def fn(g):
        flips.clear()
        U.update_hidden(thi.copy(), lam.copy(), list(z0), h0, mod, ctrl._replace(pr_portkey=0.0), Regimes(), g, pool)
        return set(flips)
    with engine.replaced((toy.FLIP, flip), (toy.INTEG, W.coins.integ)):
        lv = R.explore(fn, key='hidden-', observe=False)
    for k in range(len(s0)):
        keys = set(zip([toy.ident(z_) for s in (s0[k], s1[k]) for z_ in s[3]], segs_of(s0[k]) + segs_of(s1[k])))
        got = sum(l.w for l in lv if l.val & keys)
        if not R.near(got, first([hweight(thi, s0[k]), hweight(thi, s1[k])]), 1e-9, 'hidden-first', 'share of sections that pass the first stage'):
            return False
    return True


def forget(cfg, R):
    """a hidden bit revealed by coins with a fixed probability: the chain on the bit has the target odds at its equilibrium"""
    quiet, r = .4, (.95, .25)
    names = ['unknown', 0, 1]
    h = T.Anchorage(np.array([0.0, 1.0]), np.array([0, 0]), np.array([.4, 1.0]))
    state_of = lambda z: names[toy.ident(z) % 100]
    M, lost = np.zeros((3, 3)), 0.0
    for i in range(3):
        W = World(1, h.t, h.vt)
        W.sample_aug = lambda *a: ([toy.path(100)], h)
        mod, ctrl, lim = W.model(), U.Controls(pr_portkey=cfg['e'], ea_batch_size=7, precoin=cfg['pre']), [0]

        class Regimes(object):
            def propose(self, *a):
                return None, np.array([])

            def adapt(self, *a):
                pass

        def flip(*a, **kw):
            v = toy.args(toy.FLIP, a, kw)
            z, g = v['seed'], v['ome']
            lim[0] += 1
            if lim[0] > 14:
                raise engine.Prune
            s = state_of(z)
            if int(g.choice(2, p=[quiet, 1 - quiet])) == 0:
                return True, 0.0, z
            if s == 'unknown':
                s = int(g.choice(2))
            ok = int(g.choice(2, p=[r[s], 1 - r[s]])) == 0
            return ok, 0.0, toy.path(toy.ident(z) // 100 * 100 + 1 + s)

        def fn(g):
            lim[0] = 0
            z, _ = U.update_hidden(np.array([[.5, .4], [.9, 1.0], [1.6, 1.3]]), np.zeros((3, 3)), [toy.path(i)], h, mod, ctrl, Regimes(), g, pool)
            return state_of(z[0])
        with engine.replaced((toy.FLIP, flip), (toy.INTEG, lambda *a, **kw: 0.0)):
            lv = R.explore(fn, key='forget-', wmin=3e-7)
        if not lv:
            return
        lost = max(lost, R.last.pruned)
        for l in lv:
            M[i, names.index(l.val)] += l.w
    M /= M.sum(1, keepdims=True)
    w, v = np.linalg.eig(M.T)
    pi = np.real(v[:, int(np.argmin(np.abs(w - 1)))])
    pi /= pi.sum()
    p0 = pi[1] + .5 * pi[0]
    ok = [quiet + (1 - quiet) * x for x in r]
    R.check(abs(p0 - ok[0] / sum(ok)) < 1e-4 + 4 * lost, 'forget-law', 'equilibrium probability of the bit %.6f, exactly %.6f (unexplored %.1g)' % (p0, ok[0] / sum(ok), lost), escape=cfg['e'])


def propose(cfg, R):
    """conditioning times: every interior observation time, independently, with the current probability; the regimes mutate between them"""
    n = cfg['n']
    t = np.array([0.0, .3, .85, 1.4, 1.55, 2.3])[:n]
    t[-1] = 2.3
    skel = K.Skeleton(np.array([0.0, .2, .7, 1.45]), np.array([0, 2, 1, 0]), 2.3)
    lam = np.array([[-1.0, .6, .4], [.2, -.5, .3], [.7, .8, -1.5]])
    orig = K.mutate_partition
    sig = inspect.signature(orig)
    h = T.Anchorage(np.sort(np.hstack([t, skel.t[1:]])), None, None)
    yt = np.array([skel.xt[np.searchsorted(skel.t, s, 'right') - 1] for s in h.t])
    h = T.Anchorage(h.t, yt, np.arange(len(yt)) * .1)
    for hist in ((), (1.0, 1.0), (0.0, 1.0, 0.0, 0.0)):
        seen = []

        def mutate(*a, **kw):
            v = sig.bind(*a, **kw).arguments
            seen.append((v['partition'], v['gen']))
            return v['partition']

        def fn(g):
            del seen[:]
            W = World(1, t, np.arange(n) * 1.0)
            out = {}

            def aug(th, y, t_, vt_, g_):
                out['y'] = y
                raise Stop
            W.sample_aug = aug
            s = A.MyopicMjpSampler(skel)
            for p in hist:
                s.adapt(skel, p)
            orig_p = s.propose

            def prop(*a, **kw):
                out['cond'] = orig_p(*a, **kw)
                return out['cond']
            s.propose = prop
            out['scale'] = s.log_prop_scale[-1]
            try:
                U.update_hidden(np.zeros((3, 2)), lam, [toy.path(i) for i in range(len(h.t) - 1)], h, W.model(), U.Controls(), s, g, pool)
            except Stop:
                pass
            return out, list(seen)
        with engine.replaced((orig, mutate)):
            lv = R.explore(fn, key='propose-', observe=False)
        if not lv:
            return
        dist = {}
        for l in lv:
            out, log = l.val
            if 'cond' not in out or 'y' not in out:
                R.fail('propose-once', 'one proposal, then its augmentation')
                return
            c = tuple(float(x) for x in out['cond'][1])
            dist[c] = dist.get(c, 0.0) + l.w
            y = out['y']
            R.check(np.allclose(y.t, skel.t, atol=1e-12) and np.array_equal(y.xt, skel.xt) and abs(y.fin_t - 2.3) < 1e-12, 'propose-parts', 'parts cut at conditioning times join to the kept path', got=y)
            if log:
                part, gen = log[-1]
                R.check(np.array_equal(gen, lam) and len(part) == len(c) + 1 and np.allclose(np.cumsum([p.fin_t for p in part]), list(c) + [2.3], atol=1e-12), 'propose-cut',
                        'the kept path is cut at the conditioning times and mutated under the current generator', cuts=c, durations=[p.fin_t for p in part])
        p = 1 / (1 + math.exp(out['scale']))
        for r in range(n - 1):
            for sub in it.combinations([float(x) for x in t[1:-1]], r):
                R.near(dist.pop(sub, 0.0), p ** len(sub) * (1 - p) ** (n - 2 - len(sub)), 1e-9, 'propose-law', 'probability of conditioning times %s' % (sub,), scale=out['scale'])
        R.check(not dist, 'propose-law', 'other conditioning times: %s' % list(dist)[:3])


class Stop(Exception):
    pass


def generator(cfg, R):
    for h in (H, T.Anchorage(H.t, np.array([0, 1, 0, 1, 1, 1]), H.vt), T.Anchorage(H.t[:2], np.array([1, 1]), H.vt[:2])):
        for a, b in ((1.0, 1.0), (2.5, .7)):
            n = 2
            off = np.diag([np.nan] * n)
            al, be = a * np.ones((n, n)) + off, b * np.ones((n, n)) + off
            be[0, 1] += .2
            al[1, 0] += .5
            tr, hold = np.zeros((n, n)), np.zeros(n)
            for dt, y0, y1 in zip(np.diff(h.t), h.yt, h.yt[1:]):
                hold[y0] += dt
                tr[y0, y1] += y0 != y1
            lv = R.explore(lambda g: U.update_generator(h, (al.copy(), be.copy()), g), key='generator-', K={'gamma': 4})
            if not lv:
                return
            for i, j in ((0, 1), (1, 0)):
                sh, ra = al[i, j] + tr[i, j], be[i, j] + hold[i]
                m = [sum(l.w * float(l.val[i, j]) ** k for l in lv) for k in (1, 2, 3)]
                R.near(m, [sh / ra, sh * (sh + 1) / ra ** 2, sh * (sh + 1) * (sh + 2) / ra ** 3], 1e-6, 'generator-law', 'moments of the rate %d to %d given the kept regimes' % (i, j))
            c = sum(l.w * float(l.val[0, 1]) * float(l.val[1, 0]) for l in lv) - np.prod([sum(l.w * float(l.val[i]) for l in lv) for i in ((0, 1), (1, 0))])
            R.near(c, 0.0, 1e-6, 'generator-law', 'rates are independent')
            R.check(all(abs(float(l.val.sum(1)[k])) < 1e-9 for l in lv for k in range(n)), 'generator-rows', 'rows sum to zero')


def wiring(cfg, R):
    """one iteration: every update starts from what the others left, and the iterate is the joint state"""
    cur = {}
    bad = []
    sg, sp, sh = [inspect.signature(f) for f in (U.update_generator, U.update_params, U.update_hidden)]
    calls = []

    def need(**kw):
        for k, v in kw.items():
            if v is not cur.get(k, v):
                bad.append('%s is not the current one' % k)

    def ug(*a, **kw):
        v = sg.bind(*a, **kw).arguments
        need(h=v['h'])
        calls.append('lam')
        cur['lam'] = np.eye(3) * len(calls)
        return cur['lam']

    def up(*a, **kw):
        v = sp.bind(*a, **kw).arguments
        need(thi=v['thi_nil'], z=v['z'], h=v['h'])
        calls.append('thi')
        cur['thi'], cur['z'] = v['thi_nil'] + .25, [toy.refine(z) for z in v['z']]
        return cur['thi'], cur['z']

    def uh(*a, **kw):
        v = sh.bind(*a, **kw).arguments
        need(thi=v['thi'], lam=v['lam'], z=v['z_nil'], h=v['h_nil'])
        calls.append('hid')
        cur['z'], cur['h'] = [toy.refine(z) for z in v['z_nil']], T.Anchorage(v['h_nil'].t, v['h_nil'].yt, v['h_nil'].vt + .5)
        return cur['z'], cur['h']

    def fn(g):
        cur.clear()
        del calls[:], bad[:]
        W = World(1, H.t, H.vt)

        def aug(th, y, t_, vt_, g_):
            cur['y'], cur['thi0'] = y, np.array(th)
            cur['h'] = T.Anchorage(H.t, H.yt, H.vt)
            cur['z'] = [toy.path(3 + k) for k in range(5)]
            return cur['z'], cur['h']
        W.sample_aug = aug
        nan = np.diag([np.nan] * 3)
        mod = W.model()._replace(hyper_lam=(np.ones((3, 3)) + nan, 2 * np.ones((3, 3)) + nan))
        gen = U.sample_posterior(np.array([.5, .7]), mod, U.Controls(), g)
        res = []
        for k in range(3):
            out = next(gen)
            res.append((sorted(calls), [a is b for a, b in zip(out, (cur['thi'], cur['lam'], cur['z'], cur['h']))], np.array(out[0])))
            del calls[:]
        return res, list(bad), cur['thi0'], cur['y']
    orig = K.sample_forwards
    sf = inspect.signature(orig)

    def fwd(*a, **kw):
        v = sf.bind(*a, **kw).arguments
        ref = np.full((3, 3), .5) - np.eye(3) * 1.5
        if v['fin_t'] != H.t[-1] or v['init_x'] is not None or not np.allclose(v['gen'], ref):
            bad.append('the first regimes come from the prior mean generator, started from its stationary law')
        return K.Skeleton(np.array([0.0]), np.array([1]), float(v['fin_t']))
    names = list(sf.parameters)
    if not {'fin_t', 'init_x', 'gen'} <= set(names):
        R.note('sample_forwards has other parameter names: start not checked')
        orig = None
    pairs = [(U.update_generator, ug), (U.update_params, up), (U.update_hidden, uh)] + ([(orig, fwd)] if orig else [])
    with engine.replaced(*pairs):
        lv = R.explore(fn, key='wiring-', observe=False)
    for l in lv:
        res, b, thi0, y = l.val
        R.check(not b, 'wiring-state', 'updates: %s' % b[:2])
        R.check(np.allclose(thi0, [[.5, .7]] * 3), 'wiring-start', 'every regime starts at the initial parameter')
        for k, (c, same, th) in enumerate(res):
            R.check(c == ['hid', 'lam', 'thi'], 'wiring-once', 'each update once per iteration', calls=c)
            R.check(all(same), 'wiring-iterate', 'the iterate is the joint state after the updates', same=same)
            R.check(np.allclose(th, np.array([[.5, .7]] * 3) + .25 * (k + 1)), 'wiring-start', 'parameters evolve from the initial parameter')
