"""C17: observations survive any sequence of hidden-path updates."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.ea3lib import seed as Z
from ctbayes.misc import adapt as A
from ctbayes.mjplib import skeleton as K
from ctbayes.switching import mcmc as U, types as T
from ctbayes.switching.models import ou
from checks import toy
from mc import engine

RULE = 'the real hidden-path update (regime proposal, augmentation, splitting, section updates, joining) run as a transition system: every subset of conditioning times, every pattern of accepted sections and every variant of the mutated regimes, to a depth; invariants on the hidden state after every step; splitting and joining at every subset for every hidden state'
BOUNDS = {'quick': '2 to 5 observations on five time grids (decimal, thirds, large offset spacing, tiny spacing); depth 2 with all choices, depth 16 with restricted choices; up to two more switches per section',
          'thorough': 'depth 4 with all choices for 3 observations, depth 2 for 4 on every grid; depth 60 with restricted choices'}
ASSUME = ['regime proposals keep the states at conditioning times (C03)', 'no switch falls exactly on an observation (probability zero)']

GRIDS = {'tenths': [0, .1, .2, .3, .7, 1.1], 'thirds': [0, 1 / 3, 2 / 3, 1.1, 4 / 3, 1.9], 'long': [0, 1e5 / 3, 7e4 + .1, 123456.7, 2e5 + .3, 3e5 + .7],
         'tiny': [0, 1.1e-6, 2.3e-6, 3.1e-6, 7.7e-6, 9.1e-6], 'mixed': [0, 1e-3, 1.7, 1.7 + 1e-3, 1000.3, 1e3 + 1.1]}
VT = [.4, -.2, 1.1, .3, -.7, .9]
PATTERNS, ACCEPTS = 4, 4


def configs(tier, seed):
    for g in GRIDS:
        for n in (2, 3, 4):
            if n < 4 or tier != 'quick' or g in ('tenths', 'mixed'):
                yield dict(kind='steps', grid=g, n=n, depth=2)
        yield dict(kind='steps', grid=g, n=3, depth=3 if tier == 'quick' or g != 'tenths' else 4)
        for n in (4, 5, 6):
            yield dict(kind='long', grid=g, n=n, depth=16 if tier == 'quick' else 60)
            yield dict(kind='split', grid=g, n=n)
        for n in (2, 3):
            yield dict(kind='split', grid=g, n=n)


def run(cfg, R):
    t = np.array(GRIDS[cfg['grid']][:cfg['n']], float)
    vt = np.array(VT[:cfg['n']])
    dict(steps=steps, long=steps, split=split)[cfg['kind']](cfg, R, t, vt)


THI = np.array([[.5, 1.4], [1.2, .8], [.9, 1.0]])
LAM = np.array([[-1.0, .6, .4], [.2, -.5, .3], [.7, .8, -1.5]])
MUTATE, RAW = K.mutate_partition, Z.sample_raw_seed
SIGM = inspect.signature(K.mutate_partition)
SIGR = inspect.signature(Z.sample_raw_seed)


def variant(skel, which, first, last, salt):
    """a regime path of the same duration, with the same state at inner ends"""
    a, b, d = int(skel.xt[0]), int(skel.xt[-1]), float(skel.fin_t)
    if first and last:
        a = b = (a + 1) % 3
    elif first:
        a = (b + which) % 3
    elif last:
        b = (a + which) % 3
    f = .31 + .0171 * (salt % 11)
    pts = [(0.0, a)]
    if which:
        pts += [(f * d, (a + 1) % 3), ((f + .23) * d, (a + 2) % 3)]
    if pts[-1][1] != b:
        pts.append(((f + .41) * d, b))
    return K.Skeleton(np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), skel.fin_t)


class Machine(object):
    """the hidden state and everything around it"""

    def __init__(self, t, vt, cfg, g):
        self.t, self.vt, self.g, self.k, self.n_id = t, vt, g, 0, 0
        self.long = cfg['kind'] == 'long'
        self.mod = U.Model(t, vt, ou.bounds_thi, (np.ones((3, 3)), np.ones((3, 3))), lambda thi: 0.0, ou.sample_aug, ou.gen_normops, self.lik, ou.eval_disc,
                           ou.eval_bounds_disc, ou.eval_bounds_grad)
        self.ctrl = U.Controls(pr_portkey=0.0, precoin=False)
        self.paths = {}

    def lik(self, *a):
        return 0.0, 0.0

    def raw(self, *a, **kw):
        v = SIGR.bind(*a, **kw).arguments
        fin_t = float(v['denorm_rsde'](np.ones(1), None)[0][0])
        self.n_id += 1
        self.paths[self.n_id] = (fin_t, [float(v['denorm_rsde'](np.array([x]), np.zeros(1))[1][0]) for x in (0.0, 1.0)])
        return toy.path(self.n_id)

    def flip(self, *a, **kw):
        return True, 0.0, toy.args(toy.FLIP, a, kw)['seed']

    def integ(self, *a, **kw):
        """with restricted choices the weights decide which sections are accepted"""
        if not self.long:
            return 0.0
        i = toy.ident(toy.args(toy.INTEG, a, kw)['seed']) - self.first
        if i < 0:
            return 0.0
        sec = int(np.searchsorted(self.got['cond'], self.got['h'].t[i], 'right'))
        acc = (True, (sec + self.k) % 2 == 0, (sec + self.k) % 3 > 0, sec == self.k % 3)[self.acc]
        return 1e7 if acc else -1e7

    def mutate(self, *a, **kw):
        p = SIGM.bind(*a, **kw).arguments['partition']
        which = int(self.g.choice(2)) if not self.long else self.k % 2
        return [variant(s, (which + i) % 2, i == 0, i == len(p) - 1, self.k + i) for i, s in enumerate(p)]


def pool(tasks):
    return [f(*a, **kw) for f, a, kw in tasks]


def value(y, s):
    return int(y.xt[np.searchsorted(y.t, s, 'right') - 1])


def invariant(R, m, z, h, ys=None, key='state'):
    t = np.asarray(h.t)
    ok = R.check(len(h.t) == len(h.yt) == len(h.vt) == len(z) + 1, key + '-sizes', 'one path per pair of neighbouring anchors', sizes=[len(h.t), len(h.yt), len(h.vt), len(z)])
    ok = ok and R.check(bool(np.all(np.diff(t) > 0)), key + '-increasing', 'anchor times strictly increase', t=t)
    if not ok:
        return False
    at = {float(a): i for i, a in enumerate(t)}
    for s, v in zip(m.t, m.vt):
        i = at.get(float(s))
        if not R.check(i is not None, key + '-observation', 'observation time %r is among the anchors' % float(s), nearest=float(t[np.argmin(np.abs(t - s))]), step=m.k):
            return False
        if not R.check(h.vt[i] == v, key + '-value', 'observed value at %r is kept' % float(s), got=h.vt[i], want=v):
            return False
    ok = R.check(t[0] == m.t[0] and t[-1] == m.t[-1], key + '-ends', 'first and final time are kept', got=t[[0, -1]])
    d = {float(s) for s in m.t}
    for i in range(1, len(t) - 1):
        if float(t[i]) not in d:
            ok &= R.check(h.yt[i] != h.yt[i - 1], key + '-anchor', 'an anchor is an observation or a switch', at=t[i])
    for i, z_ in enumerate(z):
        dur, v = m.paths[toy.ident(z_)]
        ok &= R.near([dur] + v, [t[i + 1] - t[i], h.vt[i], h.vt[i + 1]], 1e-7, key + '-path', 'each path was proposed for its segment') if not math.isclose(dur, t[i + 1] - t[i], rel_tol=1e-6) or not np.allclose(v, [h.vt[i], h.vt[i + 1]]) else True
    return ok


def steps(cfg, R, t, vt):
    n = cfg['n']
    scale = float(t[-1])
    y0 = K.Skeleton(np.array([0.0, .22 * scale, .61 * scale]), np.array([1, 0, 2]), scale)
    store = {}

    def fn(g):
        m = Machine(t, vt, cfg, g)
        store['m'] = m
        z, h = ou.sample_aug(THI, y0, t, vt, g)
        ok = invariant(R, m, z, h)
        ok = ok and regimes(R, h, [(0.0, scale, y0)])
        s = A.MyopicMjpSampler(y0)
        s.log_prop_scale[-1] = 0.0
        trace = []
        pat = int(g.choice(PATTERNS)) if m.long else None
        m.acc = int(g.choice(ACCEPTS)) if m.long else None
        for k in range(cfg['depth']):
            if not ok:
                return None
            m.k = k
            if m.long:      # restricted choices: which times condition and which sections are accepted follow a pattern
                cond = [x for i, x in enumerate(t[1:-1]) if (pat == 0) or (pat == 1 and (i + k) % 2) or (pat == 2 and k % 3) or (pat == 3 and i == k % 3)]
            old, ytrue = h, s.state
            got = m.got = {}
            m.first = m.n_id + 1
            orig, add = s.propose, m.mod.sample_aug

            def prop(*a, **kw):
                if m.long:
                    # the same as the mechanism would do at these times
                    got['cond'] = np.array(cond)
                    got['y'] = K.paste_partition(m.mutate(K.partition_skeleton(s.state, got['cond']), LAM))
                else:
                    got['y'], got['cond'] = orig(*a, **kw)
                return got['y'], got['cond']
            s.propose = prop

            def aug(*a, **kw):
                got['z'], got['h'] = add(*a, **kw)
                return got['z'], got['h']
            m.mod = m.mod._replace(sample_aug=aug)
            z2, h2 = U.update_hidden(THI, LAM, list(z), h, m.mod, m.ctrl, s, g, pool)
            m.mod = m.mod._replace(sample_aug=add)
            s.propose = orig
            ok = R.check({'y', 'h', 'cond'} <= set(got), 'state-proposal', 'one proposal and its augmentation') and invariant(R, m, got['z'], got['h'], key='proposal') and invariant(R, m, z2, h2)
            if not ok:
                return None
            # every section comes whole from the old or from the new state
            cut = [t[0]] + [float(c) for c in got['cond']] + [t[-1]]
            pieces, acc = [], []
            for a, b in zip(cut, cut[1:]):
                part = [[toy.ident(z_) for z_, u in zip(zz, hh.t) if a - 1e-9 * scale <= u < b - 1e-9 * scale] for zz, hh in ((z2, h2), (z, old), (got['z'], got['h']))]
                new = part[0] == part[2]
                ok = ok and R.check(new or part[0] == part[1], 'state-section', 'each section is the old or the proposed one', section=(a, b), paths=part)
                acc.append(new)
                pieces.append((a, b, got['y'] if new else ytrue))
            ok = ok and regimes(R, h2, pieces) and R.check(np.array_equal(s.state.xt, T.prune_anchorage(h2).xt) and np.array_equal(s.state.t, T.prune_anchorage(h2).t) and s.state.fin_t == t[-1], 'state-regimes', 'the mechanism continues from the kept regimes', state=s.state)
            trace.append((tuple(float(c) for c in got['cond']), tuple(acc)))
            z, h = z2, h2
            R.state((h.t, h.yt, h.vt))
        return tuple(trace)

    with engine.replaced((MUTATE, lambda *a, **kw: store['m'].mutate(*a, **kw)), (RAW, lambda *a, **kw: store['m'].raw(*a, **kw)),
                         (toy.FLIP, lambda *a, **kw: store['m'].flip(*a, **kw)), (toy.INTEG, lambda *a, **kw: store['m'].integ(*a, **kw))):
        lv = R.explore(fn, key='', K={'normal': 1}, observe=False, max_depth=100000)
    if cfg['kind'] == 'long' and lv and len(lv) < PATTERNS * ACCEPTS:
        raise RuntimeError('restricted choices not all explored')
    R.check(bool(lv) and sum(l.val is not None for l in lv) > 0 or bool(R.fails), 'explored', 'some executions finish')
    if lv:
        R.sample(dict(executions=len(lv), trace=[l.val for l in lv][-1]))


def regimes(R, h, pieces):
    ok = True
    for a, b, y in pieces:
        for i, s in enumerate(h.t[:-1]):
            if a - 1e-12 <= s < b - 1e-9 * (b - a):
                mid = (s + h.t[i + 1]) / 2
                ok = ok and R.check(value(y, mid) == h.yt[i], 'state-regime', 'the regime after an anchor is that of the regime path', at=s, got=h.yt[i], want=value(y, mid))
    y = pieces[-1][2]
    ok = ok and R.check(h.yt[-1] == y.xt[-1], 'state-regime', 'the final regime is that of the regime path', got=h.yt[-1], want=y.xt[-1])
    want = sum(len([s for s in y.t if a < s < b]) for a, b, y in pieces) + len({float(c) for a, b, y in pieces for c in (a, b)})
    return ok


def split(cfg, R, t, vt):
    if not hasattr(U, 'split_hidden') or not hasattr(U, 'paste_hidden'):
        R.note('no separate splitting and joining')
        return
    scale = float(t[-1])
    for p in range(4):
        d = np.diff(t)
        jumps = []
        for i, (a, w) in enumerate(zip(t, d)):
            jumps += [a + f * w for f in [(), (.3,), (.2, .55, .9)][(p + i) % 3]]
        y = K.Skeleton(np.array([0.0] + jumps), np.array([(i + p) % 3 for i in range(len(jumps) + 1)]), scale)
        store = {}

        def fn(g):
            m = Machine(t, vt, cfg, g)
            store['m'] = m
            return (m,) + tuple(ou.sample_aug(THI, y, t, vt, g))
        with engine.replaced((Z.sample_raw_seed, lambda *a, **kw: store['m'].raw(*a, **kw))):
            lv = R.explore(fn, key='split-', K={'normal': 1}, observe=False)
        for l in lv:
            m, z, h = l.val
            if not invariant(R, m, z, h, key='augmentation') or not regimes(R, h, [(0.0, scale, y)]):
                return
            R.check(len(h.t) == len(t) + len(jumps), 'augmentation-anchors', 'one anchor per observation and switch')
            for r in range(len(t) - 1):
                for sub in it.combinations(t[1:-1], r):
                    ok, parts = R.call(U.split_hidden, list(z), h, np.array(sub), key='split-')
                    if not ok:
                        return
                    zp, hp = parts
                    R.state((h.t, sub))
                    if not R.check(len(zp) == len(hp) == len(sub) + 1, 'split-count', 'one section more than split times', sections=len(zp), times=sub):
                        return
                    cut = [0] + [int(np.where(h.t == s)[0][0]) for s in sub] + [len(h.t) - 1]
                    for k, (i, j) in enumerate(zip(cut, cut[1:])):
                        R.check([toy.ident(z_) for z_ in zp[k]] == [toy.ident(z_) for z_ in z[i:j]] and np.array_equal(hp[k].yt, h.yt[i:j + 1]) and np.array_equal(hp[k].vt, h.vt[i:j + 1])
                                and np.allclose(np.diff(hp[k].t), np.diff(h.t[i:j + 1]), rtol=1e-9, atol=0), 'split-section', 'a section has the anchors and paths between its ends', times=sub)
                    ok, back = R.call(U.paste_hidden, zp, hp, key='split-')
                    if not ok:
                        return
                    z2, h2 = back
                    R.check([toy.ident(z_) for z_ in z2] == [toy.ident(z_) for z_ in z] and np.array_equal(h2.t, h.t) and np.array_equal(h2.yt, h.yt) and np.array_equal(h2.vt, h.vt), 'split-join',
                            'joining the sections restores the state', times=sub, off=[float(a - b) for a, b in zip(h2.t, h.t) if a != b][:3])
