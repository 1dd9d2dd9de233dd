"""C13: rejection samplers return only accepted proposals and stop at their budget."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.ea3lib import seed as Z
from ctbayes.ea3lib import skeleton as K
from ctbayes.misc.exceptions import BudgetConstraintError
from ctbayes.sdelib import hitting as H
from ctbayes.sdelib import layers as L
from ctbayes.sdelib import paths as P
from checks import c14
from mc import engine

RULE = 'all sequences of outcomes of the acceptance tests, with recognisable proposals, for every budgeted sampler: the returned proposal is the last one and passed all its tests, every earlier one failed one, and the budget error follows exactly the permitted number of failures'
BOUNDS = {'quick': 'budgets 1 to 4 (5 for single-test samplers); up to 3 values in a row from the endless samplers; one to three intervals per proposal',
          'thorough': 'budgets up to 6'}
ASSUME = ['the acceptance tests themselves are exact (decided by C07, C12)']

_bmin, _besc, _wesc, _bes, _prop, _raw, _kflip, _zraw, _zflip = (
    H.sample_brownbr_min, H.sample_bessel3br_esc, H.sample_brownbr_esc, P.sample_besselbr, P.propose_layerbr, K.sample_raw_skeleton,
    K.flip_poisson_coin, Z.sample_raw_seed, Z.flip_poisson_coin)
SIG = {f: inspect.signature(f) for f in (_bmin, _besc, _wesc, _bes, _prop, _raw, _kflip, _zraw, _zflip)}


def args(f, a, kw):
    b = SIG[f].bind(*a, **kw)
    b.apply_defaults()
    return b.arguments


def configs(tier, seed):
    top = 4 if tier == 'quick' else 6
    for budget in range(1, top + 1):
        for same in (False, True):
            yield dict(kind='min', budget=budget, same=same)
            yield dict(kind='edges', budget=budget, same=same)
            yield dict(kind='layer', budget=budget, same=same)
        for n in (0, 1, 2):
            for lb in (None, 1.5):
                if n < 2 or budget < 4:
                    yield dict(kind='edge', budget=budget, n=n, lb=lb)
        for n in (1, 2):
            yield dict(kind='layerbr', budget=budget, n=n)
    for budget in range(0, top):
        for items in (1, 2, 3):
            if budget * items <= 2 * top:
                yield dict(kind='skel', budget=budget, items=items)
                yield dict(kind='bridge', budget=budget, items=items)
    for form in ('sep', 'joint'):
        for w in ((0.0, 0.0), (-1.2, .4), (-math.inf, .3), (700.0, 699.0)):
            for p in ((.5, .25), (0.0, .6), (.05, .9)):
                yield dict(kind='coin', form=form, w=w, p=p, rounds=3)


class Log(object):
    def __init__(self):
        self.props = []      # proposals: list of test outcomes (True = passed)
        self.extra = {}

    def new(self):
        self.props.append([])
        return len(self.props)

    def test(self, g, i=None, p=.5):
        ok = bool(g.choice(2, p=[p, 1 - p]) == 0)
        self.props[(i or len(self.props)) - 1].append(ok)
        return ok


def judge(R, key, lv, budget, tests, ident):
    """lv values: (result or 'budget', Log)"""
    for l in lv:
        r, log = l.val
        n = len(log.props)
        what = dict(proposals=log.props, budget=budget)
        if not R.check(n <= budget, key + '-over', 'no more proposals than permitted', **what):
            return False
        if isinstance(r, str) and r == 'budget':
            ok = R.check(n == budget and all(not all(p) and len(p) for p in log.props), key + '-budget', 'the budget error follows exactly the permitted number of failures', **what)
        else:
            ok = R.check(n >= 1 and all(not all(p) and len(p) for p in log.props[:-1]), key + '-retry', 'a fresh proposal only after a failure', **what) \
                and R.check(all(log.props[-1]) and len(log.props[-1]) == tests, key + '-accepted', 'the last proposal passed all its %d tests' % tests, **what) \
                and R.check(ident(r, n, log), key + '-returned', 'the proposal returned is the one that passed', got=r, **what)
        if not ok:
            return False
    return True


def explore(R, fn, key, **kw):
    def go(g):
        log = Log()
        try:
            r = fn(g, log)
        except BudgetConstraintError:
            r = 'budget'
        return r, log
    return R.explore(go, key=key + '-', observe=False, **kw)


def run(cfg, R):
    k = cfg['kind']
    if k == 'coin':
        return c14.run(cfg, R)
    globals()['do_' + k](cfg, R)
    R.state(cfg)


def used(R, lv, key):
    if lv and not any(l.val[1].props for l in lv):
        R.note('proposals of %s not recognised' % key)
        return False
    return bool(lv)


def token_min(log):
    """distinct minima: proposal i has minimum -i/10 at time i/100"""
    i = log.new()
    return i / 100.0, -i / 10.0


def do_min(cfg, R):
    x0, x1 = (.5, .5) if cfg['same'] else (.4, .7)
    cur = {}

    def fn(g, log):
        def bmin(*a, **kw):
            v = args(_bmin, a, kw)
            cur['a'] = v
            return token_min(log)

        def esc(*a, **kw):
            v = args(_besc, a, kw)
            m, t = -len(log.props) / 10.0, len(log.props) / 100.0
            first = abs(float(v['fin_t']) - t) < 1e-9
            good = abs(float(v['fin_x']) - ((x0 if first else x1) - m)) < 1e-9 and v['init_x'] == 0 and abs(float(v['ue_x']) - (1.5 - m)) < 1e-9 and v['ub_x'] is None \
                and (first or abs(float(v['fin_t']) - (1.0 - t)) < 1e-9)
            log.extra['bad'] = log.extra.get('bad') or not good
            return not log.test(g)
        with engine.replaced((_bmin, bmin), (_besc, esc)):
            return H.sample_layerbr_min(1.0, x0, x1, 1.5, -2.0, .1, ome=g, max_props=cfg['budget'])
    lv = explore(R, fn, 'min')
    if not used(R, lv, 'minimum'):
        return
    judge_min(R, 'min', lv, cfg['budget'])
    for l in lv:
        R.check(not l.val[1].extra.get('bad'), 'min-tests', 'both sides of the proposed minimum are tested against the upper limit')
    v = cur['a']
    R.check((v['fin_t'], v['init_x'], v['fin_x'], v['lb_min_x'], v['ub_min_x']) == (1.0, x0, x1, -2.0, .1), 'min-args', 'proposals respect the given interval', got=[v[k] for k in ('fin_t', 'init_x', 'fin_x', 'lb_min_x', 'ub_min_x')])
    # without an upper limit the first proposal stands

    def fn2(g, log):
        with engine.replaced((_bmin, lambda *a, **kw: token_min(log))):
            return H.sample_layerbr_min(1.0, x0, x1, None, -2.0, .1, ome=g, max_props=cfg['budget'])
    judge(R, 'min', explore(R, fn2, 'min'), 1, 0, lambda r, n, log: tuple(r) == (n / 100.0, -n / 10.0))


def judge_min(R, key, lv, budget):
    """two tests per proposal; the second may be skipped once the first failed"""
    for l in lv:
        for p in l.val[1].props[:-1]:
            R.check(len(p) <= 2, key + '-tests', 'at most two tests per proposal', tests=p)
    judge(R, key, lv, budget, 2, lambda r, n, log: tuple(r) == (n / 100.0, -n / 10.0))


def do_edges(cfg, R):
    """layers two and up: accepted for sure without a crossing, with probability one half otherwise"""
    x0, x1 = (.5, .5) if cfg['same'] else (.4, .7)
    B = cfg['budget']

    def body(inner):
        def fn(g, log):
            res = log.extra['esc'] = []

            def lmin(*a, **kw):
                res.append([])
                return token_min(log)

            def esc(*a, **kw):
                v = args(_besc, a, kw)
                m = -len(log.props) / 10.0
                good = v['init_x'] == 0 and abs(float(v['ue_x']) - (1.2 - m)) < 1e-9 and v['ub_x'] is not None and abs(float(v['ub_x']) - (1.5 - m)) < 1e-9
                log.extra['bad'] = log.extra.get('bad') or not good
                f = bool(g.choice(2))
                res[-1].append(f)
                return f
            with engine.replaced((H.sample_layerbr_min, lmin), (_besc, esc)):
                return L.sample_edges(1.0, x0, x1, (-2.0, inner), (1.2, 1.5), ome=g, max_props=B)
        return fn
    lv = explore(R, body(.1), 'edges')
    if not used(R, lv, 'edges'):
        return
    none = some = 0.0
    for l in lv:
        r, log = l.val
        esc, n = log.extra['esc'], len(log.props)
        R.check(not log.extra.get('bad'), 'edges-tests', 'crossings of the inner level below the outer one are decided')
        ok = R.check(n <= B and all(len(e) == 2 for e in esc), 'edges-over', 'no more proposals than permitted, two crossings each', n=n, esc=esc)
        if r == 'budget':
            R.check(n == B and all(any(e) for e in esc), 'edges-budget', 'the budget error follows exactly the permitted failures', esc=esc)
        elif ok:
            R.check(all(any(e) for e in esc[:-1]) and abs(r[0] - n / 100.0) < 1e-12 and abs(r[1] + n / 10.0) < 1e-12 and r[2] == 1.2 and r[3] == 1.5 and [bool(b) for b in r[4]] == esc[-1],
                    'edges-returned', 'the accepted proposal with its own limits and flags is returned', got=r, esc=esc)
            if n == 1:
                if any(esc[0]):
                    some += l.w
                else:
                    none += l.w
    R.near(none, .25, 1e-9, 'edges-law', 'a proposal without crossing is always accepted')
    R.near(some, .375, 1e-9, 'edges-law', 'a proposal with a crossing is accepted with probability one half')
    # first layer: no crossing level to decide, the first proposal stands
    lv = explore(R, lambda g, log: first_layer(g, log, x0, x1, B), 'edges1')
    for l in lv:
        r, log = l.val
        R.check(r != 'budget' and len(log.props) == 1 and abs(r[1] + .1) < 1e-12 and r[4] is None, 'edges-first', 'in the first layer the first proposal stands and no flags are made', got=r)


def first_layer(g, log, x0, x1, B):
    with engine.replaced((H.sample_layerbr_min, lambda *a, **kw: token_min(log))):
        return L.sample_edges(1.0, x0, x1, (-2.0, min(x0, x1)), (max(x0, x1), 1.5), ome=g, max_props=B)


def do_layer(cfg, R):
    """two-sided bounds: a seed is kept only if the path does not leave the bounds, and the layer is decided with that seed"""
    x0, x1 = (.5, .5) if cfg['same'] else (.4, .7)
    lb, ub = -1.0, 1.9

    def fn(g, log):
        log.extra.update(seeds=[], later=[])

        def esc(*a, **kw):
            v = args(_wesc, a, kw)
            full = abs(float(v['ue_x']) - (ub - lb) / 2) < 1e-9 and abs(float(v['init_x']) - (x0 - (lb + ub) / 2)) < 1e-9
            done = log.props and all(log.props[-1])
            if not done:
                log.new()
                log.extra['seeds'].append(v['seed'])
                log.extra['full'] = log.extra.get('full', True) and full
                return not log.test(g)
            log.extra['later'].append((v['seed'], float(v['ue_x'])))
            if len(log.extra['later']) > 2:
                return False
            return bool(g.choice(2))
        with engine.replaced((_wesc, esc)):
            return int(L.sample_layer(1.0, x0, x1, lb, ub, g, cfg['budget']))
    lv = explore(R, fn, 'layer', K=1)
    if not used(R, lv, 'layer'):
        return

    def ident(r, n, log):
        later, seeds = log.extra['later'], log.extra['seeds']
        return r == len(later) and all(s is seeds[-1] or (not isinstance(s, (engine.LazyU, type(None))) and float(s) == float(seeds[-1])) for s, _ in later) \
            and all(a < b for (_, a), (_, b) in zip(later, later[1:])) and log.extra['full']
    judge(R, 'layer', lv, cfg['budget'], 1, ident)


def do_edge(cfg, R):
    """one to three intervals, each tested against the upper limit; then one flag per interval"""
    n, lb, B = cfg['n'], cfg['lb'], cfg['budget']
    t = np.array([.3, .6])[:n]

    def fn(g, log):
        log.extra.update(flags=[], path=None)

        def bes(*a, **kw):
            v = args(_bes, a, kw)
            i = log.new()
            return np.array([i * .1 + .01 * j for j in range(n)])

        def esc(*a, **kw):
            v = args(_besc, a, kw)
            level = float(v['ue_x'])
            if abs(level - 2.0) < 1e-12:
                if n == 0 and (not log.props or not all(log.props[-1])):
                    log.new()
                log.extra['bad'] = log.extra.get('bad') or v['ub_x'] is not None
                return not log.test(g)
            log.extra['bad'] = log.extra.get('bad') or abs(level - 1.5) > 1e-12 or v['ub_x'] != 2.0
            f = bool(g.choice(2))
            log.extra['flags'].append(f)
            return f
        with engine.replaced((_bes, bes), (_besc, esc)):
            return P.propose_layerbr_edge(t, 1.0, .8, 2.0, lb, g, B)
    lv = explore(R, fn, 'edge')
    if not used(R, lv, 'Bessel bridge'):
        return

    def ident(r, k, log):
        x, f = r
        return len(x) == n and np.allclose(x, [k * .1 + .01 * j for j in range(n)]) and ([bool(b) for b in f] if f is not None else []) == log.extra['flags'] \
            and len(log.extra['flags']) == (0 if lb is None else n + 1) and not log.extra.get('bad')
    judge(R, 'edge', lv, B, n + 1, ident)


def do_layerbr(cfg, R):
    n, B = cfg['n'], cfg['budget']
    t = np.array([.3, .6])[:n]
    for lb in (None, 1.1):
        def fn(g, log):
            log.extra['got'] = []

            def prop(*a, **kw):
                v = args(_prop, a, kw)
                log.extra['args'] = [v[k] for k in ('fin_t', 'init_x', 'fin_x', 'inf_x', 'ub_sup_x', 'lb_sup_x')]
                i = log.new()
                if lb is None:
                    return np.repeat(i * .1, n), []
                f = [bool(g.choice(2)) for _ in range(n + 1)]
                log.props[-1].append(any(f))
                log.extra['got'].append(f)
                return np.repeat(i * .1, n), f
            with engine.replaced((_prop, prop)):
                return P.sample_layerbr(t, 1.0, .3, .8, -.5, 2.0, lb, g, B)
        lv = explore(R, fn, 'layerbr')
        if not used(R, lv, 'layered bridge'):
            continue

        def ident(r, k, log):
            return np.allclose(r[0], np.repeat(k * .1, n)) and log.extra['args'] == [1.0, .3, .8, -.5, 2.0, lb] and \
                (r[1] is None or not len(r[1]) if lb is None else [bool(b) for b in r[1]] == log.extra['got'][-1])
        judge(R, 'layerbr', lv, B if lb is not None else 1, 0 if lb is None else 1, ident)


def stream(R, key, cfg, make):
    """endless samplers: values in a row, each with its own budget"""
    B, items = cfg['budget'], cfg['items']

    def fn(g):
        logs, out = [], []
        cur = {}
        it_ = make(g, lambda: cur['log'])
        for _ in range(items):
            cur['log'] = Log()
            logs.append(cur['log'])
            try:
                out.append(next(it_))
            except BudgetConstraintError:
                out.append('budget')
                break
        return out, logs
    return R.explore(fn, key=key + '-', observe=False)


def judge_stream(R, key, lv, B, tests, ident):
    class V(object):
        pass
    for l in lv:
        for r, log in zip(*l.val):
            v = V()
            v.val = (r, log)
            if not judge(R, key, [v], B, tests, ident):
                return


def do_skel(cfg, R):
    def make(g, log):
        ends = []

        def endpoints():
            for i in it.count():
                ends.append(i)
                yield .5 + .01 * i

        def raw(*a, **kw):
            v = args(_raw, a, kw)
            k = log().new()
            log().extra.setdefault('ends', []).append(v['fin_x'])
            log().extra['args'] = (v['fin_t'], v['init_x'], tuple(v['bounds_x']))
            return K.Skeleton(np.array([0, .5, 1.0]), np.array([.2, -k, v['fin_x']]), -float(k), 2.0, 1.0, None)

        def flip(*a, **kw):
            v = args(_kflip, a, kw)
            s = v['skel']
            log().extra['ok'] = log().extra.get('ok', True) and s.tight_x == -len(log().props)
            return log().test(g), s._replace(t=np.array([0, .25, .5, 1.0]), x=np.r_[.2, 7.0, s.x[1:]])
        st = engine.replaced((_raw, raw), (_kflip, flip))
        st.__enter__()
        try:
            s = K.sample_skeleton(1.0, .2, (-5.0, 5.0), endpoints(), lambda x: x, lambda a, b: (0, 0, 1), g, cfg['budget'])
            while True:
                yield next(s)
        finally:
            st.__exit__(None, None, None)
    lv = stream(R, 'skel', cfg, make)

    def ident(r, n, log):
        e = log.extra['ends']
        return r.tight_x == -n and len(r.t) == 4 and r.x[1] == 7.0 and r.x[-1] == e[-1] and all(b - a > .005 for a, b in zip(e, e[1:])) and len(e) == n \
            and log.extra['ok'] and log.extra['args'] == (1.0, .2, (-5.0, 5.0))
    if lv and (cfg['budget'] == 0 or any(l.val[1][0].props for l in lv)):
        judge_stream(R, 'skel', lv, cfg['budget'], 1, ident)


def do_bridge(cfg, R):
    lw = -.4

    def make(g, log):
        def raw(*a, **kw):
            v = args(_zraw, a, kw)
            k = log().new()
            return Z.SeedSkeleton(np.array([0, .5, 1.0]), np.array([0.0, -k, 0.0]), -float(k), 2.0, 1.0, None)

        def flip(*a, **kw):
            v = args(_zflip, a, kw)
            s = v['seed']
            log().extra['ok'] = log().extra.get('ok', True) and s.tight_z == -len(log().props)
            ok = log().test(g)
            return ok, lw, s._replace(s=np.array([0, .25, .5, 1.0]), z=np.r_[0.0, 7.0, s.z[1:]])
        st = engine.replaced((_zraw, raw), (_zflip, flip))
        st.__enter__()
        try:
            s = Z.sample_bridge((-5.0, 5.0), lambda t, x: (t, x), lambda s, z: (s, z), lambda x: x, lambda a, b: (0, 0, 1), g, cfg['budget'])
            while True:
                yield next(s)
        finally:
            st.__exit__(None, None, None)
    lv = stream(R, 'bridge', cfg, make)
    if not lv:
        return
    B = cfg['budget']
    # the coin and the weight decide together: the weight test is not visible, its law is checked instead
    first = 0.0
    for l in lv:
        for r, log in zip(*l.val):
            n = len(log.props)
            what = dict(proposals=log.props, budget=B)
            R.check(n <= B and all(len(p) == 1 for p in log.props), 'bridge-over', 'no more proposals than permitted', **what)
            if r == 'budget':
                R.check(n == B, 'bridge-budget', 'the budget error follows exactly the permitted number of failures', **what)
            else:
                R.check(n >= 1 and all(log.props[-1]) and r.tight_z == -n and len(r.s) == 4 and r.z[1] == 7.0 and log.extra['ok'], 'bridge-returned', 'the proposal returned is the one that passed, as refined by its coin', got=r, **what)
        r, log = l.val[0][0], l.val[1][0]
        if not isinstance(r, str):
            first += l.w
    p = .5 * math.exp(lw)
    R.near(first, 1 - (1 - p) ** B, 1e-9, 'bridge-law', 'probability that one of %d proposals is accepted' % B)
