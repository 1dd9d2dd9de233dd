"""C10: layered-bridge values respect their constraints and crossing flags."""
import inspect
import itertools as it
import math

import numpy as np

from ctbayes.misc.exceptions import BudgetConstraintError
from ctbayes.sdelib import hitting as H
from ctbayes.sdelib import paths as P
from mc import engine, harness
from checks import oracle as O

RULE = 'all branches of the layered-bridge samplers end to end for the constraints; and, with the unconstrained path and the minimum drawn from finite menus, the exact law of values, acceptance and crossing flags against eigenfunction and image expansions'
BOUNDS = {'quick': 'up to 3 requested times; minimum at start, at end or inside (before, between and after the times); with and without upper limit and crossing level; executions of weight above 2e-5',
          'thorough': 'executions of weight above 1e-6'}
ASSUME = ['escape decisions and the unconstrained samplers are exact (decided by C06, C07, C09)']


def configs(tier, seed):
    w = 2e-5 if tier == 'quick' else 1e-6
    for t in ([], [.5], [.2, .7], [.1, .5, .9]):
        for T in (1.0, .3):
            for ub, lb in ((None, None), (2.2, None), (2.2, 1.5), (2.2, .9), (None, 1.4), (1.3, 1.25), (2.2, .3)):
                yield dict(kind='edge', t=t, T=T, y=.8, ub=ub, lb=lb, wmin=w / 20)
                for side in (0, 1):
                    yield dict(kind='ends', t=t, T=T, side=side, ub=ub, lb=lb, wmin=w)
                if len(t) < 3:
                    for x, y in ((.5, .8), (1.2, .4)):
                        if x == 1.2 and ub == 1.3:
                            continue
                        yield dict(kind='inner', t=t, T=T, x=x, y=y, ub=ub, lb=lb, wmin=w)
    for t in ([.5], [.3, .6]):
        for x, y, inf in ((.5, .8, 0.0), (.8, .5, 0.0), (0.0, .7, 0.0), (.7, 0.0, 0.0), (.5, .6, -.3)):
            for ub, lb in ((None, None), (1.1, None), (1.1, .95), (None, .9)):
                yield dict(kind='e2e', t=t, T=.4, x=x, y=y, inf=inf, ub=ub, lb=lb, wmin=w)
    for ub, lb in ((None, None), (1.6, None), (1.6, 1.2), (None, 1.2)):
        for s in (.3, .6):
            yield dict(kind='law1', s=s, T=.5, y=.7, ub=ub, lb=lb)


def run(cfg, R):
    dict(edge=edge, ends=ends, inner=inner, e2e=e2e, law1=law1)[cfg['kind']](cfg, R)


# the menu of unconstrained Bessel paths: shape functions of the position in the bridge from 0 to y
SHAPES = [(.45, lambda p, y: y * p + .6 * p * (1 - p)), (.35, lambda p, y: y * p + 2.6 * p * (1 - p)), (.2, lambda p, y: y * p ** 3 + .9 * math.sin(math.pi * p) ** 2 + .02 * (1 - p))]


def menu(t, T, y, k):
    return np.array([SHAPES[k][1](float(s) / T, y) for s in t])


class Stub(object):
    """menus in place of the unconstrained samplers; `limit` proposals per execution, further ones are abandoned:
    given that the first proposals are accepted, the law is that of an accepted proposal"""

    def __init__(self, limit=None):
        self.calls, self.limit, self.run, self.mins = 0, limit, 0, 0

    def fresh(self, fn):
        def go(g):
            self.run = self.mins = 0
            return fn(g)
        return go

    def bessel(self, *a, **kw):
        b = _sig_bes.bind(*a, **kw)
        b.apply_defaults()
        v = b.arguments
        self.calls += 1
        self.run += 1
        if self.limit and self.run > self.limit:
            raise engine.Prune
        if v['dim'] != 3:
            raise AssertionError('dimension %s' % v['dim'])
        k = int(v['ome'].choice(len(SHAPES), p=[s[0] for s in SHAPES]))
        return menu(np.asarray(v['t'], float), float(v['fin_t']), float(v['fin_x']), k)

    def minimum(self, *a, **kw):
        b = _sig_min.bind(*a, **kw)
        b.apply_defaults()
        v = b.arguments
        self.calls += 1
        self.args = (float(v['fin_t']), float(v['init_x']), float(v['fin_x']), v['ub_x'], v['lb_min_x'], v['ub_min_x'])
        self.mins += 1
        if self.mins > 1:
            raise engine.Prune
        return MINS[self.k][1] * float(v['fin_t']), MINS[self.k][2]


MINS = [(.3, .08, .1), (.3, .4, .25), (.25, .63, -.2), (.15, .93, .3)]
_bes, _min = P.sample_besselbr, H.sample_layerbr_min
_sig_bes, _sig_min = inspect.signature(_bes), inspect.signature(_min)


def flags_law(t, x, ub, lb):
    """acceptance probability and per-interval flag probabilities of a path (relative to its minimum)"""
    acc, fl = 1.0, []
    for dt, a, b in zip(np.diff(t), x[:-1], x[1:]):
        acc *= 1.0 if ub is None else O.bes_stay(dt, a, b, ub)
        fl.append(None if lb is None else O.bes_esc(dt, a, b, lb, ub))
    return acc, fl


def edge_law(t, T, y, ub, lb):
    """{(shape, flags): probability that a proposal has this shape, is accepted and gets these flags}"""
    out = {}
    for k, (p, _) in enumerate(SHAPES):
        x = menu(t, T, y, k)
        acc, fl = flags_law(np.r_[0, t, T], np.r_[0, x, y], ub, lb)
        if lb is None:
            out[k, ()] = p * acc
            continue
        for pat in it.product((False, True), repeat=len(fl)):
            q = np.prod([f if b else 1 - f for f, b in zip(fl, pat)])
            out[k, pat] = out.get((k, pat), 0.0) + p * acc * q
    if not len(t):  # shapes are invisible without times
        o = {}
        for (k, pat), p in out.items():
            o[0, pat] = o.get((0, pat), 0.0) + p
        out = o
        s = sum(p for p, _ in SHAPES)
        acc, fl = flags_law(np.r_[0, T], np.r_[0, y], ub, lb)
        assert abs(sum(out.values()) - acc * s) < 1e-9
    return out


def which(t, T, y, x):
    if not len(t):
        return 0
    for k in range(len(SHAPES)):
        if np.allclose(menu(t, T, y, k), x, atol=1e-9):
            return k
    return None


def norm_flags(f):
    return tuple(bool(v) for v in f) if f is not None else ()


def edge(cfg, R):
    t, T, y, ub, lb = np.array(cfg['t']) * cfg['T'], cfg['T'], cfg['y'], cfg['ub'], cfg['lb']
    ref = edge_law(t, T, y, ub, lb)
    A = sum(ref.values())
    for budget in (1, 2, 3):
        st = Stub()
        with engine.replaced((_bes, st.bessel)):
            lv = R.explore(lambda g: P.propose_layerbr_edge(t, T, y, ub, lb, g, budget), allow=(BudgetConstraintError,), key='edge-', wmin=cfg['wmin'])
        pruned = R.last.pruned
        if len(t) and not st.calls:
            return R.note('unconstrained sampler not called: law with menus not compared')
        d, rej = {}, 0.0
        for l in lv:
            if l.exc is not None:
                rej += l.w
                continue
            x, f = l.val
            k = which(t, T, y, x)
            if not R.check(k is not None and len(x) == len(t), 'edge-values', 'values come from the proposal', got=x):
                return
            key = (k, norm_flags(f))
            d[key] = d.get(key, 0.0) + l.w
        R.check(abs(rej - (1 - A) ** budget) < pruned + 1e-7, 'edge-budget', 'probability that %d proposals fail: %.8g, exactly %.8g' % (budget, rej, (1 - A) ** budget))
        mult = sum((1 - A) ** j for j in range(budget))
        for key in set(d) | set(ref):
            R.check(abs(d.get(key, 0.0) - ref.get(key, 0.0) * mult) < pruned + 1e-7, 'edge-law', 'probability of path and flags %s: %.8g, exactly %.8g'
                    % (key, d.get(key, 0.0), ref.get(key, 0.0) * mult), budget=budget)


def rel(v, m):
    return None if v is None else v - m


def conditional(law):
    s = sum(law.values())
    return {k: v / s for k, v in law.items()}


def compare(R, lv, ref, key, st, need):
    """ref: {(values rounded, flags): prob}"""
    if need and not st.calls:
        return R.note('stubbed samplers not called: law with menus not compared')
    d, pruned = {}, R.last.pruned
    mass = sum(l.w for l in lv) if st.limit else 1.0
    if mass < .01:
        return R.note('acceptance too rare in one configuration')
    for l in lv:
        k = (tuple(round(float(v), 8) for v in l.val[0]), norm_flags(l.val[1]))
        d[k] = d.get(k, 0.0) + l.w / mass
    slack = (2e-3 / mass ** .5 if st.limit else pruned) + 2e-6
    for k in sorted(set(d) | set(ref), key=str):
        R.check(abs(d.get(k, 0.0) - ref.get(k, 0.0)) < slack, key, 'probability of values %s with flags %s: %.8g, exactly %.8g (pruned %.1g)'
                % (k[0], k[1], d.get(k, 0.0), ref.get(k, 0.0), pruned))
    R.sample(dict(pruned=pruned, outcomes=len(d)))


def ends(cfg, R):
    """minimum at the start (side 0) or at the end (side 1)"""
    t, T, ub, lb = np.array(cfg['t']) * cfg['T'], cfg['T'], cfg['ub'], cfg['lb']
    m, y = -.3, .5
    ref = {}
    tt = t if cfg['side'] == 0 else T - t[::-1]
    for (k, fl), p in conditional(edge_law(tt, T, y - m, rel(ub, m), rel(lb, m))).items():
        x = menu(tt, T, y - m, k) + m
        if cfg['side']:
            x, fl = x[::-1], fl[::-1]
        key = (tuple(np.round(x, 8)) if len(t) else (), fl)
        ref[key] = ref.get(key, 0.0) + p
    a, b = (m, y) if cfg['side'] == 0 else (y, m)
    st = Stub(1 if len(t) else None)
    with engine.replaced((_bes, st.bessel)):
        lv = R.explore(st.fresh(lambda g: P.propose_layerbr(t, T, a, b, m, ub, lb, g)), key='ends-', wmin=cfg['wmin'] * (1 if len(t) else 10))
        compare(R, lv, ref, 'ends-law', st, len(t))
        if len(t) and lb is not None:
            sample_with_flags(R, lambda g: P.sample_layerbr(t, T, a, b, m, ub, lb, g), ref, cfg['wmin'], st)


def sample_with_flags(R, fn, ref, wmin, st):
    s = sum(p for (x, f), p in ref.items() if any(f))
    if s < .15:
        return
    lv = R.explore(st.fresh(fn), key='sample-', wmin=wmin)
    for l in lv:
        R.check(any(norm_flags(l.val[1])), 'sample-any', 'at least one crossing flag', got=l.val)
    compare(R, lv, {k: p / s for k, p in ref.items() if any(k[1])}, 'sample-law', st, True)


def inner(cfg, R):
    """minimum strictly inside: drawn from a menu"""
    t, T, x, y, ub, lb = np.array(cfg['t']) * cfg['T'], cfg['T'], cfg['x'], cfg['y'], cfg['ub'], cfg['lb']
    inf = -1.0
    if lb is not None and lb <= .3:
        lb = .9
    for k, (p, f, m) in enumerate(MINS):
        mt = f * T
        tl, tr = t[t < mt], t[t >= mt] - mt
        tl_ = mt - tl[::-1]
        ref = {}
        left = conditional(edge_law(tl_, mt, x - m, rel(ub, m), rel(lb, m)))
        right = conditional(edge_law(tr, T - mt, y - m, rel(ub, m), rel(lb, m)))
        for (i, fl), pl in left.items():
            for (j, fr), pr in right.items():
                xs = np.r_[menu(tl_, mt, x - m, i)[::-1] if len(tl) else [], menu(tr, T - mt, y - m, j) if len(tr) else []] + m
                fl_ = fl[::-1]
                flags = () if lb is None else fl_[:-1] + (fl_[-1] or fr[0],) + fr[1:]
                key = (tuple(np.round(xs, 8)), flags)
                ref[key] = ref.get(key, 0.0) + pl * pr
        st = Stub((len(tl) > 0) + (len(tr) > 0))
        st.k = k
        w = cfg['wmin'] * (1 if len(tl) and len(tr) else 5)
        with engine.replaced((_bes, st.bessel), (_min, st.minimum)):
            lv = R.explore(st.fresh(lambda g: P.propose_layerbr(t, T, x, y, inf, ub, lb, g)), key='inner-', wmin=w)
            if st.calls:
                a = st.args
                R.check(a[:3] == (T, x, y) and a[3] == ub and a[4] == inf and (a[5] is None or a[5] == min(x, y)), 'inner-minimum',
                        'the minimum is drawn for this bridge below the upper limit and above the infimum', args=list(a))
            compare(R, lv, ref, 'inner-law', st, True)
            if lb is not None and len(t) == 1 and k == 1:
                sample_with_flags(R, lambda g: P.sample_layerbr(t, T, x, y, inf, ub, lb, g), ref, w, st)


def e2e(cfg, R):
    """no stand-ins: constraints on every execution"""
    t, T, x, y, inf, ub, lb = np.array(cfg['t']) * cfg['T'], cfg['T'], cfg['x'], cfg['y'], cfg['inf'], cfg['ub'], cfg['lb']
    edgecase = inf in (x, y)
    tc = t.copy()
    K = {'normal': 2, 'default': 2, 'uniform': 2}
    lv = R.explore(lambda g: P.sample_layerbr(t, T, x, y, inf, ub, lb, g), key='e2e-', wmin=cfg['wmin'] * (25 if edgecase else 12), K=K, observe=False)
    for l in lv:
        v, f = np.asarray(l.val[0], float), l.val[1]
        R.check(v.shape == t.shape, 'e2e-shape', 'one value per time', got=v)
        R.check(np.all(v >= inf) and (ub is None or np.all(v < ub)), 'e2e-limits', 'values between the limits', got=v)
        if lb is None:
            continue
        z = np.r_[x, v, y]
        ok = f is not None and len(f) == len(t) + 1
        R.check(ok, 'e2e-flags', 'one flag per sub-interval', got=f)
        if ok:
            R.check(any(f), 'e2e-any', 'at least one flag', got=f)
            R.check(all(b or max(p, q) <= lb for b, p, q in zip(f, z[:-1], z[1:])), 'e2e-above', 'a flag on every sub-interval with an end above the level', values=z, flags=f, level=lb)
    R.check(np.array_equal(t, tc), 'mutates', 'inputs unchanged')
    for l in lv[:200]:
        R.state(l.val)


def law1(cfg, R):
    """end to end law at one time for the minimum at the start: acceptance and flag probabilities integrated over the value"""
    T, y, ub, lb = cfg['T'], cfg['y'], cfg['ub'], cfg['lb']
    s = cfg['s'] * T
    t = np.array([s])
    K = 7
    lv = R.explore(lambda g: P.propose_layerbr_edge(t, T, y, ub, lb, g, 1), allow=(BudgetConstraintError,), key='law1-', K={'normal': K}, observe=False, wmin=1e-8)
    ok = [l for l in lv if l.exc is None]
    acc = sum(l.w for l in ok)
    tol = 6e-3 + R.last.pruned + (.3 if harness.inexact(lv) else 0)
    # density of a Bessel bridge from 0 to y at s
    xs = np.linspace(1e-4, 6, 4000)
    q = xs / y * (T / s) ** 1.5 * np.exp(-xs ** 2 / (2 * s) + y ** 2 / (2 * T)) * (
        np.exp(-(y - xs) ** 2 / (2 * (T - s))) - np.exp(-(y + xs) ** 2 / (2 * (T - s)))) / math.sqrt(2 * math.pi * (T - s))
    dx = xs[1] - xs[0]
    assert abs(q.sum() * dx - 1) < 1e-3
    ref, mom = {}, {}
    for x, p in zip(xs[::8], q[::8] * dx * 8):
        if ub is not None and x >= ub:
            continue
        a, fl = flags_law(np.array([0, s, T]), np.array([0, x, y]), ub, lb)
        for pat in it.product((False, True), repeat=2 if lb is not None else 0):
            r = p * a * np.prod([f if b else 1 - f for f, b in zip(fl, pat)])
            ref[pat] = ref.get(pat, 0.0) + r
            mom[pat] = mom.get(pat, 0.0) + r * x * x
    if ub is not None:
        R.check(abs(sum(ref.values()) - O.bes_stay(T, 0, y, ub)) < 2e-3, 'law1-oracle', 'oracle self check')
    R.check(abs(acc - sum(ref.values())) < tol, 'law1-accept', 'probability of acceptance %.5g, exactly %.5g' % (acc, sum(ref.values())))
    for pat in ref:
        ls = [l for l in ok if norm_flags(l.val[1]) == pat]
        p, m = sum(l.w for l in ls), sum(l.w * float(l.val[0][0]) ** 2 for l in ls)
        R.check(abs(p - ref[pat]) < tol and abs(m - mom[pat]) < 4 * tol, 'law1-flags', 'flags %s: probability %.5g, second moment %.5g, exactly %.5g, %.5g' % (pat, p, m, ref[pat], mom[pat]))
