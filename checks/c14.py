"""C14: the two-coin Bernoulli factories have the exact head probability."""
import math

import numpy as np

from ctbayes.misc import bfactories as B
from ctbayes.misc.exceptions import BudgetConstraintError
from mc import engine

RULE = 'all outcomes of every uniform draw (decided exactly at each comparison) and coin flip over a bounded number of rounds; exact probabilities of heads, tails and escape'
BOUNDS = {'quick': 'up to 6 rounds and round budgets 1 to 4, over grids of weights (from equal to astronomically different, and zero), coin biases 0 to 1 and escape probabilities 0 to 1',
          'thorough': 'up to 8 rounds, finer grids'}
ASSUME = ['coins are independent flips with constant bias']


def configs(tier, seed):
    W = [(0.0, 0.0), (-1.2, .4), (700.0, 699.0), (-3000.0, -2998.5), (-math.inf, .3), (.3, -math.inf), (2.0, -1.0), (-800.0, 0.0)]
    Pp = [(1.0, 1.0), (.5, .25), (.05, .9), (0.0, .6), (.7, 0.0), (.3, .3)]
    if tier != 'quick':
        W += [(1.0, 3.0), (-.1, 0.0), (40.0, 0.0), (-1e5, -1e5 + 1)]
        Pp += [(.01, .01), (.99, .5), (1.0, 0.0), (0.0, 0.0)]
    for form in ('sep', 'joint'):
        for w in W:
            for p in Pp:
                yield dict(form=form, w=w, p=p, rounds=6 if tier == 'quick' else 8)


class Coins(object):
    """coins delivering a fresh token with every flip"""

    def __init__(self, g, p, limit):
        self.g, self.p, self.limit, self.flips = g, p, limit, []

    def flip(self, k):
        if self.limit and len(self.flips) >= self.limit:
            raise engine.Prune
        ok = bool(self.g.choice(2, p=[1 - self.p[k], self.p[k]])) if 0 < self.p[k] < 1 else self.p[k] > .5
        tok = ('state', k, len(self.flips))
        self.flips.append((k, ok, tok))
        return ok, tok

    def sep(self, k):
        while True:
            yield self.flip(k)

    def joint(self):
        state = yield None, 'start'
        while True:
            state = yield self.flip(0 if state else 1)


def exact(w, p, e, n):
    """probabilities of heads, tails, escape and of going on after n rounds"""
    m = max(w)
    a1, a2 = math.exp(w[0] - m), math.exp(w[1] - m)
    v = a1 / (a1 + a2), a2 / (a1 + a2)
    h, t = v[0] * p[0], v[1] * p[1]
    f = v[0] * (1 - p[0]) + v[1] * (1 - p[1])
    c = f * (1 - e)
    k = sum(c ** i for i in range(n))
    return h * k, t * k, f * e * k, c ** n


def run(cfg, R):
    w, p, form = tuple(-math.inf if v == '-inf' else v for v in cfg['w']), cfg['p'], cfg['form']
    for e in (0, .01, .4, 1):
        for budget in (None, 1, 2, 3, 4):
            n = budget or cfg['rounds']

            def fn(g):
                c = Coins(g, p, None if budget else n)
                kw = {} if budget is None else dict(max_props=budget)
                try:
                    if form == 'sep':
                        r = B.sample_twocoin(w[0], w[1], c.sep(0), c.sep(1), e, 'fallback', g, **kw)
                    else:
                        r = B.sample_twocoin_joint(w[0], w[1], c.joint(), e, g, **kw)
                except BudgetConstraintError:
                    r = 'budget'
                return r, list(c.flips)
            lv = R.explore(fn, key=form + '-')
            ref = exact(w, p, e, n)
            got = [0.0] * 4
            got[3] = R.last.pruned
            for l in lv:
                r, flips = l.val
                if r == 'budget':
                    got[3] += l.w
                    R.check(budget is not None and len(flips) == budget and not any(f[1] for f in flips), 'budget', 'the budget error comes after exactly the permitted failures', flips=flips, budget=budget)
                    continue
                ok = R.check(len(r) == 3, 'shape', 'three results')
                if not ok:
                    return
                heads, esc, state = bool(r[0]), bool(r[1]), r[2]
                k = 2 if esc else (0 if heads else 1)
                got[k] += l.w
                if not R.check(not any(f[1] for f in flips[:-1]), 'after-success', 'no flips after a success', flips=flips):
                    return
                if esc:
                    R.check(not heads and not flips[-1][1], 'escape-tails', 'an escape is tails and follows a failure', flips=flips)
                    R.check(state == ('fallback' if form == 'sep' else flips[-1][2]), 'escape-state', 'an escape returns the fallback or the latest state', got=state, flips=flips)
                else:
                    R.check(flips[-1][1] and flips[-1][0] == k and state == flips[-1][2], 'state', 'the returned state is the one delivered by the successful flip of the right coin', got=r, flips=flips)
            for k, name in enumerate(('heads', 'tails', 'escape', 'unfinished')):
                R.check(abs(got[k] - ref[k]) < 1e-9, form + '-' + name, 'probability of %s within %d rounds: %.10g, exactly %.10g' % (name, n, got[k], ref[k]), escape=e, budget=budget)
            R.sample(dict(p=got, exact=ref))
