"""C11: refining a skeleton never rewrites what was revealed."""
import inspect
import itertools as it

import numpy as np

from ctbayes.ea3lib import seed as Z
from ctbayes.ea3lib import skeleton as K
from ctbayes.sdelib import paths as P
from mc import engine

RULE = 'all sequences of requests from a menu of time sets on every kind of skeleton, with every outcome of the layered-bridge sampler on a menu (values near both limits and inside, all admissible crossing-flag patterns); shorter histories with the real sampler'
BOUNDS = {'quick': 'up to 3 requests (the third from five time sets) of up to 4 times each (new, repeated, overlapping, endpoints, the extremum); minimum- and maximum-anchored; no flags and all flag patterns; unit and non-unit duration; original and normalised form',
          'thorough': 'up to 4 requests'}
ASSUME = ['the layered-bridge sampler meets its own contract (decided by C10)']

TT = .37   # position of the extremum
REQ = {'a': [.3], 'b': [.1, .7], 'c': [.3, .7], 'd': [0, .5, 1], 'e': [.1, .3, .7, .9], 'f': [0], 'g': [1], 'h': [TT], 'i': [.05, TT, .77]}
HITS = [None, (True, False), (False, True), (True, True), (False, False)]
_lb = P.sample_layerbr
_sig = inspect.signature(_lb)


def configs(tier, seed):
    depth = 3 if tier == 'quick' else 4
    for T in ((1.0, .7) if tier == 'quick' else (1.0, .7, 2.3)):
        for up in (False, True):
            for h in range(len(HITS)):
                for first in REQ:
                    yield dict(kind='stub', T=T, up=up, h=h, first=first, depth=depth, wmin=4e-2)
    for T in (1.0, .7):
        for up in (False, True):
            for h in range(len(HITS)):
                yield dict(kind='seed', T=T, up=up, h=h, wmin=6e-2 if tier == 'quick' else 3e-2)
                yield dict(kind='real', T=T, up=up, h=h, wmin=4e-2 if tier == 'quick' else 1e-2)
    yield dict(kind='flip')


def make(T, up, h, cls=K.Skeleton):
    """a skeleton anchored at its minimum, or the mirror image anchored at its maximum"""
    x0, x1 = (.2, .5) if cls is K.Skeleton else (0.0, 0.0)
    t, x = np.array([0, TT * T, T]), np.array([x0, -.4, x1])
    tight, loose, hit = -.4, 1.1, .8
    if HITS[h] is None:
        hit = .5 if cls is K.Skeleton else 0.0
    if up:
        x, tight, loose, hit = -x, -tight, -loose, -hit
    return cls(t, x, tight, loose, hit, None if HITS[h] is None else list(HITS[h]))


class Stub(object):
    def __init__(self):
        self.log, self.calls = [], 0

    def __call__(self, *a, **kw):
        b = _sig.bind(*a, **kw)
        b.apply_defaults()
        v = b.arguments
        t, T, x0, x1, lo, ub, lb, g = np.asarray(v['t'], float), float(v['fin_t']), float(v['init_x']), float(v['fin_x']), float(v['inf_x']), v['ub_sup_x'], v['lb_sup_x'], v['ome']
        self.calls += 1
        ok = len(t) and 0 < t[0] and np.all(np.diff(t) > 0) and t[-1] < T and lo <= min(x0, x1) and (ub is None or max(x0, x1) < ub) and (lb is None or ub is None or lb < ub)
        self.log.append((ok, t.copy(), T, x0, x1, lo, ub, lb))
        if not ok:
            raise AssertionError('bad request to the layered-bridge sampler')
        top = 2.0 if ub is None else float(ub)
        k = int(g.choice(2))
        fr = [(.03, .55, .9), (.96, .3, .6)][k]
        x = np.array([lo + fr[i % 3] * (top - lo) for i in range(len(t))])
        if lb is None:
            return x, None
        z = np.r_[x0, x, x1]
        must = [max(p, q) > lb for p, q in zip(z[:-1], z[1:])]
        pats = [p for p in it.product((False, True), repeat=len(must)) if any(p) and all(b or not m for b, m in zip(p, must))]
        if len(pats) > 3:
            pats = [pats[0], pats[len(pats) // 2], pats[-1]]
        return x, list(pats[int(g.choice(len(pats)))])


class Watch(object):
    """passes everything on and counts uses"""

    def __init__(self, g):
        self.__dict__.update(g=g, n=0)

    def __getattr__(self, name):
        self.__dict__['n'] += 1
        return getattr(self.g, name)


def snap(s):
    return [np.array(s[0], float), np.array(s[1], float)] + [float(v) for v in s[2:5]] + [None if s[5] is None else [bool(b) for b in s[5]]]


def same(a, b, tol=1e-9):
    return all(np.allclose(p, q, atol=tol, rtol=0) for p, q in zip(a[:2], b[:2])) if len(a[0]) == len(b[0]) else False


class Bad(Exception):
    pass


def step(old, req, ask, g, T, known, stub):
    """one request; raises Bad on a broken promise.  `known`: revealed {time: value} in skeleton coordinates"""
    def need(c, key, **d):
        if not c:
            raise Bad(key, d)
    before = snap(old)
    w = Watch(g)
    if stub is not None:
        stub.log = []
    t = np.array(req, float)
    tc = t.copy()
    new, x = ask(old, t, w)
    x = np.asarray(x, float)
    a = snap(new)
    need(np.array_equal(t, tc) and snap(old)[5] == before[5] and all(np.array_equal(p, q) for p, q in zip(snap(old)[:2], before[:2])) and snap(old)[2:5] == before[2:5], 'mutates-inputs')
    need(x.shape == t.shape, 'shape', values=x)
    nt, nx = a[0], a[1]
    need(len(nt) == len(nx) and np.all(np.diff(nt) > 0), 'sorted', times=nt)
    need(abs(nt[0]) < 1e-12 and abs(nt[-1] - T) < 1e-12, 'span', times=nt)
    for tt, xx in zip(before[0], before[1]):
        i = int(np.argmin(np.abs(nt - tt)))
        need(abs(nt[i] - tt) < 1e-12 and abs(nx[i] - xx) < 1e-9, 'rewritten', time=tt, was=xx, now=nx[i])
    isnew = [u for u in t if np.min(np.abs(before[0] - u)) > 1e-9]
    need(len(nt) == len(before[0]) + len(isnew), 'extra-times', before=before[0], after=nt, request=t)
    for u, xx in zip(t, x):
        i = int(np.argmin(np.abs(nt - u)))
        need(abs(nt[i] - u) < 1e-12 and abs(nx[i] - xx) < 1e-9, 'value-returned', time=u, returned=xx, stored=nx[i])
        k = [known[v] for v in known if abs(v - u) < 1e-9]
        need(not k or abs(k[0] - xx) < 1e-9, 'value-again', time=u, before=k, now=xx)
    need(len(isnew) or w.n == 0, 'draws-again', uses=w.n)
    need(np.allclose(a[2:5], before[2:5], atol=1e-9), 'limits-changed', before=before[2:5], after=a[2:5])
    lo, hi = min(a[2], a[3]), max(a[2], a[3])
    need(np.all(nx >= lo - 1e-9) and np.all(nx <= hi + 1e-9), 'outside-limits', values=nx)
    if before[5] is None:
        need(a[5] is None, 'flags-appear', flags=a[5])
    else:
        need(a[5] is not None, 'flags-lost', request=t)
        need(len(a[5]) == len(nt) - 1, 'flags-count', flags=a[5], times=nt)
        sgn = 1 if a[2] < a[3] else -1
        for j in range(len(before[0]) - 1):
            i0, i1 = [int(np.argmin(np.abs(nt - before[0][q]))) for q in (j, j + 1)]
            sub = a[5][i0:i1]
            need(any(sub) == before[5][j], 'flags-crossing', sector=j, was=before[5][j], now=sub)
            if i1 == i0 + 1:
                need(sub == [before[5][j]], 'flags-untouched', sector=j)
        for j, f in enumerate(a[5]):
            need(f or max(sgn * nx[j], sgn * nx[j + 1]) <= sgn * a[4] + 1e-9, 'flags-above', flags=a[5], values=nx, level=a[4])
    if stub is not None and stub.calls:
        conditioning(before, isnew, stub.log, need)
    for u, xx in zip(nt, nx):
        known.setdefault(float(u), float(xx))
    return new, x


def conditioning(b, isnew, log, need):
    """each affected sector is drawn once, between its own neighbours, limits and crossing level"""
    up = b[2] > b[3]
    sgn, T = (-1, b[0][-1]) if up else (1, 0)
    want = []
    for j in range(len(b[0]) - 1):
        ts = [u - b[0][j] for u in isnew if b[0][j] < u < b[0][j + 1]]
        if not ts:
            continue
        d = b[0][j + 1] - b[0][j]
        ends = (b[1][j], b[1][j + 1])
        if up:
            ts, ends = [d - u for u in ts[::-1]], ends[::-1]
        flag = None if b[5] is None else b[5][j]
        ub = b[3] if flag in (None, True) else b[4]
        lb = b[4] if flag else None
        want.append((d, tuple(ts), ends, ub, lb))
    got = list(log)

    def match(w, g):
        d, ts, ends, ub, lb = w
        _, t, T_, x0, x1, lo, gub, glb = g
        r = 0.0
        if not (len(t) == len(ts) and abs(T_ - d) < 1e-9 and np.allclose(t, ts, atol=1e-9)):
            return False
        if (lb is None) != (glb is None):
            return False
        # coordinates: as they are, or mirrored about any level: compare distances to the lower limit
        tight, s = b[2], sgn
        q = [s * (ends[0] - tight), s * (ends[1] - tight), s * (ub - tight)] + ([] if lb is None else [s * (lb - tight)])
        p = [x0 - lo, x1 - lo, gub - lo] + ([] if glb is None else [glb - lo])
        return np.allclose(p, q, atol=1e-9)
    need(len(got) == len(want), 'sector-draws', drawn=len(got), affected=len(want))
    for w in want:
        k = [i for i, g in enumerate(got) if match(w, g)]
        need(k, 'sector-conditioning', expected=[w[0], w[1], w[2], w[3], w[4]], drawn=[list(g[1:]) for g in got])
        got.pop(k[0])


def history(R, s0, T, seq, ask, stub, wmin, prefix, **kw):
    def fn(g):
        known = {float(u): float(v) for u, v in zip(s0[0], s0[1])}
        s, out = s0, []
        for i, r in enumerate(seq):
            try:
                s, x = step(s, [u * T for u in REQ[r]], ask(i), g, T, known, stub)
            except Bad as e:
                return ('bad', e.args[0], e.args[1], i)
            out.append(x)
        return ('ok', snap(s), out)
    lv = R.explore(fn, key=prefix, wmin=wmin, observe=False, **kw)
    for l in lv:
        R.traces += 1
        if l.val[0] == 'bad':
            R.fail(prefix + l.val[1], 'request %d of %s: %s %s' % (l.val[3], '-'.join(seq), l.val[1], l.val[2]), path=l.path)
            return False
        R.state(l.val[1])
    return True


def ask_skel(i):
    return lambda s, t, g: K.interpolate_skeleton(s, t, g)


def run(cfg, R):
    if cfg['kind'] == 'flip':
        return flip(R)
    T = cfg['T']
    if cfg['kind'] == 'stub':
        st = Stub()
        s0 = make(T, cfg['up'], cfg['h'])
        seqs = [(cfg['first'],) + r for r in it.product(REQ, *['aeifg'] * (cfg['depth'] - 2))]
        with engine.replaced((_lb, st)):
            for q in seqs:
                if not history(R, s0, T, q, ask_skel, st, cfg['wmin'], ''):
                    break
            if not st.calls:
                R.note('layered-bridge sampler not called through its module')
        return
    if cfg['kind'] == 'seed':
        st = Stub()
        s0 = make(1.0, cfg['up'], cfg['h'], Z.SeedSkeleton)
        ops = normops(T)
        inv = [o[1] for o in ops]
        with engine.replaced((_lb, st)):
            for q in it.product('abdeg', repeat=3):
                if not history(R, s0, 1.0, q, ask_seed(ops, T, R), st, cfg['wmin'], 'seed-'):
                    break
        return
    s0 = make(T, cfg['up'], cfg['h'])
    for q in it.product('abcd', repeat=2):
        if not history(R, s0, T, q, ask_skel, None, cfg['wmin'], 'real-', K=1):
            break
    call(R, s0, T, cfg)


def normops(T):
    """two parameter values: same durations, different end points"""
    def mk(x0, x1):
        def norm(t, x):
            s = t / T
            return s, None if x is None else (x - x0 - s * (x1 - x0)) / np.sqrt(T)

        def de(s, z):
            return s * T, None if z is None else z * np.sqrt(T) + x0 + s * (x1 - x0)
        return norm, de, x0, x1
    return [mk(.3, -.2), mk(1.4, 2.0)]


def ask_seed(ops, T, R):
    def ask(i):
        norm, de, x0, x1 = ops[i % 2]

        def go(s, u, g):
            t = u * T
            new, x = Z.interpolate_seed(s, t, norm, de, g)
            if not isinstance(new, Z.SeedSkeleton):
                raise Bad('seed-type', {})
            # back to seed coordinates for the bookkeeping
            return new, (np.asarray(x) - x0 - u * (x1 - x0)) / np.sqrt(T)
        return go
    return ask


def call(R, s, T, cfg):
    """the callable form: values of revealed times, refusal beyond the span"""
    g = np.random.default_rng(1)
    ok, x = R.call(lambda: s(np.array([0.0, s.t[1], T]), g), key='call-')
    if ok:
        R.near(x, s.x, 1e-9, 'call-values', 'calling a skeleton at revealed times')
    for u in ([T * 1.01], [.5 * T, 1.5 * T]):
        ok, e = R.call(lambda: s(np.array(u), g), key='call-', allow=(ValueError,))
        R.check(not ok, 'call-beyond', 'times beyond the span are refused', times=u)
    if T == 1.0:
        z = make(1.0, cfg['up'], cfg['h'], Z.SeedSkeleton)
        norm, de, x0, x1 = normops(1.0)[0]
        ok, x = R.call(lambda: z(np.array([0.0, TT, 1.0]), norm, de, g), key='call-')
        if ok:
            R.near(x, z.z + x0 + z.s * (x1 - x0), 1e-9, 'call-values', 'calling a seed at revealed times')
        ok, e = R.call(lambda: z(np.array([1.01]), norm, de, g), key='call-', allow=(ValueError,))
        R.check(not ok, 'call-beyond', 'times beyond the span are refused')


def flip(R):
    for T in (1.0, .7, 1e-3, 50.0):
        for up in (False, True):
            for h in range(len(HITS)):
                s = make(T, up, h)
                b = snap(s)
                ok, f = R.call(lambda: K.flip_skeleton(s), key='flip-')
                if not ok:
                    continue
                ok, r = R.call(lambda: K.flip_skeleton(f), key='flip-')
                if not ok:
                    continue
                R.check(all(np.array_equal(p, q) for p, q in zip(snap(s)[:2], b[:2])) and snap(s)[2:] == b[2:], 'flip-mutates')
                f, r = snap(f), snap(r)
                R.check(np.allclose(r[0], b[0], atol=1e-12 * T) and np.allclose(r[1], b[1]) and np.allclose(r[2:5], b[2:5]) and r[5] == b[5], 'flip-twice', 'flipping twice restores', was=b, now=r)
                m = b[1][0] + b[1][-1]
                R.check(np.allclose(f[0], T - b[0][::-1], atol=1e-12 * T) and np.allclose(f[1], m - b[1][::-1]) and np.allclose(f[2:5], m - np.array(b[2:5]))
                        and f[5] == (None if b[5] is None else b[5][::-1]), 'flip-mirror', 'mirror image about the mean of the end points, time reversed', was=b, now=f)
                R.state(f)
