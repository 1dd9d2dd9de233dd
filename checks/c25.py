"""C25: path transformations are exact and invertible."""
import itertools as it
import math

import numpy as np
from scipy import integrate, stats

from ctbayes.sdelib import transforms as TR
from ctbayes.ea3lib import skeleton as EK
from mc import engine, harness

RULE = 'every path over a menu of times and values (all subsets of times, all value patterns) for reversal and reflection; every skeleton over a menu with all flag patterns for flipping; every seed over a menu for the bridge and norm transforms, with the stated transform evaluated independently; the seeded extremum: exact branch probabilities by bisection of its selection levels, quadrature over the rest, against the joint law of extremum and its time; equal seeds compared across shifts, scalings and durations'
BOUNDS = {'quick': 'all subsets of 6 times with all value patterns of 3 values (up to 4 points), 4 durations; bridges: 4 times, 3 seed values per coordinate, 5 durations, 9 end-point pairs, 4 clocks; extrema: 24 bridges, 12 levels of the extremum, 40 nodes',
          'thorough': 'value patterns of up to 5 points; 60 bridges, 30 levels, 80 nodes'}
ASSUME = ['seed noise is standard: a Brownian bridge from 0 to 0 over unit time (three independent ones for the Bessel bridge), uniforms and a chi-square with one degree of freedom']


def configs(tier, seed):
    big = tier != 'quick'
    for fin in (1.0, .7, 2.5, 13.0):
        yield dict(kind='paths', fin=fin, size=5 if big else 4)
    for fin in (1.0, .3, 2.0, .01, 40.0):
        yield dict(kind='bridge', fin=fin)
        yield dict(kind='bessel', fin=fin)
    yield dict(kind='skeletons')
    cases = [(T, a, b) for T in (1.0, .25, 3.0) for a, b in ((0, 0), (.5, 1.2), (1.2, .5), (-1, 2), (2, -1), (0, .1), (-3, -3), (10, 11))]
    if big:
        cases += [(T, a, b) for T in (.01, 10.0, 100.0) for a, b in ((0, 0), (.5, 1.2), (-1, 2), (2, -1), (0, .1), (-3, -3), (10, 11), (.5, -8), (-8, .5), (0, 2), (2, 0), (1, 1.001))]
    for T, a, b in cases:
        yield dict(kind='extremum', T=T, a=float(a), b=float(b), levels=30 if big else 12, k=80 if big else 40)


def run(cfg, R):
    globals()[cfg['kind']](cfg, R)


def paths_(fin, size):
    grid = [0.0, .1 * fin, .25 * fin, .5 * fin, .8 * fin, fin]
    for n in range(0, size + 1):
        for ts in it.combinations(grid, n):
            for xs in it.product((-1.0, 0.0, 1.7), repeat=n):
                yield np.array(ts), np.array(xs)


def paths(cfg, R):
    fin = cfg['fin']
    for t, x in paths_(fin, cfg['size']):
        t0, x0 = t.copy(), x.copy()
        ok, v = R.call(TR.reverse, t, x, fin, key='reverse.')
        if not ok:
            return
        rt, rx = (np.asarray(a, float) for a in v)
        if not (R.check(np.allclose(rt, [fin - q for q in t[::-1]], rtol=0, atol=1e-12 * fin) and np.array_equal(rx, x[::-1]), 'reverse.map', 'reversal maps times to the remaining time, with the values', t=t, x=x, got=(rt, rx)) and
                R.check(np.array_equal(t, t0) and np.array_equal(x, x0), 'reverse.input', 'input is not changed')):
            return
        ok, v = R.call(TR.reverse, rt, rx, fin, key='reverse.')
        if not ok or not R.check(np.allclose(v[0], t, rtol=0, atol=1e-12 * fin) and np.array_equal(v[1], x), 'reverse.twice', 'reversing twice restores the path', t=t, x=x, got=v):
            return
        for c in (0.0, -2.0, 1.7, 40.0):
            for tt in (t, None) if len(t) else (None,):
                ok, v = R.call(TR.reflect, tt, x, c, key='reflect.')
                if not ok:
                    return
                mt, mx = v
                if not (R.check((mt is None) == (tt is None) and (tt is None or np.array_equal(mt, t)), 'reflect.times', 'mirroring keeps the times', t=t, got=mt) and
                        R.check(np.allclose(np.asarray(mx) - c, -(x - c), rtol=0, atol=1e-12 * (1 + abs(c))), 'reflect.map', 'mirroring maps distances to the level to their negatives', x=x, level=c, got=mx) and
                        R.check(np.array_equal(x, x0), 'reflect.input', 'input is not changed')):
                    return
                ok, v = R.call(TR.reflect, mt, mx, c, key='reflect.')
                if not ok or not R.check(np.allclose(v[1], x, rtol=0, atol=1e-12 * (1 + abs(c))), 'reflect.twice', 'mirroring twice restores the path', x=x, level=c, got=v[1]):
                    return
            if len(x):
                ok, v = R.call(TR.reflect, t, np.repeat(c, len(t)), c, key='reflect.')
                if not ok or not R.check(np.array_equal(v[1], np.repeat(c, len(t))), 'reflect.level', 'the mirror level is fixed', level=c, got=v[1]):
                    return
        R.state((fin, tuple(t), tuple(x)))
    for bad in ([-.1], [0.0, 1.01 * fin], [.5 * fin, 2 * fin]):
        try:
            v = TR.reverse(np.array(bad), np.zeros(len(bad)), fin)
            R.check(False, 'reverse.outside', 'times outside the duration are refused', t=bad, got=v)
        except Exception:
            pass


CLOCKS = {'same': (lambda t: t, lambda s: s), 'double': (lambda t: 2 * t, lambda s: s / 2), 'square': (lambda t: t * t, lambda s: math.sqrt(s)), 'exp': (lambda t: math.expm1(.8 * t), lambda s: math.log1p(s) / .8)}
ENDS = [(0.0, 0.0), (0.0, 1.5), (1.5, 0.0), (-2.0, .5), (.5, -2.0), (3.0, 3.0), (-1.0, -1.0), (100.0, 101.0), (0.0, 1e-3)]


def bridge(cfg, R):
    T = cfg['fin']
    if T > 30:
        clocks = ('same', 'double', 'square')
    else:
        clocks = tuple(CLOCKS)
    grid = (0.0, .2, .55, 1.0)
    for n in range(1, 5):
        for s in it.combinations(grid, n):
            for z in it.product((-1.1, 0.0, .6), repeat=n):
                z = [0.0 if q in (0.0, 1.0) else r for q, r in zip(s, z)]
                for x0, x1 in ENDS:
                    for c in clocks:
                        nt, dt = CLOCKS[c]
                        kw = {} if c == 'same' and z[0] > 0 else dict(norm_time=nt, denorm_time=dt)
                        S, Zs = np.array(s), np.array(z)
                        ok, v = R.call(TR.pivot_brownbr, S, Zs, T, x0, x1, key='bridge.', **kw)
                        if not ok:
                            return
                        A = nt(T)
                        wt = [dt(q * A) for q in s]
                        wx = [r * math.sqrt(A) + (1 - q) * x0 + q * x1 for q, r in zip(s, z)]
                        if not (R.check(np.allclose(v[0], wt, rtol=1e-12, atol=1e-13), 'bridge.times', 'seed times are mapped to the clock of the bridge', s=s, T=T, clock=c, got=v[0], want=wt) and
                                R.check(np.allclose(v[1], wx, rtol=1e-12, atol=1e-12), 'bridge.values', 'bridge is the affine image of its seed', s=s, z=z, T=T, ends=(x0, x1), clock=c, got=v[1], want=wx) and
                                R.check(np.array_equal(S, s) and np.array_equal(Zs, z), 'bridge.input', 'seed is not changed')):
                            return
                R.state((T, s, tuple(z)))


def bessel(cfg, R):
    T = cfg['fin']
    xs = np.array([0.0, .01, .5, 1.3, 6.0]) * max(1.0, math.sqrt(T))
    for n in (1, 2):
        for s in it.combinations((.1, .5, .85), n):
            for z in it.product((-1.2, 0.0, .7), repeat=3 * n):
                Z_ = np.array(z).reshape(n, 3)
                keep = Z_.copy()
                for x in xs:
                    ok, v = R.call(TR.gen_seeded_bessel3br, np.array(s), Z_, T, x, key='bessel.')
                    if not ok:
                        return
                    w = [math.sqrt((math.sqrt(T) * r[0] + q * x) ** 2 + T * r[1] ** 2 + T * r[2] ** 2) for q, r in zip(s, Z_)]
                    if not (R.check(np.allclose(v[0], np.array(s) * T, rtol=1e-12), 'bessel.times', 'seed times are scaled by the duration', s=s, T=T, got=v[0]) and
                            R.check(np.allclose(v[1], w, rtol=1e-11, atol=1e-12), 'bessel.values', 'Bessel bridge is the distance of a bridge that ends at the given distance', s=s, z=z, T=T, x=x, got=v[1], want=w) and
                            R.check(np.array_equal(Z_, keep), 'bessel.input', 'seed is not changed')):
                        return
                R.state((T, s, z))
    # law at one time: the same as that of the direct sampler
    for s in (.3, .8):
        for x in (.5 * math.sqrt(T), 2.0 * math.sqrt(T)):
            sd = math.sqrt(s * (1 - s))
            fs = [lambda r: math.exp(-r * r / T), lambda r: 1 / (1 + r * r / T)]

            def fn(g):
                z = np.array([[float(engine.settle(g.normal())) * sd for _ in range(3)]])
                return float(TR.gen_seeded_bessel3br(np.array([s]), z, T, x)[1][0])
            ls = R.explore(fn, key='bessel.', K={'normal': 12, 'default': 12}, observe=False)
            if not ls:
                return
            # squared distance over T s (1 - s): non-central chi-square with 3 degrees of freedom
            law = stats.ncx2(3, s * s * x * x / (T * s * (1 - s)))
            for h in fs:
                got = sum(l.w * h(l.val) for l in ls)
                want = integrate.quad(lambda q: h(math.sqrt(q * T * s * (1 - s))) * law.pdf(q), 0, law.ppf(1 - 1e-12), limit=200)[0]
                if not R.near(got, want, 2e-4, 'bessel.law', 'law of the Bessel bridge at one time', s=s, x=x, T=T):
                    return


def skeletons(cfg, R):
    """reversed and mirrored skeletons describe the same path seen from the other side"""
    if not hasattr(EK, 'flip_skeleton'):
        R.note('no skeleton reversal')
        return
    for fin in (1.0, 2.5):
        for ts in [(tau,) for tau in (.1, .5, .8)] + list(it.combinations((.1, .5, .8), 2)):
            for xs in it.product((.3, -.4, 1.2), repeat=len(ts) + 2):
                for limits in ((-.4, -1.0, -.7), (1.2, 1.9, 1.5), (-.4, -1.0, -np.inf), (1.2, np.inf, np.inf)):
                    for hit in [None] + list(it.product((False, True), repeat=len(ts) + 1)):
                        t = np.array([0.0, *ts, 1.0]) * fin
                        x = np.array(xs)
                        sk = EK.Skeleton(t, x, *limits, None if hit is None else list(hit))
                        ok, f = R.call(EK.flip_skeleton, sk, key='skeleton.')
                        if not ok:
                            return
                        mir = lambda v: x[0] + x[-1] - v
                        want = (fin - t[::-1], mir(x[::-1]))
                        if not (R.check(np.allclose(f.t, want[0], rtol=0, atol=1e-12) and np.allclose(f.x, want[1], rtol=0, atol=1e-12), 'skeleton.path', 'flipped skeleton runs backwards on the mirrored values, between the same ends', t=t, x=x, got=(f.t, f.x)) and
                                R.check(all(p == q or abs(p - q) < 1e-12 for p, q in zip((f.tight_x, f.loose_x, f.hit_x), map(mir, limits))), 'skeleton.limits', 'limits are mirrored with the path', limits=limits, got=(f.tight_x, f.loose_x, f.hit_x)) and
                                R.check((f.hit_i is None) == (hit is None) and (hit is None or list(map(bool, f.hit_i)) == list(hit)[::-1]), 'skeleton.flags', 'flags stay with their intervals', flags=hit, got=f.hit_i)):
                            return
                        ok, b = R.call(EK.flip_skeleton, f, key='skeleton.')
                        if not ok or not R.check(np.allclose(b.t, t, rtol=0, atol=1e-12) and np.allclose(b.x, x, rtol=0, atol=1e-12) and all(p == q or abs(p - q) < 1e-12 for p, q in zip((b.tight_x, b.loose_x, b.hit_x), limits)) and
                                                 (b.hit_i is None) == (hit is None) and (hit is None or list(map(bool, b.hit_i)) == list(hit)), 'skeleton.twice', 'flipping twice restores the skeleton', t=t, x=x, got=b):
                            return
                R.state((fin, ts, xs))


# ---- seeded extremum

def ppf_min(p, T, a, b):
    """level with P(minimum <= level) = p"""
    return (a + b) / 2 - math.sqrt((a - b) ** 2 - 2 * T * math.log(p)) / 2


def branches(u0, r2, T, a, b, R):
    """values over the two selection levels with exact probabilities, or None"""
    eps = 1e-12

    def f(u1, u2):
        t, m = TR.gen_seeded_brownbr_min((u0, u1, u2), r2, T, a, b)
        return float(t), float(m)

    def cut(g):
        """levels where a step function of one uniform changes, by bisection"""
        lo, hi = g(eps), g(1 - eps)
        if lo == hi:
            return [(1.0, eps)]
        p, q = eps, 1 - eps
        while q - p > 1e-14:
            c = (p + q) / 2
            if c <= p or c >= q:
                break
            v = g(c)
            if v == lo:
                p = c
            elif v == hi:
                q = c
            else:
                return None
        return [(q, eps), (1 - q, 1 - eps)]
    outer = cut(lambda u2: f(.5, u2) + f(eps, u2) + f(1 - eps, u2))
    if outer is None:
        return None
    out = []
    for w2, u2 in outer:
        inner = cut(lambda u1: f(u1, u2))
        if inner is None:
            return None
        out += [(w2 * w1, f(u1, u2)) for w1, u1 in inner]
    return out


def extremum(cfg, R):
    T, a, b = cfg['T'], cfg['a'], cfg['b']
    xs, ws = np.polynomial.legendre.leggauss(cfg['k'])
    xs = 4.25 * (1 + xs)
    ws = ws * np.exp(-xs * xs / 2)
    ws = ws / ws.sum()
    half = [(x * x, w) for x, w in zip(xs, ws) if w > 1e-13]
    fs = [lambda t: t / T, lambda t: (t / T) ** 2, lambda t: math.sin(3 * t / T)]
    for i in range(cfg['levels']):
        p = (i + .5) / cfg['levels']
        m = ppf_min(p, T, a, b)
        got = [0.0] * 3
        for r2, w in half:
            ok, br = R.call(branches, p, r2, T, a, b, R, key='extremum.')
            if not ok:
                return
            if br is None:
                R.note('selection levels are not simple steps')
                return
            for w_, (t, m_) in br:
                if w_ < 1e-11:
                    continue
                if not (R.near(m_, m, 1e-9 * (1 + abs(m)), 'extremum.level', 'extremum has its quantile', p=p, T=T, ends=(a, b)) and
                        R.check(0 < t < T or w * w_ < 1e-6 and 0 <= t <= T, 'extremum.time', 'extremum lies within the span', t=t, T=T, r2=r2)):
                    return
                for j, h in enumerate(fs):
                    got[j] += w * w_ * h(t)
        # given the level, first passage from both ends
        da, db = a - m, b - m

        def ldens(y):
            # y = log odds of the time
            t = T / (1 + math.exp(-y))
            r = T - t
            if t <= 0 or r <= 0:
                return -math.inf
            return -.5 * math.log(t * r) - da * da / (2 * t) - db * db / (2 * r)
        top, pk = max((ldens(y), y) for y in np.linspace(-30, 30, 601))
        dens = lambda y: math.exp(ldens(y) - top)
        cuts = [pk - 40, pk - 6, pk - 2, pk, pk + 2, pk + 6, pk + 40]
        I = lambda h: sum(integrate.quad(lambda y: h(T / (1 + math.exp(-y))) * dens(y), c, d, limit=200, epsabs=0, epsrel=1e-9)[0] for c, d in zip(cuts, cuts[1:]))
        z = I(lambda t: 1.0)
        want = [I(h) / z for h in fs]
        if not R.near(got, want, 1e-5, 'extremum.law', 'law of the time of the extremum given its level', p=p, T=T, ends=(a, b)):
            return
        # equal seeds give equal relative positions
        for r2, u1, u2 in ((.1, .3, .2), (.9, .8, .7), (2.5, .4, .9)):
            ref = TR.gen_seeded_brownbr_min((p, u1, u2), r2, T, a, b)
            for c, k in ((5.0, 1.0), (0.0, 2.0), (-1.0, .3)):
                ok, v = R.call(TR.gen_seeded_brownbr_min, (p, u1, u2), r2, k * k * T, k * a + c, k * b + c, key='extremum.')
                if not ok or not R.check(abs(v[0] / (k * k * T) - ref[0] / T) < 1e-6 and abs(v[1] - (k * ref[1] + c)) < 1e-8 * (1 + abs(c)), 'extremum.relative', 'equal seeds give equal relative positions', got=v, ref=ref, scale=k, shift=c):
                    return
        R.state((T, a, b, p))
