"""C24: interrupting and resuming the switching sampler changes nothing."""
import importlib
import itertools as it
import pickle

import numpy as np

from ctbayes.mjplib import inference as mjp_inf, skeleton as S
from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
from ctbayes.switching import mcmc
from mc import engine, harness
from checks import c19

RULE = 'every subset of the interruption points of a run, resumed from the kept state (live objects and serialised copies, with other work and other random sources disturbed in between), compared bitwise with the uninterrupted run; every iterate of every history checked for belonging together'
BOUNDS = {'quick': 'all 16 subsets of the interruption points of 5 iterations, 3 models, 2-3 regimes, 2-6 observations, with and without pre-coins; snapshots of fresh runs resumed after every iteration',
          'thorough': 'all 128 subsets for 8 iterations, 3 seeds'}
ASSUME = ['the kept state is the last iterate with the two kinds of adaptive proposals and the generator including its seed sequence (which numpy 1.26 itself does not serialise)']

T = np.array([0, .5, 1.1, 1.6, 2.4, 3.0])
V = {'ou': np.array([.4, -.2, .9, .3, -.5, .1]), 'ou2': np.array([.4, -.2, .9, .3, -.5, .1]), 'ou3': np.array([.4, -.2, .9, .3, -.5, .1])}
MODEL = {m: importlib.import_module('ctbayes.switching.models.' + m) for m in V}
UPDATE = mcmc.update_joint


def configs(tier, seed):
    big = tier != 'quick'
    for m in V:
        for n, k, pre in ((2, 2, True), (4, 2, True), (6, 3, True), (3, 2, False), (4, 3, False)):
            for s in range(3 if big else 1):
                yield dict(kind='patterns', m=m, n=n, k=k, pre=pre, its=8 if big else 5, seed=seed + s, mode='live')
                yield dict(kind='patterns', m=m, n=n, k=k, pre=pre, its=8 if big else 5, seed=seed + s, mode='copy')
                yield dict(kind='fresh', m=m, n=n, k=k, pre=pre, its=8 if big else 5, seed=seed + s)


def run(cfg, R):
    globals()[cfg['kind']](cfg, R)


def post(cfg, ome, state=None):
    m = cfg['m']
    kw = {} if cfg['pre'] else dict(precoin=False)
    if state is not None:
        kw['state'] = state
    return MODEL[m].sample_posterior(T[:cfg['n']], V[m][:cfg['n']], cfg['k'], 2.0, 1.0, ome=ome, **kw)


def first(cfg):
    """a state before the first iteration: regime path by hand, everything else from the library"""
    m, k, n = MODEL[cfg['m']], cfg['k'], cfg['n']
    g = np.random.default_rng(cfg['seed'])
    fin = T[n - 1]
    init = np.asarray(m.init_thi, float)
    thi = np.repeat(init[np.newaxis], k, 0)
    off = np.ones((k, k)) * .5
    np.fill_diagonal(off, 0)
    lam = off - np.diag(off.sum(1))
    y = S.Skeleton(np.array([0.0, .31 * fin, .77 * fin]), np.array([0, 1, k - 1 if k > 2 else 0]), fin)
    z, h = m.sample_aug(thi, y, T[:n], V[cfg['m']][:n], g)
    return dict(thi=thi, lam=lam, z=z, h=h, param_samplers=[MyopicMvRwSampler(init, m.bounds_thi, .2) for _ in range(k)], regime_sampler=MyopicMjpSampler(y, .2), ome=g)


def digest(v):
    return c19.bits(tuple(v))


def together(cfg, R, v, regime, key):
    """one iterate: everything has matching sizes and describes the same hidden path"""
    thi, lam, z, h = v
    n, k = cfg['n'], cfg['k']
    m = MODEL[cfg['m']]
    t, vt = T[:n], V[cfg['m']][:n]
    info = dict(m=cfg['m'], n=n, k=k)
    ht, hy, hv = np.asarray(h.t), np.asarray(h.yt), np.asarray(h.vt)
    ok = R.check(len(ht) == len(hy) == len(hv) and len(z) == len(ht) - 1, key + 'sizes', 'times, regimes, values and path segments have matching sizes', sizes=[len(ht), len(hy), len(hv), len(z)], **info)
    ok = ok and R.check(ht[0] == 0 and ht[-1] == t[-1] and np.all(np.diff(ht) > 0), key + 'times', 'anchor times increase from the first to the last observation', t=ht, **info)
    ok = ok and R.check(np.all(np.isin(t, ht)) and np.allclose(hv[np.searchsorted(ht, t)], vt, rtol=0, atol=1e-10), key + 'observed', 'observations are anchors with the observed values', t=ht, v=hv, **info)
    ok = ok and R.check(np.all((hy >= 0) & (hy < k)) and np.all(np.isin(ht[1:-1][np.diff(hy[:-1]) == 0], t)), key + 'regimes', 'anchors are regime changes or observations', t=ht, y=hy, **info)
    ok = ok and R.check(np.shape(thi) == (k, len(m.init_thi)) and np.all(np.isfinite(thi)) and
                        all((b is None or np.all(c * (np.asarray(thi) - b) >= 0)) for c, b in zip((1, -1), m.bounds_thi)), key + 'params', 'one parameter within bounds per regime', thi=thi, **info)
    lam = np.asarray(lam)
    ok = ok and R.check(lam.shape == (k, k) and np.allclose(lam.sum(1), 0, atol=1e-9) and np.all(lam - np.diag(np.diag(lam)) >= 0), key + 'generator', 'generator with rows that sum to zero', lam=lam, **info)
    st = getattr(regime, 'state', None)
    if ok and st is not None:
        keep = np.concatenate([[True], np.diff(hy[:-1]) != 0])
        want = S.Skeleton(ht[:-1][keep], hy[:-1][keep], ht[-1])
        ok = R.check(len(st.t) == len(want.t) and np.array_equal(st.t, want.t) and np.array_equal(st.xt, want.xt) and st.fin_t == want.fin_t, key + 'regime-state',
                     'state of the regime proposal is the regime path of the anchors', got=(st.t, st.xt, st.fin_t), want=(want.t, want.xt, want.fin_t), **info)
    return ok


def disturb(cfg, i):
    """other work between two sessions"""
    c19.stir(i)
    o = dict(cfg, m='ou2' if cfg['m'] == 'ou' else 'ou', n=3, k=2, pre=True)
    next(post(o, np.random.default_rng(900 + i)))


def clone(st):
    """serialised copy of a kept state; numpy does not serialise the seed sequence of a generator, so it is carried along"""
    ome = st['ome']
    q = ome.bit_generator._seed_seq
    out = pickle.loads(pickle.dumps({k: v for k, v in st.items() if k != 'ome'}))
    q2 = np.random.SeedSequence(q.entropy, spawn_key=q.spawn_key, pool_size=q.pool_size, n_children_spawned=q.n_children_spawned)
    b = type(ome.bit_generator)(q2)
    b.state = ome.bit_generator.state
    out['ome'] = np.random.Generator(b)
    return out


def keep(st, v):
    return dict(st, thi=v[0], lam=v[1], z=v[2], h=v[3])


def patterns(cfg, R):
    N = cfg['its']

    def history(stops):
        st = first(cfg)
        out, kept = [], []
        gen = post(cfg, st['ome'], st)
        for i in range(N):
            v = next(gen)
            out.append(digest(v))
            kept.append(v)
            if not together(cfg, R, v, st['regime_sampler'], 'resume.'):
                return None
            if i + 1 in stops:
                st = keep(st, v)
                if cfg['mode'] == 'copy':
                    st = clone(st)
                if len(stops) < 3:
                    disturb(cfg, i)
                gen.close()
                gen = post(cfg, st['ome'], st)
        for i, v in enumerate(kept):
            if not R.check(digest(v) == out[i], 'resume.later', 'an iterate is not changed by later iterations', m=cfg['m'], iterate=i + 1):
                return None
        return out
    ok, base = R.call(history, (), key='resume.', timeout=100.0)
    if not ok or base is None:
        return
    for r in range(1, N):
        for stops in it.combinations(range(1, N), r):
            ok, got = R.call(history, stops, key='resume.', timeout=100.0)
            if not ok or got is None:
                return
            if not R.check(got == base, 'resume.same', 'resuming continues with the iterates of the uninterrupted run', m=cfg['m'], n=cfg['n'], k=cfg['k'], stops=stops, first=[i + 1 for i in range(N) if got[i] != base[i]][:1]):
                return
            R.state((cfg['m'], cfg['n'], stops, repr(got[-1])))


def fresh(cfg, R):
    """a run from scratch, snapshot before every iteration, resumed from each snapshot"""
    N = cfg['its']
    snaps, out = [], []

    def spy(thi, lam, z, h, mod, ctrl, param_samplers, regime_sampler, ome):
        snaps.append(clone(dict(thi=thi, lam=lam, z=z, h=h, param_samplers=param_samplers, regime_sampler=regime_sampler, ome=ome)))
        live.append(regime_sampler)
        return UPDATE(thi, lam, z, h, mod, ctrl, param_samplers, regime_sampler, ome)
    live = []

    def whole():
        with engine.replaced((UPDATE, spy)):
            g = post(cfg, np.random.default_rng(cfg['seed']))
            for _ in range(N):
                v = next(g)
                out.append(digest(v))
                together(cfg, R, v, live[-1] if live else None, 'fresh.')
    ok, _ = R.call(whole, key='fresh.', timeout=100.0)
    if not ok:
        return
    if len(snaps) < N:
        R.note('iterations of a fresh run not visible')
        return
    for i in range(N):
        st = snaps[i]
        before = digest((st['thi'], st['lam'], st['z'], st['h']))

        def rest():
            g = post(cfg, st['ome'], st)
            return [digest(next(g)) for _ in range(N - i)]
        ok, got = R.call(rest, key='fresh.', timeout=100.0)
        if not ok:
            return
        if not R.check(got == out[i:], 'fresh.same', 'a run resumed from a snapshot continues with the same iterates', m=cfg['m'], n=cfg['n'], k=cfg['k'], snapshot=i):
            return
        if not R.check(before == digest((st['thi'], st['lam'], st['z'], st['h'])), 'fresh.kept', 'the kept iterate is not changed by resuming', m=cfg['m'], snapshot=i):
            return
        R.state((cfg['m'], cfg['n'], i, repr(got[-1])))
