"""C01: cutting and joining piecewise constant paths, against a set-theoretic reference on a complete grid."""
import itertools as it

import numpy as np

from ctbayes.mjplib import skeleton as S

RULE = 'every path with jumps on a grid over 3 states x every multiset of break times on a finer grid (ends and jump times included) x cut, join, re-cut, evaluate'
BOUNDS = {'quick': 'fin_t 1 (8ths), .7 and 3 (scaled); up to 3 jumps; up to 3 breaks; two-step re-cuts',
          'thorough': 'up to 4 jumps on 10ths, up to 4 breaks, all pairs of re-cuts'}
ASSUME = ['jump times are strictly inside the span (a jump exactly at the final time has probability zero)',
          'on non-dyadic grids times are compared to 1e-12 relative, because joining adds durations in floating point']


def configs(tier, seed):
    scales = [1.0, 0.7, 3.0] if tier == 'quick' else [1.0, .7, 3.0, 1e-3, 1e4, .1]
    for sc in scales:
        for x0 in range(3):
            for nj in range(4 if tier == 'quick' else 5):
                yield dict(kind='cut', scale=sc, x0=x0, nj=nj, grid=8, nb=3 if (tier == 'quick' or nj > 3) else 4)
    yield dict(kind='pieces', scale=1.0)
    yield dict(kind='pieces', scale=.7)
    yield dict(kind='sample', scale=1.0)
    yield dict(kind='sample', scale=.7)
    yield dict(kind='ints')


def paths(x0, nj, grid, scale):
    jumps = range(2, grid, 2) if nj <= 3 else range(1, grid)
    for js in it.combinations(jumps, nj):
        for steps in it.product((1, 2), repeat=nj):
            x = [x0]
            for s in steps:
                x.append((x[-1] + s) % 3)
            yield [0] + list(js), x


def ref_state(ks, x, k):
    """state on the grid at position k (right-continuous)"""
    return x[max(i for i in range(len(ks)) if ks[i] <= k)]


def same_times(a, b, scale, exact):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(a == b)) if exact else bool(np.all(np.abs(a - b) <= 1e-12 * (1 + scale)))


def judge_pieces(R, parts, ks, x, br, grid, scale, exact, what):
    """parts: pieces for breaks br (grid units)"""
    edges = [0] + list(br) + [grid]
    if not R.check(len(parts) == len(edges) - 1, what + '-count', 'one piece per interval', ks=ks, x=x, br=br):
        return
    h = scale / grid
    for p, a, b in zip(parts, edges, edges[1:]):
        det = dict(ks=ks, x=x, br=br, piece=[a, b], t=p.t, xt=p.xt, fin_t=p.fin_t)
        ok = same_times([p.fin_t], [(b - a) * h], scale, exact)
        inner = [k for k in ks if a < k < b]
        ref_t = [0.0] + [(k - a) * h for k in inner]
        ref_x = [ref_state(ks, x, a)] + [ref_state(ks, x, k) for k in inner]
        ok = ok and same_times(p.t, ref_t, scale, exact) and list(np.asarray(p.xt)) == ref_x
        R.check(ok, what + '-piece', 'a piece has the interval length and the states of the whole path', **det)


def judge_path(R, skel, ks, x, grid, scale, exact, what, **det):
    h = scale / grid
    R.check(same_times(skel.t, [k * h for k in ks], scale, exact) and list(np.asarray(skel.xt)) == list(x)
            and same_times([skel.fin_t], [scale], scale, exact), what, 'the joined path equals the original',
            t=skel.t, xt=skel.xt, fin_t=skel.fin_t, ks=ks, x=x, **det)


def run(cfg, R):
    if cfg['kind'] == 'cut':
        run_cut(cfg, R)
    elif cfg['kind'] == 'pieces':
        run_pieces(cfg, R)
    elif cfg['kind'] == 'ints':
        run_ints(cfg, R)
    else:
        run_sample(cfg, R)


def freeze(skel):
    return (skel.t.copy(), skel.xt.copy(), skel.fin_t)


def frozen(skel, f):
    return np.array_equal(skel.t, f[0]) and np.array_equal(skel.xt, f[1]) and skel.fin_t == f[2]


def run_cut(cfg, R):
    grid, scale = cfg['grid'], cfg['scale']
    exact = scale == 1.0
    h = scale / grid
    breaksets = [b for n in range(cfg['nb'] + 1) for b in it.combinations_with_replacement(range(grid + 1), n)]
    second = [(), (0,), (grid,), (3,), (2, 4), (4, 4), (1, 4, 7)]
    for ks, x in paths(cfg['x0'], cfg['nj'], grid, scale):
        t = np.array([k * h for k in ks])
        skel = S.Skeleton(t, np.array(x), scale)
        fz = freeze(skel)
        # evaluation: on the grid and between grid points; scalar and vector
        q = np.array([k * h for k in range(grid)] + [(k + .5) * h for k in range(grid)] + [scale])
        ref = [ref_state(ks, x, k) for k in range(grid)] + [ref_state(ks, x, k + .5) for k in range(grid)] + [x[-1]]
        ok, v = R.call(lambda: skel(q), key='eval-')
        if ok:
            R.check(list(np.asarray(v)) == ref, 'eval', 'state last entered at or before the time', ks=ks, x=x, got=v, want=ref)
        for qq, rr in zip(q, ref):
            ok, v = R.call(lambda: skel(float(qq)), key='eval-')
            if ok:
                R.check(np.asarray(v).item() == rr, 'eval-scalar', 'state last entered at or before the time', ks=ks, x=x, q=qq, got=v)
        for bad in (np.array([scale * 1.0001]), np.array([0, scale + h]), scale * (1 + 1e-9)):
            refused = False
            try:
                skel(bad)
            except (ValueError, AssertionError, IndexError):
                refused = True
            R.check(refused, 'eval-beyond', 'evaluation beyond the end is refused', ks=ks, x=x, q=bad)
        R.check((skel == S.Skeleton(t.copy(), np.array(x), scale)) is True or bool(skel == S.Skeleton(t.copy(), np.array(x), scale)),
                'eq', 'equal paths compare equal')
        for br in breaksets:
            bt = np.array([b * h for b in br], dtype=float)
            if len(br) and br[-1] == grid:
                bt[-sum(b == grid for b in br):] = scale
            btc = bt.copy()
            ok, parts = R.call(lambda: S.partition_skeleton(skel, bt), key='cut-')
            if not ok:
                continue
            R.state((ks, x, br))
            judge_pieces(R, parts, ks, x, br, grid, scale, exact, 'cut')
            R.check(frozen(skel, fz) and np.array_equal(bt, btc), 'mutates', 'inputs of a cut are not changed', ks=ks, x=x, br=br)
            pf = [freeze(p) for p in parts]
            ok, back = R.call(lambda: S.paste_partition(parts), key='join-')
            if not ok:
                continue
            judge_path(R, back, ks, x, grid, scale, exact, 'join', br=br)
            if exact:
                R.check(bool(back == skel), 'join-eq', 'the joined path compares equal to the original', ks=ks, x=x, br=br)
            R.check(all(frozen(p, f) for p, f in zip(parts, pf)), 'mutates', 'inputs of a join are not changed', ks=ks, x=x, br=br)
            if len(br) <= 2:
                for br2 in second:
                    bt2 = np.array([b * h if b < grid else scale for b in br2], dtype=float)
                    ok, parts2 = R.call(lambda: S.repartition_skeleton(parts, bt2), key='recut-')
                    if ok and exact:
                        judge_pieces(R, parts2, ks, x, br2, grid, scale, exact, 'recut')
                        ok, back2 = R.call(lambda: S.paste_partition(parts2), key='rejoin-')
                        if ok:
                            judge_path(R, back2, ks, x, grid, scale, exact, 'rejoin', br=br, br2=br2)
    R.sample(dict(path=[ks, x], breaks=breaksets[-1]))


def run_pieces(cfg, R):
    """joining arbitrary consecutive pieces: every piece keeps its place; equal neighbouring states are one segment"""
    sc = cfg['scale']
    segs = []
    for dur in (0.0, .25 * sc, .5 * sc):
        for x in ((0,), (1,), (0, 1), (1, 0)):
            if len(x) == 2 and dur == 0:
                continue
            segs.append((dur, x))
    for n in (1, 2, 3):
        for combo in it.product(segs, repeat=n):
            if all(d == 0 for d, _ in combo):
                continue
            parts = [S.Skeleton(np.array([0.0] if len(x) == 1 else [0.0, d / 2]), np.array(x), d) for d, x in combo]
            ok, sk = R.call(lambda: S.paste_partition(parts), key='join-')
            if not ok:
                continue
            off, rt, rx = 0.0, [], []
            for p in parts:
                if p.fin_t == 0:
                    continue
                for tt, xx in zip(p.t, p.xt):
                    if not rx or rx[-1] != xx:
                        rt.append(off + tt)
                        rx.append(int(xx))
                off += p.fin_t
            R.state((rt, rx))
            R.check(same_times(sk.t, rt, 1, sc == 1) and list(sk.xt) == rx and abs(sk.fin_t - off) < 1e-12, 'join-pieces',
                    'joining keeps every piece in place and merges equal neighbours', combo=combo, t=sk.t, xt=sk.xt, fin=sk.fin_t)


def run_sample(cfg, R):
    sc = cfg['scale']
    for ks, x in it.chain(paths(0, 1, 8, sc), paths(2, 2, 8, sc), paths(1, 0, 8, sc)):
        skel = S.Skeleton(np.array([k * sc / 8 for k in ks]), np.array(x), sc)
        fz = freeze(skel)
        for inten in (1.0, 3.0):
            lv = R.explore(lambda g: S.sample_partition(skel, inten, g), key='sample-', nmax_poisson=12, wmin=1e-7)
            for l in lv:
                parts, new_t = l.val
                new_t = np.asarray(new_t, float)
                if not R.check(len(parts) == len(new_t) + 1 and np.all(np.diff(new_t) >= 0), 'sample-count', 'one piece per interval', n=len(new_t)):
                    continue
                R.check(np.all((new_t >= 0) & (new_t <= sc)), 'sample-breaks', 'break times lie inside the span', t=new_t)
                e = np.hstack([0, new_t, sc])
                R.check(np.allclose([p.fin_t for p in parts], np.diff(e), rtol=0, atol=1e-12), 'sample-dur', 'durations are interval lengths')
                mids_ok = True
                for p, a in zip(parts, e):
                    for f in (1e-9, .3, .6, .999):
                        if p.fin_t > 0:
                            u = a + f * p.fin_t
                            want = x[max(i for i in range(len(ks)) if ks[i] * sc / 8 <= u)]
                            mids_ok = mids_ok and np.asarray(p(np.array([f * p.fin_t]))).item() == want
                R.check(mids_ok, 'sample-states', 'pieces carry the states of the whole path', ks=ks, x=x, breaks=new_t)
                judge_path(R, S.paste_partition(parts), ks, x, 8, sc, False, 'sample-join', breaks=new_t)
            R.check(frozen(skel, fz), 'mutates', 'input not changed')


def run_ints(cfg, R):
    """integer-typed arrays, as the simulators return them for paths without jumps; single-segment and long paths"""
    for t, x, fin in (([0], [1], 2.5), ([0, 1, 2], [0, 1, 0], 4), ([0, 3], [2, 0], 10)):
        skel = S.Skeleton(np.array(t), np.array(x), fin)
        for br in ([], [.5], [1.0], [0.0, 1.5], [2.0, fin], [.25, 1.0, 2.0, 2.25]):
            ok, parts = R.call(lambda: S.partition_skeleton(skel, np.array(br, float)), key='int-')
            if not ok:
                continue
            ok, back = R.call(lambda: S.paste_partition(parts), key='int-')
            if ok:
                R.state((t, x, br))
                R.check(list(back.t) == t and list(back.xt) == x and back.fin_t == fin, 'int-join', 'integer-typed path survives', t=t, br=br, got=back.t)
            e = [0] + br + [fin]
            for p, a, b in zip(parts, e, e[1:]):
                for f in (0, .25, .5, .75):
                    u = a + f * (b - a)
                    if b > a:
                        want = x[max(i for i in range(len(t)) if t[i] <= u)]
                        R.check(np.asarray(p(np.array([u - a]))).item() == want, 'int-state', 'piece state', t=t, br=br, u=u)
