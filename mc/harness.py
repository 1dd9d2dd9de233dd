"""Runs one property's configurations in parallel, merges what they report, writes evidence and verdict."""
import importlib
import json
import math
import os
import sys
import time
import traceback

import numpy as np

from mc import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def canon(v):
    """Canonical, hashable form of an observation (floats to 9 significant digits)."""
    v = engine.settle(v)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return 0.0 if v == 0 else (float('%.9g' % v) if math.isfinite(v) else repr(v))
    if isinstance(v, np.ndarray):
        return ('a', v.shape, tuple(canon(i) for i in v.reshape(-1).tolist()))
    if isinstance(v, dict):
        return tuple(sorted((str(k), canon(i)) for k, i in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(canon(i) for i in v)
    return repr(type(v))


def plain(v):
    """JSON-able form."""
    v = engine.settle(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        v = float(v)
    if isinstance(v, float):
        return v if math.isfinite(v) else repr(v)
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, dict):
        return {str(k): plain(i) for k, i in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if v is None or isinstance(v, (bool, int, str)):
        return v
    return repr(v)


class Result(object):
    MAXSTATES = 400000

    def __init__(self, cfg):
        self.cfg = cfg
        self.states, self.transitions, self.traces, self.executions, self.pruned_mass = set(), 0, 0, 0, 0.0
        self.fails, self.samples, self.notes, self.explorations = [], [], [], 0
        self.worst_pruned = 0.0
        self.undecided = []

    # -- reporting
    def fail(self, key, msg, **detail):
        if len(self.fails) < 40:
            self.fails.append(dict(key=str(key), msg=str(msg), detail=plain(detail)))

    def check(self, cond, key, msg='', **detail):
        self.traces += 1
        if not bool(cond):
            self.fail(key, msg or key, **detail)
        return bool(cond)

    def near(self, a, b, tol, key, msg='', **detail):
        """|a - b| <= tol (absolute, plus tol relative for large numbers); nan and shape mismatch fail."""
        self.traces += 1
        try:
            a_, b_ = np.asarray(engine.settle(a), float), np.asarray(engine.settle(b), float)
            ok = a_.shape == b_.shape and bool(np.all((np.abs(a_ - b_) <= tol * (1 + np.abs(b_))) | (a_ == b_)))
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(key, '%s: got %s, expected %s (tolerance %g)' % (msg or key, plain(a), plain(b), tol), **detail)
        return ok

    def state(self, obs):
        if len(self.states) < self.MAXSTATES:
            self.states.add(hash(canon(obs)))

    def sample(self, obs):
        if len(self.samples) < 3:
            self.samples.append(plain(obs))

    def note(self, s):
        if len(self.notes) < 20:
            self.notes.append(s)

    # -- exploration
    def explore(self, fn, allow=(), key='', observe=True, **kw):
        """All executions of fn(gen); exceptions other than `allow` are violations."""
        ex = engine.Explorer(**kw)
        out = []
        try:
            for leaf in ex.run(fn):
                self.executions += 1
                if leaf.events:
                    self.fail(key + 'event', '; '.join(map(str, leaf.events)), path=leaf.path)
                if leaf.exc is not None and not isinstance(leaf.exc, tuple(allow)):
                    tb = traceback.extract_tb(leaf.exc.__traceback__)
                    where = [f for f in tb if 'ctbayes' in f.filename]
                    at = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else 'harness'
                    if not where:
                        raise RuntimeError('harness error: ' + ''.join(traceback.format_exception(leaf.exc)))
                    self.fail(key + 'exception', '%s: %s at %s' % (type(leaf.exc).__name__, leaf.exc, at), path=leaf.path)
                    continue
                if observe and leaf.exc is None:
                    self.state(leaf.val)
                out.append(leaf)
        except engine.EngineError as e:
            if 'replay diverged' in str(e) or 'planned decisions' in str(e):
                self.fail(key + 'nondeterministic', 'the code is not a function of its inputs and the supplied generator: %s' % e)
            elif 'not modelled' in str(e):
                self.undecided.append(str(e))
            else:
                raise
        self.transitions += ex.transitions
        self.explorations += 1
        self.pruned_mass += ex.pruned
        self.worst_pruned = max(self.worst_pruned, ex.pruned)
        self.last = ex
        return out

    def call(self, fn, *a, key='', allow=(), timeout=20.0, **kw):
        """One deterministic execution; an exception is a violation.  Returns (ok, value)."""
        self.executions += 1
        self.transitions += 1
        try:
            with engine.alarm(timeout):
                return True, fn(*a, **kw)
        except tuple(allow) as e:
            return False, e
        except engine.EngineError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if 'ctbayes' in f.filename]
            if not where:
                raise
            self.fail(key + 'exception', '%s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(where[-1].filename), where[-1].name),
                      args=[plain(i) for i in a])
            return False, e


def law(leaves, f):
    """Probability of each value of f(leaf value)."""
    d = {}
    for l in leaves:
        k = f(l.val)
        d[k] = d.get(k, 0.0) + l.w
    return d


def mean(leaves, f):
    """Weighted mean of f over the leaves, normalised by leaf mass."""
    m = sum(l.w for l in leaves)
    return sum(l.w * np.asarray(f(l.val), float) for l in leaves) / m


def inexact(leaves):
    return any(l.inexact for l in leaves)


_mod = None


def _work(cfg):
    R = Result(cfg)
    t0 = time.time()
    try:
        with np.errstate(all='ignore'):
            _mod.run(cfg, R)
        err = None
    except BaseException as e:
        err = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    return dict(cfg=cfg, states=R.states, transitions=R.transitions, traces=R.traces, executions=R.executions, fails=R.fails,
                samples=R.samples, notes=R.notes, explorations=R.explorations, worst_pruned=R.worst_pruned, err=err,
                wall=time.time() - t0, undecided=R.undecided)


def main(argv):
    global _mod
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        _mod = importlib.import_module('checks.' + pid.lower())
    except Exception as e:
        # ctbayes does not even import: nothing can be decided
        traceback.print_exc()
        print('ERROR property=%s cannot import: %s' % (pid, e))
        return 2
    if '--replay' in argv:
        rep = json.load(open(argv[argv.index('--replay') + 1]))
        cfgs = [rep['cfg']]
    else:
        cfgs = list(_mod.configs(tier, seed))
    only = None
    if '--only' in argv:
        only = argv[argv.index('--only') + 1]
        cfgs = [c for c in cfgs if only in json.dumps(plain(c))]
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    if nproc > 1 and len(cfgs) > 1:
        import multiprocessing as mp
        with mp.get_context('fork').Pool(min(nproc, len(cfgs))) as pool:
            res = list(pool.imap_unordered(_work, cfgs, chunksize=1))
    else:
        res = [_work(c) for c in cfgs]
    known = {}
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        if line.startswith('known: '):
            head, what = line[7:].split(' | ', 1)
            p, key = head.split()
            known[(p.split('=')[1], key.split('=', 1)[1])] = what.strip()
    states = set()
    for r in res:
        states |= r['states']
    tot = {k: sum(r[k] for r in res) for k in ('transitions', 'traces', 'executions', 'explorations')}
    fails, seen = [], {}
    for r in res:
        for f in r['fails']:
            if (pid, f['key']) in known:
                seen[f['key']] = known[(pid, f['key'])]
            else:
                fails.append((r['cfg'], f))
    errs = [r for r in res if r['err']]
    und = sorted({u for r in res for u in r['undecided']})
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    samples = [s for r in res for s in r['samples']][:6] or [plain(c) for c in cfgs[:3]]
    cov = dict(states=len(states), transitions=tot['transitions'], traces_validated_against_impl=tot['executions'],
               checks_evaluated=tot['traces'], explorations=tot['explorations'], configurations=len(cfgs),
               largest_pruned_mass=max([r['worst_pruned'] for r in res] + [0.0]), samples=samples,
               exhaustive=not errs and not und,
               rule=getattr(_mod, 'RULE', ''), bounds=getattr(_mod, 'BOUNDS', {}).get(tier, ''), undecided=und,
               notes=sorted({n for r in res for n in r['notes']})[:20], known_findings_seen=sorted(seen))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=plain(cov),
              assumptions=list(getattr(_mod, 'ASSUME', [])), wall_s=round(time.time() - t0, 2), violations=len(fails))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if '-v' in argv:
        for r in sorted(res, key=lambda r: -r['wall'])[:8]:
            print('%.1fs %d exec pruned %.2g %s' % (r['wall'], r['executions'], r['worst_pruned'], json.dumps(plain(r['cfg']))[:150]))
    for key, what in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, what, key))
    print('%s %s: %d configurations, %d executions, %d transitions, %d states, %d comparisons, %.1f s'
          % (pid, tier, len(cfgs), tot['executions'], tot['transitions'], len(states), tot['traces'], time.time() - t0))
    if errs and not fails:
        for r in errs[:3]:
            print('ERROR in %s\n%s' % (json.dumps(plain(r['cfg'])), r['err']))
        return 2
    if fails:
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        shown = set()
        for n, (cfg, f) in enumerate(fails):
            if f['key'] in shown:
                continue
            shown.add(f['key'])
            path = os.path.join(VERIF, 'out', '%s-%d.json' % (pid, len(shown)))
            json.dump(dict(property=pid, cfg=plain(cfg), key=f['key'], msg=f['msg'], detail=f['detail'],
                           replay='./check %s --replay %s' % (pid, path)), open(path, 'w'), indent=1)
            print('  %s: %s  in %s' % (f['key'], f['msg'][:400], json.dumps(plain(cfg))[:300]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            if len(shown) >= 8:
                break
        return 1
    return 0
