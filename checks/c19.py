"""C19: runs depend only on the supplied generator, not on scheduling."""
import copy
import importlib
import inspect
import itertools as it
import os
import pkgutil
import pickle
import random
import subprocess
import sys

import joblib
import numpy as np
from joblib.externals import cloudpickle

import ctbayes
from mc import engine, harness

RULE = 'every execution order of the parallel tasks of every update (all permutations, one parallel call at a time, plus all reversed), in-process and on serialised copies, compared bitwise with the sequential run; every public sampler run under a watch on all other random sources, for every path of the sampler under the controlled generator and for several real generators, with the other sources in different states'
BOUNDS = {'quick': 'up to 5 tasks (all 120 orders), 2 iterations of each posterior sampler and estimator of four models; all paths of each sampler with probability at least 0.4 %',
          'thorough': 'up to 5 tasks, 4 iterations, 3 seeds; all paths with probability at least 0.04 %'}
ASSUME = ['the process pool returns results in submission order unless asked otherwise (documented joblib behaviour); one configuration runs the real two-process pool']

for _m in pkgutil.walk_packages(ctbayes.__path__, 'ctbayes.'):
    importlib.import_module(_m.name)
MODS = {k: v for k, v in sys.modules.items() if k.startswith('ctbayes')}


# ---- other random sources, module objects

def default_gens():
    out = {}
    for m, mod in sorted(MODS.items()):
        for n, f in sorted(vars(mod).items()):
            f = getattr(f, 'func', f)
            if inspect.isfunction(f):
                for d in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
                    if isinstance(d, np.random.Generator):
                        out.setdefault(id(d), (m + '.' + n, d))
            elif isinstance(f, np.random.Generator):
                out.setdefault(id(f), (m + '.' + n, f))
    return list(out.values())


def gstate(g):
    s = g.bit_generator.state
    q = getattr(g.bit_generator, '_seed_seq', None)
    return repr(s), getattr(q, 'n_children_spawned', None)


GENS = default_gens()


def others():
    return dict([('numpy.random', repr(np.random.get_state())), ('random', random.getstate())] + [(n, gstate(g)) for n, g in GENS])


def module_data():
    out = {}
    for m, mod in sorted(MODS.items()):
        for n, v in sorted(vars(mod).items()):
            if isinstance(v, (np.ndarray, tuple, list, dict, float, int)) and not n.startswith('__'):
                try:
                    out[m + '.' + n] = harness.canon(v)
                except Exception:
                    pass
            f = getattr(v, 'func', v)
            if inspect.isfunction(f) and f.__defaults__:
                out[m + '.' + n + '()'] = harness.canon([d for d in f.__defaults__ if not isinstance(d, np.random.Generator)])
    return out


def stir(k):
    """put all other random sources into one of several states"""
    np.random.seed(1000 + k)
    random.seed(77 + k)
    for i, (n, g) in enumerate(GENS):
        g.bit_generator.state = np.random.PCG64(5000 + 100 * k + i).state


def bits(v):
    """exact digest of a result"""
    if isinstance(v, np.ndarray):
        return (v.shape, v.dtype.kind, np.ascontiguousarray(v).tobytes() if v.dtype.kind in 'fiub' else repr(v))
    if isinstance(v, tuple) and hasattr(v, '_fields') or isinstance(v, (tuple, list)):
        return tuple(bits(i) for i in v)
    if isinstance(v, (float, np.floating)):
        return float(v).hex()
    if isinstance(v, (bool, int, np.integer, np.bool_, str)) or v is None:
        return repr(v)
    if isinstance(v, dict):
        return tuple(sorted((k, bits(i)) for k, i in v.items()))
    if isinstance(v, np.random.Generator):
        return gstate(v)
    return repr(type(v))


# ---- the controlled pool

class Pool(object):
    """stands for joblib.Parallel: runs the tasks of each call in a chosen order, in process or on serialised copies"""
    plan, mode, log, n, streams = {}, 'shared', None, 0, None

    def __init__(self, *a, **kw):
        self.kw = kw

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, tasks):
        cls = type(self)
        tasks = list(tasks)
        i, cls.n = cls.n, cls.n + 1
        cls.log.append(len(tasks))
        for f, a, kw in tasks:
            for o in list(a) + list(kw.values()):
                if isinstance(o, np.random.Generator):
                    cls.streams.append(gstate(o)[0])
        order = cls.plan.get(i, range(len(tasks)))
        if order == 'reversed':
            order = range(len(tasks))[::-1]
        if cls.plan.get('all') == 'reversed':
            order = range(len(tasks))[::-1]
        if cls.mode == 'copied':
            tasks = [pickle.loads(cloudpickle.dumps(t)) for t in tasks]
        out, done = [None] * len(tasks), []
        for k in order:
            f, a, kw = tasks[k]
            r = f(*a, **kw)
            if cls.mode == 'copied':
                r = pickle.loads(cloudpickle.dumps(r))
            out[k] = r
            done.append(r)
        how = self.kw.get('return_as', 'list')
        if how == 'generator_unordered':
            return iter(done)
        return iter(out) if how == 'generator' else out


def scheduled(fn, plan, mode):
    """fn(generator) under a schedule; returns (digest, sizes of the parallel calls, streams handed to tasks)"""
    Pool.plan, Pool.mode, Pool.log, Pool.n, Pool.streams = plan, mode, [], 0, []
    try:
        with engine.replaced((joblib.Parallel, Pool)):
            v = fn()
    finally:
        pass
    return v, list(Pool.log), list(Pool.streams)


T6 = np.array([0, .5, 1.1, 1.6, 2.4, 3.0])
V6 = np.array([.4, -.2, .9, .3, -.5, .1])
RUNS = {
    'ito.ou.mcmc': lambda m, n, k, g: m.sample_posterior(T6[:n], V6[:n], g),
    'ito.ou.mcmc-noprecoin': lambda m, n, k, g: m.sample_posterior(T6[:n], V6[:n], g, precoin=False),
    'ito.ou.mcem': lambda m, n, k, g: m.maximize_posterior(T6[:n], V6[:n], g, ftol=1e-9, n_thin_mcmc=1),
    'switching.ou.mcmc': lambda m, n, k, g: m.sample_posterior(T6[:n], V6[:n], 2 + (n > 4), 2, 1, ome=g),
    'switching.ou2.mcmc': lambda m, n, k, g: m.sample_posterior(T6[:n], V6[:n], 2 + (n > 4), 2, 1, ome=g),
    'switching.ou3.mcmc': lambda m, n, k, g: m.sample_posterior(T6[:n], V6[:n], 3, 2, 1, ome=g),
    'switching.ou.mcmc-noprecoin': lambda m, n, k, g: m.sample_posterior(T6[:n], V6[:n], 2, 2, 1, ome=g, precoin=False),
    'switching.ou.mcem': lambda m, n, k, g: m.maximize_posterior(T6[:n], V6[:n], 2, 2, 1, ome=g, ftol=1e-9, n_thin_mcmc=1),
}
MODEL = {k: importlib.import_module('ctbayes.%s.models.%s' % tuple(k.split('.')[:2])) for k in RUNS}


def configs(tier, seed):
    its = 2 if tier == 'quick' else 4
    for r in RUNS:
        em = 'mcem' in r
        for n in (2, 3, 4) if 'noprecoin' in r and tier == 'quick' else ((3, 5 if tier == 'quick' else 6) if em else (2, 3, 4, 6)):
            for s in range(1 if tier == 'quick' else 3):
                for part in range(4 if n > 4 else 1):
                    yield dict(kind='sched', run=r, n=n, its=min(its, 2) if em else its, seed=seed + s, part=part, parts=4 if n > 4 else 1)
    for r in ('ito.ou.mcmc', 'switching.ou.mcmc', 'ito.ou.mcem', 'switching.ou.mcem'):
        yield dict(kind='watchrun', run=r, n=4, its=3, seed=seed)
    yield dict(kind='loky', seed=seed)
    for name in sorted(CALLS):
        yield dict(kind='watch', call=name, wmin=4e-3 if tier == 'quick' else 4e-4, seeds=4 if tier == 'quick' else 20)


def run(cfg, R):
    dict(sched=sched, watchrun=watchrun, loky=loky, watch=watch)[cfg['kind']](cfg, R)


def iterate(cfg):
    g = np.random.default_rng(cfg['seed'])
    out = []
    for i, v in enumerate(RUNS[cfg['run']](MODEL[cfg['run']], cfg['n'], 0, g)):
        out.append(bits(v))
        if i + 1 >= cfg['its']:
            break
    return out


def sched(cfg, R):
    key = cfg['run'] + '-'
    try:
        ok, v = R.call(scheduled, lambda: iterate(cfg), {}, 'shared', key=key, timeout=120)
    except engine.EngineError:
        R.note('joblib.Parallel is not used by name: schedules not controlled')
        return
    if not ok:
        return
    ref, sizes, streams = v
    if not sizes:
        R.note('no parallel call in %s' % cfg['run'])
        return
    R.check(len(set(streams)) == len(streams), key + 'streams', 'two parallel tasks were handed the same random stream', sizes=sizes)
    plans = []
    for mode in ('shared', 'copied'):
        plans.append(({}, mode))
        plans.append(({'all': 'reversed'}, mode))
        for i, n in enumerate(sizes):
            if n > 5:
                plans.append(({i: 'reversed'}, mode))
                continue
            for p in it.permutations(range(n)):
                if p != tuple(range(n)):
                    plans.append(({i: p}, mode))
    # copies differ from shared objects in the first and last order of each call only, beyond 3 tasks
    plans = [(p, m) for p, m in plans if m == 'shared' or all(v == 'reversed' or len(v) < 4 or v[0] == len(v) - 1 and v[1] == 0 for v in p.values())]
    for j, (plan, mode) in enumerate(plans):
        if j % cfg['parts'] != cfg['part']:
            continue
        ok, v = R.call(scheduled, lambda: iterate(cfg), plan, mode, key=key, timeout=120)
        if not ok:
            return
        R.transitions += sum(sizes)
        R.check(v[0] == ref, key + ('order' if mode == 'shared' else 'copies'),
                'results differ from the sequential run when tasks run %s' % ('in another order' if mode == 'shared' else 'on copies'), plan=str(plan), mode=mode)
        R.state((str(plan), mode, hash(str(v[0]))))
        if len(R.fails) > 3:
            return


def watched(R, key, fn, inputs):
    """fn() with a watch on other sources, inputs and module data"""
    a, m, d = others(), module_data(), bits(inputs)
    v = fn()
    b, m2 = others(), module_data()
    bad = [k for k in a if a[k] != b.get(k)]
    R.check(not bad, key + 'foreign-randomness', 'random sources other than the supplied generator were used: %s' % bad)
    R.check(bits(inputs) == d, key + 'inputs', 'inputs were modified')
    R.check(m == m2, key + 'module', 'module level objects were modified: %s' % [k for k in m if m[k] != m2.get(k)][:5])
    return v


def watchrun(cfg, R):
    key = cfg['run'] + '-'
    ref = None
    ins = [T6, V6]
    for k in range(3):
        stir(k)
        try:
            ok, v = R.call(lambda: watched(R, key, lambda: scheduled(lambda: iterate(cfg), {}, 'shared')[0], ins), key=key, timeout=120)
        except engine.EngineError:
            ok, v = R.call(lambda: watched(R, key, lambda: iterate(cfg), ins), key=key, timeout=120)
        if not ok:
            return
        if ref is None:
            ref = v
        R.check(v == ref, key + 'repeatable', 'same inputs and generator, other results when other random sources differ')


LOKY = '''
import sys, warnings
warnings.simplefilter('ignore')
sys.path[:0] = %r
import numpy as np
from checks import c19
m = c19.MODEL['ito.ou.mcmc']
def go(mod, n_cores, **kw):
    g = np.random.default_rng(%d)
    s = mod(g, n_cores)
    return [c19.bits(next(s)) for _ in range(2)]
ok = True
for f in (lambda g, c: m.sample_posterior(c19.T6, c19.V6, g, n_cores=c),
          lambda g, c: c19.MODEL['switching.ou.mcmc'].sample_posterior(c19.T6, c19.V6, 2, 2, 1, ome=g, n_cores=c)):
    ok = ok and go(f, 1) == go(f, 2)
print('SAME' if ok else 'DIFFERENT')
'''


def loky(cfg, R):
    code = LOKY % ([os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.path.dirname(os.path.dirname(ctbayes.__file__))], cfg['seed'])
    try:
        p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        R.note('the real process pool did not finish: not judged')
        return
    R.executions += 4
    R.transitions += 4
    if 'SAME' in p.stdout or 'DIFFERENT' in p.stdout:
        R.check('SAME' in p.stdout, 'loky', 'two worker processes give other results than one')
    else:
        R.note('the real process pool could not run here: %s' % p.stderr[-200:])


# ---- public samplers

def mod(name):
    return importlib.import_module('ctbayes.' + name)


A = np.array
Q3 = A([[-1., .7, .3], [.2, -.5, .3], [1., 1.5, -2.5]])
THI = A([.8, 1.3])


def ops():
    (nf, inf), = mod('ito.models.ou').gen_normops(THI, A([0, 1.2]), A([.4, -.3]))
    return nf, inf


def sk(n=1):
    """a small seed"""
    return mod('ea3lib.seed').SeedSkeleton(A([0, .4, 1]), A([0, -.5, 0]), -.5, .6, .1, None)


def sx():
    return mod('ea3lib.skeleton').Skeleton(A([0, .5, 1.2]), A([.2, -.4, .1]), -.4, .9, .5, None)


def disc():
    m = mod('ito.models.ou')
    return m.eval_disc(THI), m.eval_bounds_disc(THI)


def take(s, n):
    return [x for _, x in zip(range(n), s)]


def coins(ps):
    return iter([(p, i) for i, p in enumerate(ps)])


def joint(ps):
    def c():
        side = yield None, 'start'
        for i, p in it.cycle(enumerate(ps)):
            side = yield (p if side else not p), i
    return c()


GRID = A([.3, .7, 1.0])
CALLS = {
    'ppp': ('mjplib.skeleton', 'sample_ppp', lambda f, g, i: f(i[0], tuple(i[1]), ome=g), [1.1, A([1.0, 1.0])]),
    'batch': ('mjplib.skeleton', 'sample_batch_ppp', lambda f, g, i: list(f(i[0], tuple(i[1]), 2, ome=g)), [1.1, A([1.0, 1.0])]),
    'forwards': ('mjplib.skeleton', 'sample_forwards', lambda f, g, i: f(1.0, None, i[0], ome=g), [Q3]),
    'forwards1': ('mjplib.skeleton', 'sample_forwards', lambda f, g, i: f(1.0, 1, i[0], ome=g), [Q3]),
    'backwards': ('mjplib.skeleton', 'sample_backwards', lambda f, g, i: f(1.0, 2, i[0], ome=g), [Q3]),
    'mjpbridge': ('mjplib.skeleton', 'sample_bridge', lambda f, g, i: f(1.0, 0, 1, i[0], ome=g), [Q3]),
    'partition': ('mjplib.skeleton', 'sample_partition', lambda f, g, i: f(mod('mjplib.skeleton').Skeleton(i[0], i[1], 1.5), 1, ome=g), [A([0, .6]), A([0, 2])]),
    'mutate': ('mjplib.skeleton', 'mutate_partition', lambda f, g, i: f(mod('mjplib.skeleton').partition_skeleton(mod('mjplib.skeleton').Skeleton(i[0], i[1], 1.5), A([.4, .9])), i[2], ome=g), [A([0, .6]), A([0, 2]), Q3]),
    'trialgen': ('mjplib.skeleton', 'sample_trial_generator', lambda f, g, i: f(3, ome=g), []),
    'param': ('mjplib.inference', 'sample_param', lambda f, g, i: f(i[0], i[1], ome=g), [A([[np.nan, 2.], [3., np.nan]]), A([[np.nan, 1.], [2., np.nan]])]),
    'min': ('sdelib.hitting', 'sample_brownbr_min', lambda f, g, i: f(1.0, .2, .5, ome=g), []),
    'mincond': ('sdelib.hitting', 'sample_brownbr_min', lambda f, g, i: f(1.0, .2, .5, -1.0, -.2, ome=g), []),
    'layermin': ('sdelib.hitting', 'sample_layerbr_min', lambda f, g, i: f(1.0, .2, .5, 1.4, -1.0, -.2, ome=g), []),
    'esc': ('sdelib.hitting', 'sample_brownbr_esc', lambda f, g, i: f(1.0, .2, -.1, .8, ome=g), []),
    'besselesc': ('sdelib.hitting', 'sample_bessel3br_esc', lambda f, g, i: f(1.0, .2, .4, 1.1, ome=g), []),
    'vector': ('sdelib.interpolators', 'fill_wiener_vector', lambda f, g, i: f(i[0], i[1], i[2], ome=g), [A([0, .5, 1.2]), A([[.2], [-.4], [.1]]), GRID]),
    'outer': ('sdelib.interpolators', 'fill_wiener_outer', lambda f, g, i: f(i[0], i[1], i[2], -.4, 1.0, .6, ome=g), [A([0, .5, 1.2]), A([.2, -.4, .1]), A([.7])]),
    'inner': ('sdelib.interpolators', 'fill_wiener_inner', lambda f, g, i: f(i[0], i[1], i[2], -.4, 1.0, ome=g), [A([0, .5, 1.2]), A([.2, -.4, .1]), A([.7])]),
    'layer': ('sdelib.layers', 'sample_layer', lambda f, g, i: f(1.0, .1, .3, ome=g), []),
    'anchor': ('sdelib.layers', 'sample_anchor', lambda f, g, i: f(1.0, .1, .3, ome=g), []),
    'edges': ('sdelib.layers', 'sample_edges', lambda f, g, i: f(1.0, .1, .3, (-1.1, -.4), (.8, 1.4), ome=g), []),
    'wiener': ('sdelib.paths', 'sample_wiener', lambda f, g, i: f(i[0], i[1], ome=g), [GRID, A([.3, .1])]),
    'wienermu': ('sdelib.paths', 'sample_wiener', lambda f, g, i: f(i[0], i[1], i[2], ome=g), [GRID, A([.3, .1]), A([.4, 0])]),
    'brownbr': ('sdelib.paths', 'sample_brownbr', lambda f, g, i: f(i[0], 1.5, .2, .6, ome=g), [GRID]),
    'bessel': ('sdelib.paths', 'sample_bessel', lambda f, g, i: f(i[0], .3, 3, ome=g), [GRID[:2]]),
    'besselbr': ('sdelib.paths', 'sample_besselbr', lambda f, g, i: f(i[0], 1.5, .6, 3, ome=g), [GRID[:2]]),
    'layerbr': ('sdelib.paths', 'sample_layerbr', lambda f, g, i: f(i[0], 1.5, .2, .6, -.4, 1.9, .9, ome=g), [GRID[:1]]),
    'twocoin': ('misc.bfactories', 'sample_twocoin', lambda f, g, i: f(.3, .1, coins([0, 1, 0, 1] * 40), coins([0, 0, 1] * 50), .05, None, g), []),
    'twocoinjoint': ('misc.bfactories', 'sample_twocoin_joint', lambda f, g, i: f(.3, .1, joint([False, True, True]), .05, g), []),
    'ars': ('misc.ars', 'sample', lambda f, g, i: take(f(lambda x: -np.square(x) / 2, lambda x: -x, ome=g, init=i[0]), 2), [A([-1.0, 1.3])]),
    'euler': ('misc.testing', 'euler_simulate', lambda f, g, i: f(2, 1, i[0], lambda x: -x, lambda x: 1, .25, g), [.3]),
    'rw': ('misc.adapt', 'MyopicRwSampler', lambda f, g, i: f(i[0], (0.0, np.inf)).propose(g), [1.1]),
    'mvrw': ('misc.adapt', 'MyopicMvRwSampler', lambda f, g, i: f(i[0], (A([0.0, 0.0]), A([np.inf, 3.0]))).propose(g), [A([1.1, .6])]),
    'mjprw': ('misc.adapt', 'MyopicMjpSampler', lambda f, g, i: f(mod('mjplib.skeleton').Skeleton(i[0], i[1], 1.5)).propose(i[2], i[3], g), [A([0, .6]), A([0, 2]), Q3, A([0, .5, 1.0, 1.5])]),
    'rawseed': ('ea3lib.seed', 'sample_raw_seed', lambda f, g, i: f((-np.inf, np.inf), *ops(), g), []),
    'flipseed': ('ea3lib.seed', 'flip_poisson_coin', lambda f, g, i: f(i[0], *ops(), *disc(), g), [sk()]),
    'dualseed': ('ea3lib.seed', 'flip_dual_coin', lambda f, g, i: f(i[0], .7, *ops(), disc()[0], *ops(), mod('ito.models.ou').eval_disc(A([.6, 1.3])), True, g), [sk()]),
    'estseed': ('ea3lib.seed', 'est_poisson_coin', lambda f, g, i: f(i[0], *ops(), *disc(), g), [sk()]),
    'interpseed': ('ea3lib.seed', 'interpolate_seed', lambda f, g, i: f(i[0], i[1], *ops(), g), [sk(), A([.3])]),
    'callseed': ('ea3lib.seed', 'SeedSkeleton', lambda f, g, i: i[0](i[1], *ops(), g), [sk(), A([.3])]),
    'bridgeseed': ('ea3lib.seed', 'sample_bridge', lambda f, g, i: take(f((-np.inf, np.inf), *ops(), *disc(), g), 1), []),
    'rawskel': ('ea3lib.skeleton', 'sample_raw_skeleton', lambda f, g, i: f(1.2, .2, -.1, (-np.inf, np.inf), g), []),
    'flipskel': ('ea3lib.skeleton', 'flip_poisson_coin', lambda f, g, i: f(i[0], *disc(), g), [sx()]),
    'estskel': ('ea3lib.skeleton', 'est_poisson_coin', lambda f, g, i: f(i[0], *disc(), g), [sx()]),
    'interpskel': ('ea3lib.skeleton', 'interpolate_skeleton', lambda f, g, i: f(i[0], i[1], g), [sx(), A([.3])]),
    'skel': ('ea3lib.skeleton', 'sample_skeleton', lambda f, g, i: take(f(1.2, .2, (-np.inf, np.inf), it.repeat(-.1), *disc(), g), 1), []),
    'sde': ('ito.models.ou', 'sample_sde', lambda f, g, i: take(f(i[0], i[1], 1.2, .2, -.1, g), 1), [THI, A([.5])]),
    'sdefree': ('ito.models.ou', 'sample_sde', lambda f, g, i: take(f(i[0], i[1], 1.2, .2, None, g), 1), [THI, A([.5])]),
    'cirfree': ('ito.models.cir', 'sample_sde', lambda f, g, i: take(f(i[0], i[1], .5, 1.2, None, g), 1), [A([1.0, 1.2, .7]), A([.3])]),
    'cir': ('ito.models.cir', 'sample_sde', lambda f, g, i: take(f(i[0], i[1], .5, 1.2, .9, g), 1), [A([1.0, 1.2, .7]), A([.3])]),
    'augito': ('ito.models.ou', 'sample_aug', lambda f, g, i: f(i[0], i[1], i[2], g), [THI, T6[:3], V6[:3]]),
    'augsw': ('switching.models.ou', 'sample_aug', lambda f, g, i: f(i[0], mod('mjplib.skeleton').Skeleton(i[3], i[4], 1.1), i[1], i[2], g), [A([[.8, 1.2], [1.1, .9]]), T6[:3], V6[:3], A([0, .7]), A([0, 1])]),
    'eslito': ('ito.mcem', 'est_log_aug_lik', lambda f, g, i: f(i[0], [sk()] * 2, mcem_model(), [A([.2]), A([.3])], g), [THI]),
    'ealito': ('ito.mcem', 'est_aug_lik', lambda f, g, i: f(i[0], [sk()] * 2, mcem_model(), g), [THI]),
}


def mcem_model():
    m, u = mod('ito.models.ou'), mod('ito.mcem')
    return u.Model(T6[:3], V6[:3], m.bounds_thi, m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)


def watch(cfg, R):
    m, name, fn, ins = CALLS[cfg['call']]
    key = cfg['call'] + '-'
    f = getattr(mod(m), name, None)
    if f is None:
        R.note('%s.%s is gone' % (m, name))
        return
    # real generators: bitwise equality whatever the state of other sources
    budget = mod('misc.exceptions').BudgetConstraintError
    for s in range(cfg['seeds']):
        ref = None
        for k in range(3):
            stir(k)
            g = np.random.default_rng(100 + s)
            ok, v = R.call(lambda: (bits(watched(R, key, lambda: fn(f, g, ins), ins)), gstate(g)), key=key, allow=(budget,))
            if not ok:
                continue
            if ref is None:
                ref = v
            R.check(v == ref, key + 'repeatable', 'same inputs and generator, other results when other random sources differ', seed=s)
            if R.fails:
                return

    # every path of the sampler
    n = [0]

    def go(g):
        watched(R, key, lambda: fn(f, g, ins), ins)
        n[0] += 1
    stir(0)
    R.explore(go, key=key, allow=(budget,), observe=False, K=2, max_depth=200, wmin=cfg['wmin'], nmax_poisson=3, tail=.1)
    if n[0] == 0:
        R.note('no path of %s has enough probability' % cfg['call'])
    for l in range(n[0]):
        R.state((cfg['call'], l))
