"""Stateless exhaustive exploration of the real ctbayes code.

The code under test asks a ``numpy.random.Generator`` for randomness.  Here the
generator is the environment of the model checker: every draw is a decision
node with finitely many branches of known probability, and a depth-first search
re-executes the real code once per path of the resulting decision tree.

* Scalar draws are returned *lazily* (``LazyU``): a comparison of a lazy draw
  with a number splits the current interval of the draw into its two exact
  parts, so the probability of every branch the code takes is computed, not
  estimated.  Only when a number is needed is the draw replaced by the nodes of
  a quadrature rule (Gauss, hence exact for polynomial moments).
* Discrete draws are enumerated with their probability mass function.

A run returns its leaves with their weights; leaf mass plus pruned mass is one.
"""
import contextlib
import math
import signal
import sys
import types as _types

import numpy as np
from scipy import special, stats

EPS = 1e-12
_real_default_rng = np.random.default_rng


class Prune(BaseException):
    """Abandon this execution; its weight is accounted as pruned mass."""


class EngineError(BaseException):
    """The exploration itself is broken (for example: the code is not a function of its draws)."""


class Hang(Exception):
    """One execution of the code under test exceeded its time limit."""


# ---------------------------------------------------------------- quadrature

_quad_cache = {}


def _golub(a, b, c):
    k = len(a)
    J = np.diag(np.array(a, float)) + np.diag(np.sqrt(b), 1) + np.diag(np.sqrt(b), -1) if k > 1 else np.diag(np.array(a, float))
    J[-1, -1] += c
    x, v = np.linalg.eigh(J)
    w = v[0] ** 2
    return x, w / w.sum()


def quad(kind, par, k, j):
    """k nodes and weights for the law `kind`(`par`), exact for polynomials of degree 2k-2 (2k-1 when j is 0).

    The index j shifts the nodes slightly, so that independent draws of one law do not tie."""
    jj = j % 61
    key = (kind, par, k, jj)
    if key in _quad_cache:
        return _quad_cache[key]
    shift = ((jj * 0.6180339887498949) % 1 - 0.5) * 0.5 if jj else 0.0
    n = np.arange(k, dtype=float)
    if kind == 'uniform':  # on [0, 1]
        a = np.full(k, .5)
        m = np.arange(1, k, dtype=float)
        b = m ** 2 / (4 * m ** 2 - 1) / 4
        sd = math.sqrt(1 / 12) if k == 1 else math.sqrt(b[-1])
    elif kind == 'normal':
        a = np.zeros(k)
        b = np.arange(1, k, dtype=float)
        sd = 1.0 if k == 1 else math.sqrt(b[-1])
    elif kind == 'gamma':  # shape par
        al = par - 1
        a = 2 * n + al + 1
        m = np.arange(1, k, dtype=float)
        b = m * (m + al)
        sd = min(math.sqrt(par), par) if k == 1 else math.sqrt(b[-1])
    elif kind == 'beta':
        p, q = par  # density x^(p-1)(1-x)^(q-1)
        x, w = special.roots_jacobi(max(k, 1), q - 1, p - 1)
        x, w = (x + 1) / 2, w / w.sum()
        if k == 1:
            x = np.array([p / (p + q)])
        _quad_cache[key] = (tuple(x), tuple(w))
        return _quad_cache[key]
    else:
        raise EngineError(kind)
    if k == 1:
        shift = 0.0 if kind != 'uniform' else shift * .2
        shift = shift if j else 0.0
    x, w = _golub(a, b, shift * sd)
    _quad_cache[key] = (tuple(float(v) for v in x), tuple(float(v) for v in w))
    return _quad_cache[key]


# ---------------------------------------------------------------- tape

class Node:
    __slots__ = ('tag', 'probs', 'live', 'k', 'aux')

    def __init__(self, tag, probs, live, aux=None):
        self.tag, self.probs, self.live, self.k, self.aux = tag, probs, live, 0, aux


class Tape:
    def __init__(self, ex, plan):
        self.ex, self.plan, self.pos, self.w = ex, plan, 0, 1.0
        self.ncon = 0          # concretised draws so far
        self.ndraws = 0        # draws requested from the generator so far
        self.inexact = 0       # draws replaced by nodes although a law is wanted
        self.events = []
        self.nbase = 0

    def choose(self, probs, tag, aux=None):
        if self.pos >= self.ex.max_depth:
            raise Prune
        i = self.pos
        self.pos += 1
        if i < len(self.plan):
            node = self.plan[i]
            if node.tag != tag or len(node.probs) != len(probs):
                raise EngineError('replay diverged at decision %d: %r(%d) instead of %r(%d)'
                                  % (i, tag, len(probs), node.tag, len(node.probs)))
        else:
            tot = 0.0
            for p in probs:
                if not p >= -1e-12:
                    raise EngineError('bad branch probabilities %r for %r' % (probs, tag))
            live = [j for j, p in enumerate(probs) if p > self.ex.eps and p * self.w > self.ex.wmin]
            if not live:
                raise Prune
            node = Node(tag, list(probs), live, aux)
            self.plan.append(node)
            self.ex.transitions += len(live)
            miss = 1.0 - sum(node.probs[j] for j in live)
            if miss > 0:
                self.ex.pruned += self.w * miss
        j = node.live[node.k]
        self.w *= node.probs[j]
        return j

    def forced(self):
        return self.pos < len(self.plan)


class Leaf:
    __slots__ = ('w', 'val', 'exc', 'inexact', 'events', 'path')

    def __init__(self, w, val, exc, inexact, events, path):
        self.w, self.val, self.exc, self.inexact, self.events, self.path = w, val, exc, inexact, events, path


class Explorer:
    """Depth-first enumeration of all executions of fn(gen)."""

    def __init__(self, K=None, eps=EPS, max_depth=400, max_leaves=400000, timeout=20.0, nmax_poisson=60, tail=1e-9,
                 lazy=True, max_draws=100000, wmin=0.0):
        self.K = {'uniform': 2, 'normal': 2, 'gamma': 2, 'beta': 2, 'default': 2, 'sorted': 1}
        if isinstance(K, dict):
            self.K.update(K)
        elif K:
            for k in self.K:
                self.K[k] = K
        self.eps, self.max_depth, self.max_leaves, self.timeout = eps, max_depth, max_leaves, timeout
        self.nmax_poisson, self.tail, self.lazy, self.max_draws, self.wmin = nmax_poisson, tail, lazy, max_draws, wmin
        self.transitions = 0
        self.pruned = 0.0
        self.pruned_runs = 0
        self.leaves = 0
        self.mass = 0.0
        self.truncated = False

    def run(self, fn):
        plan = []
        while True:
            tape = Tape(self, plan)
            gen = CtrlGen(tape)
            exc = val = None
            pruned = False
            try:
                with alarm(self.timeout):
                    val = fn(gen)
                    val = settle(val)
            except Prune:
                pruned = True
            except EngineError:
                raise
            except Exception as e:  # noqa: judged by the harness
                exc = e
            if tape.pos < len(plan):
                raise EngineError('execution ended after %d of %d planned decisions' % (tape.pos, len(plan)))
            if pruned:
                self.pruned += tape.w
                self.pruned_runs += 1
            else:
                self.leaves += 1
                self.mass += tape.w
                yield Leaf(tape.w, val, exc, tape.inexact, tape.events, [n.live[n.k] for n in plan])
            while plan and plan[-1].k + 1 >= len(plan[-1].live):
                plan.pop()
            if not plan:
                break
            plan[-1].k += 1
            if self.leaves + self.pruned_runs >= self.max_leaves:
                self.truncated = True
                raise EngineError('exploration exceeded %d executions' % self.max_leaves)
        if not abs(self.mass + self.pruned - 1) < 1e-6:
            raise EngineError('leaf mass %.12g + pruned mass %.12g is not 1' % (self.mass, self.pruned))


def explore(fn, **kw):
    ex = Explorer(**kw)
    return ex, list(ex.run(fn))


_alarm_ok = True


@contextlib.contextmanager
def alarm(seconds):
    if not seconds:
        yield
        return

    def on(sig, frm):
        raise Hang('no result within %g s' % seconds)
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- lazy draws

class Base:
    """One continuous draw: its law, and the interval of its quantile level that is still possible."""
    __slots__ = ('tape', 'kind', 'par', 'ppf', 'lo', 'hi', 'x', 'idx')

    def __init__(self, tape, kind, par, ppf):
        self.tape, self.kind, self.par, self.ppf = tape, kind, par, ppf
        self.lo, self.hi, self.x = 0.0, 1.0, None
        self.idx = tape.nbase
        tape.nbase += 1

    def fix(self):
        if self.x is not None:
            return
        ex = self.tape.ex
        k = ex.K.get(self.kind, ex.K['default'])
        j = self.tape.ncon
        self.tape.ncon += 1
        if self.lo == 0.0 and self.hi == 1.0 and self.kind in ('uniform', 'normal', 'gamma', 'beta'):
            xs, ws = quad(self.kind, self.par, k, j)
            i = self.tape.choose(ws, 'q' + self.kind)
            self.x = xs[i]
        else:
            us, ws = quad('uniform', None, k, j)
            i = self.tape.choose(ws, 'q' + self.kind)
            self.x = float(self.ppf(self.lo + (self.hi - self.lo) * us[i]))
        if self.tape.w is None:
            raise EngineError


_identity = (lambda u: u)


def _safe(f, edge=None, at_edge=None):
    def g(x):
        try:
            if x == edge:
                return at_edge
            return f(x)
        except (ValueError, TypeError):
            return math.nan
        except OverflowError:
            return math.inf
    return g


_MONO1 = {'log': _safe(math.log, 0, -math.inf), 'exp': _safe(math.exp), 'log1p': _safe(math.log1p, -1, -math.inf),
          'expm1': _safe(math.expm1), 'log2': _safe(math.log2, 0, -math.inf), 'log10': _safe(math.log10, 0, -math.inf),
          'sqrt': _safe(math.sqrt), 'negative': (lambda x: -x), 'positive': _identity}


def _div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1.0, b)


_PYOP = {'add': (lambda a, b: a + b), 'subtract': (lambda a, b: a - b), 'multiply': (lambda a, b: a * b), 'divide': _div}
_CMP = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}
_ARITH = {'add', 'subtract', 'multiply', 'divide', 'true_divide'}
_SCALAR = (int, float, np.integer, np.floating, np.bool_)


def _is_scalar(v):
    return isinstance(v, _SCALAR) or (isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype != object)


class LazyU(object):
    """A monotone function of one Base."""
    __slots__ = ('base', 'fns')
    __array_priority__ = 1e6

    def __init__(self, base, fns=()):
        self.base, self.fns = base, fns

    # -- evaluation
    def at(self, u):
        x = self.base.ppf(u)
        for f in self.fns:
            x = f(x)
        return x

    def value(self):
        self.base.fix()
        x = self.base.x
        for f in self.fns:
            x = f(x)
        return float(x)

    __float__ = value

    def __int__(self):
        return int(self.value())

    def __bool__(self):
        return bool(self.value())

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.value(), dtype=dtype)

    def item(self):
        return self

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(np.float64(self.value()), name)

    def __repr__(self):
        return 'LazyU(%s)' % (self.base.x if self.base.x is not None else '%.4g..%.4g' % (self.base.lo, self.base.hi))

    def __hash__(self):
        return hash(self.value())

    # -- comparison: exact branch
    def _below(self, c, strict):
        """Truth of (self < c) (strict) or (self <= c)."""
        b = self.base
        if b.x is not None:
            v = self.value()
            return v < c if strict else v <= c
        if not b.tape.ex.lazy:
            b.fix()
            return self._below(c, strict)
        c = float(c)
        if c != c:
            return False
        flo, fhi = self.at(b.lo), self.at(b.hi)
        if flo != flo or fhi != fhi:   # rounding at the very end of the domain
            d = (b.hi - b.lo) * 1e-12
            flo = self.at(b.lo + d) if flo != flo else flo
            fhi = self.at(b.hi - d) if fhi != fhi else fhi
        if flo != flo or fhi != fhi:
            b.fix()
            return self._below(c, strict)
        inc = flo <= fhi
        # u* splits [lo, hi] into {f < c} and {f > c}; ties have probability zero except at interval ends
        lo, hi = b.lo, b.hi
        if inc:
            if fhi <= c and not (fhi == c and strict and flo == fhi):
                return True
            if flo >= c:
                return False
        else:
            if flo <= c:
                return True
            if fhi >= c:
                return False
        t = b.tape
        if t.pos < len(t.plan) and t.plan[t.pos].tag == 'cmp':
            us = t.plan[t.pos].aux
        else:
            at = self.at
            for _ in range(1200):
                mid = (lo + hi) / 2
                if mid <= lo or mid >= hi:
                    break
                if (at(mid) < c) == inc:
                    lo = mid
                else:
                    hi = mid
                if hi - lo < 1e-17 and hi - lo < 1e-15 * hi:
                    break
            us = hi
        p = (us - b.lo) / (b.hi - b.lo)
        p = min(max(p, 0.0), 1.0)
        left = t.choose((p, 1 - p), 'cmp', us) == 0
        if left:
            b.hi = us
        else:
            b.lo = us
        return left if inc else not left

    def _cmp(self, other, op):
        if isinstance(other, LazyArr) or (isinstance(other, np.ndarray) and other.ndim > 0):
            return np.array([self._cmp(o, op) for o in other])
        if isinstance(other, LazyU):
            if other.base is self.base:
                self.base.fix()
            else:
                old = self if self.base.idx < other.base.idx else other
                if self.base.x is None and other.base.x is None:
                    old.base.fix()
            if other.base.x is None:  # compare the other way round
                flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
                return other._cmp(self.value(), flip)
            other = other.value()
        if op == '<':
            return self._below(other, True)
        if op == '<=':
            return self._below(other, False)
        if op == '>':
            return not self._below(other, False)
        return not self._below(other, True)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        if self.base.x is None:
            if isinstance(o, LazyU):
                return o is self
            if _is_scalar(o):
                return False  # probability zero
        return self.value() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, (bool, np.bool_)) else ~r

    # -- arithmetic: extend the chain when it stays monotone
    def _ext(self, f):
        if self.base.x is not None:
            return np.float64(f(self.value()))
        return LazyU(self.base, self.fns + (f,))

    def _arith(self, name, o, rev):
        fn = getattr(np, name)
        if isinstance(o, LazyU):
            if o.base is self.base or (o.base.x is not None and self.base.x is not None):
                a, b = self.value(), o.value()
                return fn(b, a) if rev else fn(a, b)
            if self.base.x is None and o.base.x is None:
                (self if self.base.idx < o.base.idx else o).base.fix()
            if self.base.x is None:
                return self._arith(name, o.value(), rev)
            return o._arith(name, self.value(), not rev)
        if isinstance(o, LazyArr) or not _is_scalar(o):
            v = self.value()
            o = np.asarray(o)
            return fn(o, v) if rev else fn(v, o)
        o = float(o)
        if name in ('divide', 'true_divide') and rev:
            if self.base.x is None:
                a, b = self.at(self.base.lo), self.at(self.base.hi)
                if not (a >= 0 and b >= 0 or a <= 0 and b <= 0):
                    self.base.fix()
            return self._ext(lambda x: _div(o, x))
        op = _PYOP['divide' if name == 'true_divide' else name]
        if rev:
            return self._ext(lambda x: op(o, x))
        return self._ext(lambda x: op(x, o))

    def __add__(self, o): return self._arith('add', o, False)
    def __radd__(self, o): return self._arith('add', o, True)
    def __sub__(self, o): return self._arith('subtract', o, False)
    def __rsub__(self, o): return self._arith('subtract', o, True)
    def __mul__(self, o): return self._arith('multiply', o, False)
    def __rmul__(self, o): return self._arith('multiply', o, True)
    def __truediv__(self, o): return self._arith('divide', o, False)
    def __rtruediv__(self, o): return self._arith('divide', o, True)
    def __neg__(self): return self._ext(_MONO1['negative'])
    def __pos__(self): return self
    def __pow__(self, o): return np.float64(self.value()) ** o
    def __rpow__(self, o): return o ** np.float64(self.value())
    def __abs__(self): return abs(np.float64(self.value()))
    def __mod__(self, o): return np.float64(self.value()) % o
    def __floordiv__(self, o): return np.float64(self.value()) // o
    def __round__(self, n=None): return round(self.value(), n) if n is not None else round(self.value())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        n = ufunc.__name__
        if method == '__call__' and not kw:
            if n in _MONO1:
                return inputs[0]._ext(_MONO1[n])
            if n in _CMP:
                a, b = inputs
                if isinstance(a, LazyU):
                    return a._cmp(b, _CMP[n])
                flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[_CMP[n]]
                return b._cmp(a, flip)
            if n in _ARITH:
                a, b = inputs
                n = 'divide' if n == 'true_divide' else n
                if isinstance(a, LazyU):
                    return a._arith(n, b, False)
                return b._arith(n, a, True)
            if n in ('minimum', 'maximum', 'fmin', 'fmax') and len(inputs) == 2:
                a, b = inputs
                lt = bool(a < b)
                return (a if lt else b) if n in ('minimum', 'fmin') else (b if lt else a)
            if n in ('isnan', 'isinf'):
                return np.bool_(False)
            if n == 'isfinite':
                return np.bool_(True)
            if n == 'equal':
                a, b = inputs
                return (a == b) if isinstance(a, LazyU) else (b == a)
        inputs = [np.float64(i.value()) if isinstance(i, LazyU) else i for i in inputs]
        return getattr(ufunc, method)(*inputs, **kw)

    def __array_function__(self, func, types, args, kw):
        if func is np.searchsorted and len(args) >= 2 and isinstance(args[1], LazyU) and not isinstance(args[0], (LazyU, LazyArr)):
            a = np.asarray(args[0])
            side = kw.get('side', args[2] if len(args) > 2 else 'left')
            lo, hi, z = 0, len(a), args[1]
            while lo < hi:
                mid = (lo + hi) // 2
                if (z > a[mid]) if side == 'left' else (z >= a[mid]):
                    lo = mid + 1
                else:
                    hi = mid
            return np.int64(lo)
        return func(*_plain(args), **_plain(kw))


class LazyArr(object):
    """A 1-d or n-d array of independent lazy draws that turns into an ndarray on first real use."""
    __array_priority__ = 1e6

    def __init__(self, items, shape, iid=None, expo=None):
        self._items, self._shape, self._nd, self._iid, self._expo = items, tuple(shape), None, iid, expo

    def nd(self):
        if self._nd is None:
            a = np.empty(len(self._items))
            for i, it in enumerate(self._items):
                if isinstance(it, LazyU):
                    if it.base.x is None:
                        it.base.tape.inexact += 1
                    a[i] = it.value()
                else:
                    a[i] = it
            self._nd = a.reshape(self._shape)
        return self._nd

    def __array__(self, dtype=None, copy=None):
        return np.array(self.nd(), dtype=dtype)

    def __len__(self):
        if not self._shape:
            raise TypeError
        return self._shape[0]

    @property
    def shape(self): return self._shape
    @property
    def size(self): return len(self._items)
    @property
    def ndim(self): return len(self._shape)
    @property
    def dtype(self): return np.dtype(float)

    def __iter__(self):
        if self._nd is not None or len(self._shape) != 1:
            return iter(self.nd())
        return iter(self._items)

    def __getitem__(self, k):
        if self._nd is None and len(self._shape) == 1 and isinstance(k, (int, np.integer)):
            return self._items[k]
        if self._nd is None and len(self._shape) == 1 and isinstance(k, slice):
            it = self._items[k]
            return LazyArr(it, (len(it),), self._iid)
        return self.nd()[k]

    def __setitem__(self, k, v):
        self.nd()[k] = v

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self.nd(), name)

    def __repr__(self):
        return 'LazyArr(%r)' % (self._items,)

    def item(self, *a):
        if not a and len(self._items) == 1 and self._nd is None:
            return self._items[0]
        return self.nd().item(*a)

    def _fresh(self):
        return self._nd is None and all(isinstance(i, LazyU) and i.base.x is None and i.base.lo == 0.0 and i.base.hi == 1.0
                                        for i in self._items)

    def sort(self, axis=-1, kind=None, order=None):
        s = np.sort(self)
        self._nd = np.asarray(s)

    def argmin(self, *a, **k):
        return np.argmin(self)

    def min(self, *a, **k):
        return np.min(self)

    def _map(self, f):
        return LazyArr([f(i) for i in self._items], self._shape)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        n = ufunc.__name__
        if method == '__call__' and not kw:
            if n in _MONO1 and self._nd is None:
                return self._map(lambda i: i._ext(_MONO1[n]) if isinstance(i, LazyU) else _MONO1[n](i))
            if n in _CMP and len(inputs) == 2:
                a, b = inputs
                if isinstance(a, LazyU) or isinstance(b, LazyU):
                    a, b = _plain([a, b])
                elif isinstance(a, LazyArr) and isinstance(b, LazyArr):
                    a = a.nd()
                me, ot, op = (a, b, _CMP[n]) if isinstance(a, LazyArr) else (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[_CMP[n]])
                if isinstance(me, LazyArr) and me._nd is None:
                    o = np.asarray(ot)
                    if o.ndim == 0 or o.shape == me._shape:
                        o = np.broadcast_to(o, me._shape).reshape(-1)
                        r = [i._cmp(v, op) if isinstance(i, LazyU) else getattr(np, n)(i, v) for i, v in zip(me._items, o)]
                        return np.array(r, dtype=bool).reshape(me._shape)
            if n in _ARITH and len(inputs) == 2 and self._nd is None:
                a, b = inputs
                me, ot, rev = (a, b, False) if isinstance(a, LazyArr) else (b, a, True)
                if not isinstance(ot, (LazyArr, LazyU)):
                    o = np.asarray(ot)
                    if o.dtype != object and (o.ndim == 0 or o.shape == me._shape):
                        o = np.broadcast_to(o, me._shape).reshape(-1)
                        nm = 'divide' if n == 'true_divide' else n
                        return LazyArr([i._arith(nm, v, rev) if isinstance(i, LazyU)
                                        else (getattr(np, nm)(v, i) if rev else getattr(np, nm)(i, v))
                                        for i, v in zip(me._items, o)], me._shape)
        return getattr(ufunc, method)(*_plain(inputs), **_plain(kw))

    def __array_function__(self, func, types, args, kw):
        if func is np.sort and len(args) == 1 and args[0] is self and self._iid is not None and self._fresh() and len(self._shape) == 1:
            return self._sorted()
        if func in (np.argmin, np.min, np.amin) and len(args) == 1 and not kw and self._expo is not None and self._fresh() and len(self._items):
            j = self._race()
            return j if func is np.argmin else self._items[j]
        return func(*_plain(args), **_plain(kw))

    def _sorted(self):
        """Order statistics of n independent uniforms, drawn from the largest down: U_(k) = U_(k+1) * Beta(k, 1)."""
        lo, hi = self._iid
        n = len(self._items)
        if n == 0:
            return np.zeros(0)
        tape = self._items[0].base.tape
        out, cur = np.empty(n), 1.0
        for k in range(n, 0, -1):
            xs, ws = quad('beta', (float(k), 1.0), tape.ex.K['sorted'], 0)
            cur = cur * xs[tape.choose(ws, 'qsorted')]
            out[k - 1] = cur
        for i, it in enumerate(self._items):
            it.base.x = None
        return lo + (hi - lo) * out

    def _race(self):
        """Competing exponentials: the winner has probability rate/sum, the winning time is Exp(sum)."""
        rates = self._expo
        tape = self._items[0].base.tape
        s = float(sum(rates))
        j = tape.choose(tuple(r / s for r in rates), 'race')
        b = Base(tape, 'exponential', None, _expo_ppf)
        win = LazyU(b, (lambda x: x / s,))
        items = []
        for i, r in enumerate(rates):
            items.append(win if i == j else math.inf)  # the losers are only known to be larger
        self._items = items
        self._expo = None
        return np.int64(j)

    def _bin(self, name, o, rev):
        u = getattr(np, name)
        return u(o, self) if rev else u(self, o)

    def __add__(self, o): return self._bin('add', o, 0)
    def __radd__(self, o): return self._bin('add', o, 1)
    def __sub__(self, o): return self._bin('subtract', o, 0)
    def __rsub__(self, o): return self._bin('subtract', o, 1)
    def __mul__(self, o): return self._bin('multiply', o, 0)
    def __rmul__(self, o): return self._bin('multiply', o, 1)
    def __truediv__(self, o): return self._bin('divide', o, 0)
    def __rtruediv__(self, o): return self._bin('divide', o, 1)
    def __lt__(self, o): return self._bin('less', o, 0)
    def __le__(self, o): return self._bin('less_equal', o, 0)
    def __gt__(self, o): return self._bin('greater', o, 0)
    def __ge__(self, o): return self._bin('greater_equal', o, 0)
    def __neg__(self): return np.negative(self)
    def __pow__(self, o): return self.nd() ** o
    def __eq__(self, o): return self.nd() == o
    def __ne__(self, o): return self.nd() != o
    __hash__ = None


def _plain(v):
    if isinstance(v, LazyU):
        return np.float64(v.value())
    if isinstance(v, LazyArr):
        return v.nd()
    if isinstance(v, tuple) and not hasattr(v, '_fields'):
        return tuple(_plain(i) for i in v)
    if isinstance(v, list):
        return [_plain(i) for i in v]
    if isinstance(v, dict):
        return {k: _plain(i) for k, i in v.items()}
    return v


def settle(v):
    """Turn every lazy value inside a result into a number."""
    if isinstance(v, LazyU):
        return v.value()
    if isinstance(v, LazyArr):
        return v.nd()
    if isinstance(v, tuple):
        return type(v)(*[settle(i) for i in v]) if hasattr(v, '_fields') else tuple(settle(i) for i in v)
    if isinstance(v, list):
        return [settle(i) for i in v]
    if isinstance(v, dict):
        return {k: settle(i) for k, i in v.items()}
    return v


def num(x):
    """Number behind a possibly lazy scalar argument of a draw."""
    return x.value() if isinstance(x, LazyU) else x


def _expo_ppf(u):
    return -math.log1p(-u) if u < 1 else math.inf


def _norm_ppf(u):
    return float(special.ndtri(u))


def wald_cdf(x, mu, lam):
    if x <= 0:
        return 0.0
    if x == math.inf:
        return 1.0
    r = math.sqrt(lam / x)
    a = special.ndtr(r * (x / mu - 1))
    b = math.exp(min(2 * lam / mu + special.log_ndtr(-r * (x / mu + 1)), 0.0))
    return float(min(a + b, 1.0))


_wald_cache = {}


def wald_ppf(u, mu, lam):
    if u <= 0:
        return 0.0
    if u >= 1:
        return math.inf
    key = (u, mu, lam)
    if key in _wald_cache:
        return _wald_cache[key]
    lo, hi = 1e-300, mu
    while wald_cdf(hi, mu, lam) < u:
        hi *= 2
        if hi > 1e300:
            break
    lo = hi
    while wald_cdf(lo, mu, lam) > u and lo > 1e-290:
        lo /= 4
    for _ in range(200):
        mid = math.sqrt(lo * hi) if hi > 4 * lo else (lo + hi) / 2
        if mid <= lo or mid >= hi:
            break
        if wald_cdf(mid, mu, lam) < u:
            lo = mid
        else:
            hi = mid
        if hi - lo < 1e-14 * hi:
            break
    if len(_wald_cache) > 200000:
        _wald_cache.clear()
    _wald_cache[key] = hi
    return hi


# ---------------------------------------------------------------- the controlled generator

class Token(object):
    """Stands for a spawned seed sequence."""

    def __init__(self, tape, key):
        self._tape, self._key, self._kids, self._used = tape, key, 0, 0
        self.spawn_key, self.entropy = key, 0

    def spawn(self, n):
        out = [Token(self._tape, self._key + (self._kids + i,)) for i in range(int(n))]
        self._kids += int(n)
        return out


class FakeBits(object):
    def __init__(self, token):
        self._seed_seq = self.seed_seq = token

    def spawn(self, n):
        return [FakeBits(t) for t in self._seed_seq.spawn(n)]


class CtrlGen(np.random.Generator):
    def __init__(self, tape, token=None):
        super().__init__(_BITS)
        self.tape = tape
        self._bits = FakeBits(token or Token(tape, ()))

    @property
    def bit_generator(self):
        return self._bits

    def spawn(self, n):
        return [CtrlGen(self.tape, t) for t in self._bits._seed_seq.spawn(n)]

    def __deepcopy__(self, memo):
        raise EngineError('controlled generator copied')

    __copy__ = None

    def __reduce__(self):
        raise EngineError('controlled generator pickled')

    # -- helpers
    def _tick(self):
        self.tape.ndraws += 1
        if self.tape.ndraws > self.tape.ex.max_draws:
            raise Prune

    def _scalar(self, kind, par, ppf, post=()):
        self._tick()
        return LazyU(Base(self.tape, kind, par, ppf), tuple(post))

    def _fixed(self, kind, par, ppf, post=()):
        return LazyU(Base(self.tape, kind, par, ppf), tuple(post)).value()

    @staticmethod
    def _shape(size, *pars):
        shp = np.broadcast_shapes(*[np.shape(p) for p in pars]) if pars else ()
        if size is None:
            return shp
        size = tuple(int(s) for s in size) if isinstance(size, (tuple, list, np.ndarray)) else (int(size),)
        if any(s < 0 for s in size):
            raise ValueError('negative dimensions are not allowed')
        if pars and np.broadcast_shapes(shp, size) != size:
            raise ValueError('Output size %s is not compatible with broadcast dimensions of inputs %s.' % (size, shp))
        return size

    def _each(self, shp, fn, *pars):
        bc = [np.broadcast_to(np.asarray(p, float), shp).reshape(-1) for p in pars]
        n = int(np.prod(shp)) if shp else 1
        return [fn(*[b[i] for b in bc]) for i in range(n)]

    # -- uniform
    def random(self, size=None, dtype=np.float64, out=None):
        if size is None:
            return self._scalar('uniform', None, _identity)
        return self._uarr(self._shape(size), 0.0, 1.0)

    def _uarr(self, shp, low, high):
        self._tick()
        n = int(np.prod(shp))
        lo = np.broadcast_to(np.asarray(low, float), shp).reshape(-1)
        hi = np.broadcast_to(np.asarray(high, float), shp).reshape(-1)
        items = []
        for i in range(n):
            a, d = float(lo[i]), float(hi[i] - lo[i])
            b = Base(self.tape, 'uniform', None, _identity)
            items.append(LazyU(b, () if a == 0 and d == 1 else (lambda x, a=a, d=d: a + d * x,)))
        iid = (float(lo[0]), float(hi[0])) if n and np.all(lo == lo[0]) and np.all(hi == hi[0]) else None
        if len(shp) != 1:  # multi-dimensional: plain numbers straight away
            return LazyArr(items, shp).nd()
        return LazyArr(items, shp, iid)

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = (_plain(low), _plain(high))
        shp = self._shape(size, low, high)
        if np.any(~np.isfinite(np.asarray(high, float) - np.asarray(low, float))):
            raise OverflowError('Range exceeds valid bounds')
        if np.any(np.asarray(high, float) < np.asarray(low, float)):
            raise ValueError('low > high')
        if size is None and shp == ():
            a, d = float(low), float(high) - float(low)
            if d == 0:
                return a
            return self._scalar('uniform', None, _identity, () if a == 0 and d == 1 else (lambda x: a + d * x,))
        return self._uarr(shp, low, high)

    # -- normal
    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self.normal(0.0, 1.0, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = _plain(loc), _plain(scale)
        shp = self._shape(size, loc, scale)
        if np.any(np.asarray(scale) < 0):
            raise ValueError('scale < 0')
        if shp == () and size is None:
            loc, scale = float(loc), float(scale)
            if scale == 0:
                return loc
            return self._scalar('normal', None, _norm_ppf, (lambda x: loc + scale * x,) if (loc, scale) != (0, 1) else ())
        self._tick()
        r = self._each(shp, lambda m, s: m + s * self._fixed('normal', None, _norm_ppf) if s == s and m == m else np.nan, loc, scale)
        return np.array(r, float).reshape(shp)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(self.normal(mean, sigma, size))

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8, *, method='svd'):
        self._tick()
        mean, cov = np.asarray(_plain(mean), float), np.asarray(_plain(cov), float)
        if mean.ndim != 1 or cov.shape != (len(mean), len(mean)):
            raise ValueError('mean and cov must have same length')
        w, v = np.linalg.eigh((cov + cov.T) / 2)
        root = v * np.sqrt(np.clip(w, 0, None)) @ v.T
        shp = () if size is None else self._shape(size)
        n = int(np.prod(shp)) if shp else 1
        rows = [mean + root @ np.array([self._fixed('normal', None, _norm_ppf) for _ in mean]) for _ in range(n)]
        return rows[0] if size is None else np.array(rows).reshape(shp + (len(mean),))

    # -- exponential / gamma family
    def standard_exponential(self, size=None, dtype=np.float64, method='zig', out=None):
        return self.exponential(1.0, size)

    def exponential(self, scale=1.0, size=None):
        scale = _plain(scale)
        shp = self._shape(size, scale)
        if np.any(np.asarray(scale, float) < 0) or np.any(np.isnan(np.asarray(scale, float))):
            raise ValueError('scale < 0')
        if shp == () and size is None:
            s = float(scale)
            if s == math.inf:
                return math.inf
            if s == 0:
                return 0.0
            return self._scalar('exponential', None, _expo_ppf, (lambda x: x * s,) if s != 1 else ())
        self._tick()
        sc = np.broadcast_to(np.asarray(scale, float), shp).reshape(-1)
        items = [math.inf if s == math.inf else LazyU(Base(self.tape, 'exponential', None, _expo_ppf), (lambda x, s=float(s): x * s,)) for s in sc]
        if any(i is math.inf for i in items):
            live = [i for i in items if i is not math.inf]
            if not live:
                return np.full(shp, np.inf)
            return _RaceArr(items, shp, [0.0 if s == math.inf else 1 / s for s in sc])
        return _RaceArr(items, shp, [1 / s if s > 0 else math.inf for s in sc])

    def gamma(self, shape, scale=1.0, size=None):
        shape, scale = _plain(shape), _plain(scale)
        shp = self._shape(size, shape, scale)
        if np.any(np.asarray(shape) < 0) or np.any(np.asarray(scale) < 0):
            raise ValueError('shape < 0')
        if shp == () and size is None:
            a, s = float(shape), float(scale)
            if a != a or s != s:
                return np.nan
            return self._scalar('gamma', a, lambda u: float(special.gammaincinv(a, u)), (lambda x: x * s,))
        self._tick()

        def one(a, s):
            if a != a or s != s:
                return np.nan
            if a == 0:
                return 0.0
            return s * self._fixed('gamma', float(a), lambda u: float(special.gammaincinv(a, u)))
        return np.array(self._each(shp, one, shape, scale), float).reshape(shp)

    def standard_gamma(self, shape, size=None, dtype=np.float64, out=None):
        return self.gamma(shape, 1.0, size)

    def chisquare(self, df, size=None):
        return 2.0 * self.gamma(np.asarray(_plain(df), float) / 2 if np.ndim(df) else float(num(df)) / 2, 1.0, size)

    def beta(self, a, b, size=None):
        a, b = _plain(a), _plain(b)
        shp = self._shape(size, a, b)
        if np.any(np.asarray(a) <= 0) or np.any(np.asarray(b) <= 0):
            raise ValueError('a <= 0')
        if shp == () and size is None:
            a, b = float(a), float(b)
            return self._scalar('beta', (a, b), lambda u: float(special.betaincinv(a, b, u)))
        self._tick()
        return np.array(self._each(shp, lambda p, q: self._fixed('beta', (float(p), float(q)), lambda u: float(special.betaincinv(p, q, u))), a, b), float).reshape(shp)

    def wald(self, mean, scale, size=None):
        mean, scale = _plain(mean), _plain(scale)
        shp = self._shape(size, mean, scale)
        if np.any(~(np.asarray(mean, float) > 0)) or np.any(~(np.asarray(scale, float) > 0)):
            raise ValueError('mean <= 0')
        if shp == () and size is None:
            m, s = float(mean), float(scale)
            return self._scalar('wald', (m, s), lambda u: wald_ppf(u, m, s))
        self._tick()
        return np.array(self._each(shp, lambda m, s: self._fixed('wald', (m, s), lambda u: wald_ppf(u, m, s)), mean, scale), float).reshape(shp)

    # -- discrete
    def _pois(self, lam):
        lam = float(lam)
        if lam < 0 or lam != lam:
            raise ValueError('lam < 0 or lam is NaN')
        if lam == 0:
            return 0
        probs, acc = [], 0.0
        for n in range(self.tape.ex.nmax_poisson + 1):
            p = float(np.exp(n * np.log(lam) - lam - special.gammaln(n + 1)))
            probs.append(p)
            acc += p
            if 1 - acc < self.tape.ex.tail and n > lam:
                break
        return self.tape.choose(tuple(probs), 'poisson')

    def poisson(self, lam=1.0, size=None):
        self._tick()
        lam = _plain(lam)
        shp = self._shape(size, lam)
        if shp == () and size is None:
            return int(self._pois(lam))
        return np.array(self._each(shp, self._pois, lam), dtype=np.int64).reshape(shp)

    def binomial(self, n, p, size=None):
        self._tick()
        n, p = _plain(n), _plain(p)
        shp = self._shape(size, n, p)

        def one(n, p):
            n = int(n)
            return self.tape.choose(tuple(float(v) for v in stats.binom.pmf(np.arange(n + 1), n, p)), 'binomial')
        r = self._each(shp, one, n, p)
        return int(r[0]) if shp == () and size is None else np.array(r, dtype=np.int64).reshape(shp)

    def geometric(self, p, size=None):
        self._tick()
        shp = self._shape(size, p)

        def one(p):
            p = float(p)
            probs, q = [], p
            while q > self.tape.ex.tail:
                probs.append(q)
                q *= 1 - p
            return self.tape.choose(tuple(probs), 'geometric') + 1
        r = self._each(shp, one, p)
        return int(r[0]) if shp == () and size is None else np.array(r, dtype=np.int64).reshape(shp)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        self._tick()
        if high is None:
            low, high = 0, low
        shp = self._shape(size, low, high)

        def one(a, b):
            a, b = int(a), int(b) + (1 if endpoint else 0)
            if b <= a:
                raise ValueError('low >= high')
            return a + (self.tape.choose((1 / (b - a),) * (b - a), 'integers') if b - a > 1 else 0)
        r = self._each(shp, one, low, high)
        return int(r[0]) if shp == () and size is None else np.array(r, dtype=dtype).reshape(shp)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self._tick()
        a = _plain(a)
        pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(pool)
        if n == 0:
            raise ValueError('a cannot be empty unless no samples are taken')
        if p is not None:
            p = np.asarray(_plain(p), float)
            if len(p) != n:
                raise ValueError("a and p must have same size")
            if np.any(np.isnan(p)):
                raise ValueError('probabilities contain NaN')
            if np.any(p < 0):
                raise ValueError('probabilities are not non-negative')
            if abs(p.sum() - 1) > 1e-8:
                raise ValueError('probabilities do not sum to 1')
        probs = np.full(n, 1 / n) if p is None else p / p.sum()
        shp = () if size is None else self._shape(size)
        m = int(np.prod(shp)) if shp else 1
        idx, avail, left = [], list(range(n)), list(probs)
        if not replace and m > n:
            raise ValueError('Cannot take a larger sample than population when replace is False')
        for _ in range(m):
            s = sum(left)
            j = self.tape.choose(tuple(float(v) / s for v in left), 'choice') if len(left) > 1 else 0
            idx.append(avail[j])
            if not replace:
                del avail[j], left[j]
        return pool[idx[0]] if size is None else pool[np.array(idx, dtype=int)].reshape(shp + pool.shape[1:])

    def permutation(self, x, axis=0):
        n = int(x) if np.ndim(x) == 0 else len(x)
        pool = np.arange(n) if np.ndim(x) == 0 else np.asarray(x)
        return pool[np.asarray(self.choice(n, n, replace=False) if n else [], dtype=int)]

    def shuffle(self, x, axis=0):
        x[:] = self.permutation(np.asarray(x))

    def __getattribute__(self, name):
        if name in _UNSUPPORTED:
            raise EngineError('draw %r is not modelled' % name)
        return object.__getattribute__(self, name)


class _RaceArr(LazyArr):
    """Array of independent exponentials (possibly with rate zero)."""

    def __init__(self, items, shp, rates):
        LazyArr.__init__(self, items, shp, None, rates)

    def _fresh(self):
        return self._nd is None and self._expo is not None and all(
            not isinstance(i, LazyU) or (i.base.x is None and i.base.lo == 0.0 and i.base.hi == 1.0) for i in self._items)

    def _race(self):
        rates = self._expo
        tape = next(i for i in self._items if isinstance(i, LazyU)).base.tape
        if any(r == math.inf for r in rates):
            return np.int64(rates.index(math.inf))
        s = float(sum(rates))
        j = tape.choose(tuple(r / s for r in rates), 'race') if len(rates) > 1 else 0
        win = LazyU(Base(tape, 'exponential', None, _expo_ppf), (lambda x: x / s,))
        self._items = [win if i == j else math.inf for i in range(len(rates))]
        self._expo = None
        return np.int64(j)


_BITS = np.random.PCG64(0)
_MODELLED = set(n for n in vars(CtrlGen) if not n.startswith('_'))
_UNSUPPORTED = {n for n in dir(np.random.Generator) if not n.startswith('_')} - _MODELLED


def _patched_default_rng(seed=None):
    if isinstance(seed, Token):
        seed._used += 1
        if seed._used > 1:
            seed._tape.events.append('one spawned seed used for two generators')
        return CtrlGen(seed._tape, seed)
    if isinstance(seed, FakeBits):
        return _patched_default_rng(seed._seed_seq)
    if isinstance(seed, CtrlGen):
        return seed
    return _real_default_rng(seed)


np.random.default_rng = _patched_default_rng


# ---------------------------------------------------------------- replacing functions of the code under test

@contextlib.contextmanager
def replaced(*pairs):
    """Replace functions in every ctbayes module that refers to them (also under an imported name)."""
    undo = []
    try:
        for orig, stub in pairs:
            hit = 0
            for mod in list(sys.modules.values()):
                if isinstance(mod, _types.ModuleType) and getattr(mod, '__name__', '').startswith('ctbayes'):
                    for k, v in list(vars(mod).items()):
                        if v is orig:
                            undo.append((mod, k, v))
                            setattr(mod, k, stub)
                            hit += 1
            if not hit:
                raise EngineError('nothing to replace for %r' % orig)
        yield
    finally:
        for mod, k, v in undo:
            setattr(mod, k, v)
