"""Independent oracles shared by the checks."""
import math

import numpy as np
from scipy.linalg import expm

GENS = {
    'two': [[-1.0, 1.0], [2.0, -2.0]],
    'fast': [[-.3, .3], [2.5, -2.5]],
    'abs2': [[-.8, .8], [0., 0.]],
    'dense': [[-1., .7, .3], [.2, -.5, .3], [1., 1.5, -2.5]],
    'cycle': [[-1., 1., 0.], [0., -2., 2.], [.5, 0., -.5]],
    'chain': [[-.6, .6, 0.], [.9, -1.6, .7], [0., 1.1, -1.1]],
    'abs3': [[-1., .4, .6], [0., -1.5, 1.5], [0., 0., 0.]],
    'four': [[-1.5, .2, .5, .8], [.1, -.4, .1, .2], [.9, .3, -1.8, .6], [.25, .5, .75, -1.5]],
}


def gen(name):
    return np.array(GENS[name], float)


def stat(Q):
    """stationary law: solve pi Q = 0, sum 1 by least squares"""
    d = len(Q)
    A = np.vstack([Q.T, np.ones(d)])
    return np.linalg.lstsq(A, np.r_[np.zeros(d), 1.0], rcond=None)[0]


def trans(Q, t):
    """transition matrix by uniformisation with scaling and squaring (independent of scipy's expm)"""
    lam = max(-np.min(np.diag(Q)) * t, 1e-300)
    n = max(0, int(math.ceil(math.log2(max(lam, 1e-9)))) + 3)
    h = t / 2 ** n
    P, term = np.eye(len(Q)), np.eye(len(Q))
    for k in range(1, 30):
        term = term @ Q * (h / k)
        P = P + term
    for _ in range(n):
        P = P @ P
    return P


def seq_prob(Q, seq, T):
    """probability that the chain started in seq[0] visits exactly this sequence in [0, T]"""
    n = len(seq)
    A = np.zeros((n, n))
    for i, s in enumerate(seq):
        A[i, i] = Q[s, s]
        if i + 1 < n:
            A[i, i + 1] = Q[s, seq[i + 1]]
    return float(expm(A * T)[0, -1])


_gl = np.polynomial.legendre.leggauss(24)


def seq_moment(Q, seq, T, f):
    """E[f(jump times); sequence] for at most two jumps"""
    x, w = (_gl[0] + 1) / 2, _gl[1] / 2
    if len(seq) == 1:
        return math.exp(Q[seq[0], seq[0]] * T) * f(())
    r = 1.0
    for a, b in zip(seq, seq[1:]):
        r *= Q[a, b]
    q = [Q[s, s] for s in seq]
    tot = 0.0
    if len(seq) == 2:
        for xi, wi in zip(x, w):
            t = xi * T
            tot += wi * T * math.exp(q[0] * t + q[1] * (T - t)) * f((t,))
    elif len(seq) == 3:
        for xi, wi in zip(x, w):
            t2 = xi * T
            for xj, wj in zip(x, w):
                t1 = xj * t2
                tot += wi * wj * T * t2 * math.exp(q[0] * t1 + q[1] * (t2 - t1) + q[2] * (T - t2)) * f((t1, t2))
    else:
        raise ValueError
    return r * tot


def inf(x, sign=1):
    return sign * math.inf if x is None else x
