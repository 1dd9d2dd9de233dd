"""Exact escape and crossing probabilities of Brownian and Bessel bridges (independent of the code's alternating series)."""
import math


def phi(x, T):
    return math.exp(-x * x / (2 * T)) / math.sqrt(2 * math.pi * T)


def stay(T, a, b, lo, hi):
    """P(Brownian bridge from a to b over T stays inside (lo, hi))"""
    if not (lo < a < hi and lo < b < hi):
        return 0.0
    if math.isinf(lo) and math.isinf(hi):
        return 1.0
    if math.isinf(lo):
        return -math.expm1(-2 * (hi - a) * (hi - b) / T)
    if math.isinf(hi):
        return -math.expm1(-2 * (a - lo) * (b - lo) / T)
    w = hi - lo
    if T / w ** 2 > .15:  # eigenfunctions
        s = 0.0
        for n in range(1, 400):
            e = -n * n * math.pi ** 2 * T / (2 * w * w) + (b - a) ** 2 / (2 * T)
            if e < -800:
                break
            s += math.sin(n * math.pi * (a - lo) / w) * math.sin(n * math.pi * (b - lo) / w) * math.exp(e)
            if n > 3 and e < -60:
                break
        return s * 2 / w * math.sqrt(2 * math.pi * T)
    terms = []
    for k in range(-30, 31):
        for sgn, z in ((1, b - a + 2 * k * w), (-1, 2 * lo - b - a + 2 * k * w)):
            e = ((b - a) ** 2 - z * z) / (2 * T)
            if e > -800:
                terms.append(sgn * math.exp(e))
    return math.fsum(terms)


def bes_stay(T, x, y, K):
    """P(three-dimensional Bessel bridge from x to y over T stays below K)"""
    if K <= max(x, y):
        return 0.0
    if math.isinf(K):
        return 1.0
    if x == 0 and y == 0:
        raise ValueError
    if x > 0 and y > 0:
        return stay(T, x, y, 0.0, K) / -math.expm1(-2 * x * y / T)
    y = max(x, y)
    if T / K ** 2 > .15:
        s = 0.0
        for n in range(1, 400):
            e = -n * n * math.pi ** 2 * T / (2 * K * K) + y * y / (2 * T)
            if e < -800:
                break
            s += n * math.pi / K * math.sin(n * math.pi * y / K) * math.exp(e)
            if n > 3 and e < -60:
                break
        return s * 2 / K * math.sqrt(2 * math.pi * T) * T / (2 * y)
    terms = []
    for k in range(-30, 31):
        z = y + 2 * k * K
        e = (y * y - z * z) / (2 * T)
        if e > -800:
            terms.append(z / y * math.exp(e))
    return math.fsum(terms)


def esc(T, a, b, K, U=None):
    s = stay(T, a, b, -K, K)
    return 1 - s if U is None else (0.0 if U <= K else 1 - s / stay(T, a, b, -U, U))


def bes_esc(T, x, y, K, U=None):
    s = bes_stay(T, x, y, K)
    if U is None:
        return 1 - s
    u = bes_stay(T, x, y, U)
    return 1.0 if u == 0 else 0.0 if U <= K else 1 - s / u
