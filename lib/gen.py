"""Inputs.  Nothing here knows what a right answer is."""
import random
from math import gcd

from verif import MAX, SIGNED, SEED


def rng(*tag):
    return random.Random(repr((SEED,) + tag))


def lo(rep):
    return -MAX[rep] if rep in SIGNED else 0


def grid(rep, k):
    """All components up to k."""
    return range(-k if rep in SIGNED else 0, k + 1)


def grid_pairs(rep, k):
    g = grid(rep, k)
    return [(a, b) for a in g for b in g]


def logint(r, m, signed=True, zero=0.03):
    """An integer of random size up to m in magnitude."""
    if r.random() < zero:
        return 0
    x = r.getrandbits(r.randint(1, m.bit_length()))
    if r.random() < 0.1:
        x = (1 << r.randint(0, m.bit_length())) + r.randint(-1, 1)
    x = max(1, min(x, m))
    return -x if signed and r.random() < 0.5 else x


def euclid(r, m):
    """Positive integers up to m for whose greatest common divisor Euclid's
    algorithm takes as many steps as it can, or quotients of given sizes."""
    q = r.choice([1, 1, 1, 2, 9])
    g = r.choice([1, 1, 1, 2, 3, r.randint(1, 1000)])
    a, b = (1, 1) if r.random() < 0.7 else (r.randint(1, 9), r.randint(1, 9))
    m = max(m // r.choice([g, g, g * 2, g * r.randint(1, 1 << 16)]), 9)
    while True:
        k = 1 if q == 1 and r.random() < 0.99 else r.randint(1, q)
        if k * a + b > m:
            break
        a, b = k * a + b, a
    return (a * g, b * g) if r.random() < 0.5 else (b * g, a * g)


def frac(r, rep, m=None, undefined=0.0):
    m = m or MAX[rep]
    s = rep in SIGNED
    if m > 1000 and r.random() < 0.05:
        n, d = euclid(r, m)
        return sgn(r, rep, n), sgn(r, rep, d)
    if r.random() < undefined:
        return logint(r, m, s, 0.3), 0
    d = logint(r, m, s, 0)
    return logint(r, m, s), d


def sgn(r, rep, x):
    return -x if rep in SIGNED and r.random() < 0.5 else x


def shared_factor_pair(r, rep):
    """Denominators that share a large factor: their product overflows, their
    least common multiple does not; numerators as large as that allows."""
    m = MAX[rep]
    p = r.randint(1, r.choice([3, 30, 1000]))
    q = r.randint(1, r.choice([3, 30, 1000]))
    g = m // (p * q)
    if r.random() < 0.5:
        g = max(1, g - r.randint(0, max(0, min(g - 1, 1 << r.randint(1, 40)))))
    k = g * p * q // gcd(p, q) if g else 1
    d1, d2 = g * p, g * q
    top1, top2 = m // max(1, (k // d1)), m // max(1, (k // d2))
    if r.random() < 0.6:
        top1, top2 = top1 // 2, top2 // 2
    n1 = r.choice([top1, r.randint(0, top1), max(0, top1 - r.randint(0, 5))])
    n2 = r.choice([top2, r.randint(0, top2), max(0, top2 - r.randint(0, 5))])
    return (sgn(r, rep, n1), sgn(r, rep, d1)), (sgn(r, rep, n2), sgn(r, rep, d2))


def blown_up(r, rep, n, d):
    """An unreduced form of n/d with components as large as possible."""
    m = MAX[rep]
    top = m // max(abs(n), abs(d), 1)
    k = r.choice([top, r.randint(1, top), max(1, top - r.randint(0, 3))])
    if rep in SIGNED and r.random() < 0.5:
        k = -k
    return n * k, d * k


def unreduced_pair(r, rep):
    """Lowest terms small or medium, components near the limits."""
    m = MAX[rep]
    size = r.choice([10, 1000, int(m ** 0.25), int(m ** 0.5)])
    out = []
    for _ in range(2):
        n = sgn(r, rep, r.randint(0, size))
        d = r.randint(1, size)
        out.append(blown_up(r, rep, n, d) if r.random() < 0.8 else (n, d))
    return tuple(out)


def medium_pair(r, rep):
    m = int(MAX[rep] ** 0.5)
    m = r.choice([m, m // 2, int(m ** 0.5), 100])
    return frac(r, rep, m), frac(r, rep, m)


def edge_ints(rep):
    m = MAX[rep]
    xs = {0, 1, 2, 3, m, m - 1, m // 2, m // 2 + 1, m // 3, int(m ** 0.5),
          int(m ** 0.5) + 1, (m + 1) // 4}
    if rep in SIGNED:
        xs |= {-x for x in xs}
    return sorted(xs)


def related_pair(r, rep):
    """Components, small or large, that coincide in some way."""
    m, s = MAX[rep], rep in SIGNED
    size = r.choice([9, 100, int(m ** 0.25), int(m ** 0.5) // 2, int(m ** 0.5), m // 4, m // 2])
    n1, d1 = r.randint(0, size), r.randint(1, size)
    k = r.randint(2, r.choice([3, 9, 50]))
    if r.random() < 0.1:
        x, y = euclid(r, max(size, 1000))
        one, two = r.choice([1, 1, 2, k]), r.choice([1, 1, 2, k])
        (n1, d1), (n2, d2) = r.choice([
            ((x, y), (one, two)), ((x, one), (two, y)), ((one, x), (two, y)),
            ((x, one), (y, two)), ((one, x), (y, two)), ((x, y), (y, x)), ((x, y), (x, y))])
        a, b = [(sgn(r, rep, min(m, n)), sgn(r, rep, min(m, d))) for n, d in ((n1, d1), (n2, d2))]
        return (a, b) if r.random() < 0.5 else (b, a)
    if r.random() < 0.5:
        k = -(-k // 2) * 2 if r.random() < 0.5 else k
        g = max(1, size // (k * k))
        d1 = g * r.randint(1, k)
        d2 = r.choice([g * r.randint(1, k), d1, g, d1 * k])
    else:
        d2 = r.choice([d1, d1, n1 or 1, d1 * k, max(1, d1 // k), r.randint(1, size), 1])
    n2 = r.choice([n1, n1, d1, d2, 0, 1, n1 * k, n1 // k, d2 * (size // d2), d2 * k, r.randint(0, size),
                   n1 * d2 // d1, abs(d2 - n1)])
    if r.random() < 0.2:
        n1 = r.choice([0, 1, d1, d2, d1 * (size // d1), d1 * k])
    if r.random() < 0.1:
        n2, d2 = n1, d1
    if r.random() < 0.2:          # less than their lowest terms
        k = r.choice([k, max(1, size // max(n1, d1))])
        n1, d1 = n1 * k, d1 * k
    a, b = [(sgn(r, rep, min(m, n)), sgn(r, rep, min(m, d))) for n, d in ((n1, d1), (n2, d2))]
    return (a, b) if r.random() < 0.5 else (b, a)


def any_pair(r, rep):
    return r.choice([shared_factor_pair, unreduced_pair, medium_pair, related_pair, related_pair,
                     lambda r, p: (frac(r, p), frac(r, p))])(r, rep)


def near_pair(r, rep):
    """Two fractions whose values are close or equal."""
    m = int(MAX[rep] ** 0.5)
    n, d = logint(r, m, rep in SIGNED), logint(r, m, False, 0)
    if r.random() < 0.5:
        a = (n, d)
        k = r.randint(1, max(1, m // max(abs(n), d)))
        if rep in SIGNED and r.random() < 0.5:
            k = -k
        b = (n * k, d * k)
    else:
        a = (n, d)
        b = (n + (1 if rep not in SIGNED else r.choice([-1, 1])), d)
        if r.random() < 0.5:
            b = (n, max(1, d - 1))
    if rep in SIGNED and r.random() < 0.4:
        a = (-a[0], -a[1])
    return (a, b) if r.random() < 0.5 else (b, a)


def neighbour(r, x, top, s):
    """A value a careless comparison takes for x: a bit flipped in one
    component or in both, components exchanged, a sign, another multiple."""
    n, d = x
    bit = 1 << r.randint(0, top.bit_length() - 1)
    other = 1 << r.randint(0, top.bit_length() - 1)
    y = r.choice([(abs(n) ^ bit, d), (n, abs(d) ^ bit), (abs(n) ^ bit, abs(d) ^ bit),
                  (abs(n) ^ bit, abs(d) ^ bit), (abs(n) ^ bit, abs(d) ^ other), (d, n),
                  (-n, d), (n + d, d), (n, n + d), (n + bit, d - bit), (n * 2, d * 2), (n * 3, d * 3)])
    if not s:
        y = (abs(y[0]), abs(y[1]))
    return y if max(abs(y[0]), abs(y[1])) <= top else x


def neighbours(r, a, b, top, s):
    """A pair a careless comparison takes for (a, b)."""
    how = r.random()
    if how < 0.3:
        return (neighbour(r, a, top, s), b) if r.random() < 0.5 else (a, neighbour(r, b, top, s))
    if how < 0.4:
        return b, a
    if how < 0.5:
        return (a[0], b[1]), (b[0], a[1])
    if how < 0.6:
        return (b[0], a[1]), (a[0], b[1])
    i, j, k = r.randint(0, 1), r.randint(0, 1), 1 << r.randint(0, top.bit_length() - 1)
    k = r.choice([k, 1, 2, 3, 6])
    x, y = list(a), list(b)
    if how < 0.8:                  # the sum stays
        x[i] += k
        y[j] -= k
    else:                          # what differs stays
        x[i] ^= k
        y[j] ^= k
    ok = all(abs(v) <= top and (s or v >= 0) for v in x + y)
    return (tuple(x), tuple(y)) if ok else (a, b)
