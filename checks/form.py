"""C07 - C11, C13, C15, C16: functions of one fraction."""
import struct
from gen import *
from verif import POLICIES, REPS, MAX, SIGNED

MAIN = ('safe_io', 'safe', 'fast')


def components(r, rep, n, k, undefined=0.03):
    """Fractions: every small one, random ones of all sizes, edges."""
    m, s = MAX[rep], rep in SIGNED
    e = edge_ints(rep)
    rows = grid_pairs(rep, k)
    for _ in range(n):
        p = r.random()
        if p < undefined:
            rows.append((logint(r, m, s, 0.3), 0))
        elif p < 0.35:
            rows.append((r.choice(e), r.choice(e)))
        elif p < 0.6:
            rows.append(blown_up(r, rep, sgn(r, rep, r.randint(0, 1000)), r.randint(1, 1000)))
        elif p < 0.7:          # multiples, and near multiples, of the denominator
            d = logint(r, m, s, 0)
            q = r.randint(0, m // abs(d))
            x = q * abs(d) + r.choice([0, 0, 1, -1, abs(d) // 2, -(-abs(d) // 2)])
            rows.append((sgn(r, rep, min(max(x, 0), m)), d))
        else:
            rows.append(frac(r, rep))
    return rows


def near_half(r, rep, n):
    """Values at, just below and just above halves, with large components."""
    m = MAX[rep]
    out = []
    for _ in range(n):
        d = r.choice([r.randint(1, m), m, m - 1, m // 2, m // 2 + 1, r.randint(2, 50),
                      m - r.randint(0, 1000), abs(logint(r, m, False, 0))])
        q = r.randint(0, max(0, m // d - 1)) if r.random() < 0.7 else 0
        x = q * d + d // 2 + r.choice([-1, 0, 0, 1, 1 + d % 2])
        if 0 <= x <= m:
            out.append((sgn(r, rep, x), sgn(r, rep, d)))
    return out


def redenom_rows(r, rep, n, k):
    m, s = MAX[rep], rep in SIGNED
    rows = [(a, b, d) for a in grid(rep, k) for b in grid(rep, k) for d in grid(rep, k)]
    for _ in range(n):
        how = r.random()
        bits = m.bit_length()
        j = r.randint(1, bits - 1)
        d = logint(r, (1 << j) - 1, s, 0)
        x = logint(r, m >> j, s)
        den = logint(r, m if how < 0.7 else m >> (j // 2), s, 0)
        if how < 0.2:               # nearly a multiple of 1/d, or a tie
            den = sgn(r, rep, max(1, min(m, 2 * abs(d))))
            x = logint(r, max(1, m // max(1, abs(d))), s)
        elif how < 0.4:
            g = r.randint(1, max(1, m >> j))
            x, den = x // g * g or g, den // g * g or g
        elif how < 0.5:
            x, den = blown_up(r, rep, logint(r, 100, s), r.randint(1, 100))
            d = r.choice([d, sgn(r, rep, r.randint(1, 100))])
        elif how < 0.62:            # components that coincide
            size = r.choice([9, 300, int(m ** 0.5) // 2, int(m ** 0.5)])
            a, k = r.randint(1, size), r.randint(1, r.choice([3, 10, 100]))
            d = r.choice([a, a, a * k, max(1, a // k)])
            x = r.choice([a, d, a * k, r.randint(0, size), d * k, 0, a // 2])
            den = r.choice([a, a, a * k, max(1, a // k), d, 1])
            x, den, d = sgn(r, rep, x), sgn(r, rep, den), sgn(r, rep, d)
        if abs(x) <= m and abs(den) <= m:
            rows.append((x, den, d))
    return rows


def pow_rows(rep, far=(20000, -20000, 20001)):
    m, s = MAX[rep], rep in SIGNED
    rows = []
    for b in list(range(-20 if s else 0, 21)):
        for e in range(-66, 67):
            if abs(b) <= 1 or abs(b) ** abs(e) <= m * abs(b):
                rows.append((b, e))
    for e in list(range(-8, 9)):
        k = max(1, abs(e))
        root = int(round(m ** (1 / k)))
        for b in range(max(0, root - 3), root + 3):
            if 0 <= b <= m:
                rows += [(b, e)] + ([(-b, e)] if s else [])
    for b in (-1, 0, 1):
        if b >= 0 or s:
            # few enough for a plain loop, also in a constant expression
            rows += [(b, e) for e in (200, 201, -200, -201) + far]
    return rows


def spread_rows(r, rep, n):
    rows = []
    for how in range(n):
        xs = set()
        while len(xs) < 60:
            if how % 4 == 0:
                xs.add((r.randint(0, 30), r.randint(1, 30)))
            elif how % 4 == 1:
                xs.add((len(xs) + how, 1))                # integers
            elif how % 4 == 2:
                xs.add((1, len(xs) + 1 + how))            # unit fractions
            else:
                xs.add(frac(r, rep))
        rows.append(' '.join('%d %d' % x for x in sorted(xs)))
    return rows


def equal_pairs(r, rep, n):
    m = MAX[rep]
    out = []
    for _ in range(n):
        size = r.choice([10, 1000, int(m ** 0.5), m])
        a = sgn(r, rep, r.randint(0, size)), sgn(r, rep, r.randint(1, size))
        if r.random() < 0.85:
            out.append((*blown_up(r, rep, *a), *blown_up(r, rep, *a)))
            if r.random() < 0.3:
                out[-1] = (*a, *out[-1][2:])
        else:
            out.append((*a, *frac(r, rep, size)))
    return out


def to_float_rows(r, rep, n):
    m = MAX[rep]
    rows = []
    for _ in range(n):
        how = r.random()
        if how < 0.35:
            p = r.choice([24, 53, 63])
            a = sgn(r, rep, logint(r, min(m, 2**p), False)), logint(r, min(m, 2**p), False, 0)
        elif how < 0.5:           # powers of two around, exact halves of ulps
            p = min(r.choice([24, 25, 53, 54]), m.bit_length() - 1)
            a = sgn(r, rep, min(m, 2**p + r.randint(-3, 3))), min(m, 1 << r.randint(0, m.bit_length() - 1))
        elif how < 0.53:
            a = logint(r, m, rep in SIGNED, 0.3), 0
        else:
            a = frac(r, rep)
        b = blown_up(r, rep, *a) if a[1] and r.random() < 0.7 else frac(r, rep, 10**6)
        if r.random() < 0.3 and a[1]:
            a = blown_up(r, rep, *a)
        rows.append((*a, *b))
    return rows


def float_bits(r, n, wide):
    p, w = (53, 11) if wide else (24, 8)
    bias = (1 << (w - 1)) - 1
    out = []
    for s in (0, 1):
        for e in (0, 1, bias, bias - 1, bias + 1, (1 << w) - 2, (1 << w) - 1):
            for man in (0, 1, (1 << (p - 1)) - 1, 1 << (p - 2)):
                out.append((s << (p + w - 1)) | (e << (p - 1)) | man)
        for k in range(-70, 71):                          # every power of two nearby
            if 0 < bias + k < (1 << w) - 1:
                out.append((s << (p + w - 1)) | ((bias + k) << (p - 1)))
    for _ in range(n):
        how = r.random()
        if how < 0.05:
            out.append(r.getrandbits(p + w))
            continue
        if how < 0.35:
            v = r.randint(-10**4, 10**4) / (1 << r.randint(0, 20))
        elif how < 0.6:
            v = r.choice([-1, 1]) * r.getrandbits(r.randint(1, 64)) * 2.0 ** r.randint(-40, 10)
        elif how < 0.7:
            v = r.choice([-1, 1]) * float(r.getrandbits(r.randint(1, 63)))
        elif how < 0.9:            # few significant bits at any scale
            v = r.choice([-1, 1]) * r.randint(1, 63) * 2.0 ** r.randint(-70, 60)
        else:
            v = r.uniform(-10, 10)
        if wide:
            out.append(struct.unpack('<Q', struct.pack('<d', v))[0])
        else:
            out.append(struct.unpack('<I', struct.pack('<f', v))[0])
    return out


def undefined_fracs(r, rep, n):
    m, s = MAX[rep], rep in SIGNED
    return [(i, 0) for i in grid(rep, 6)] + [(logint(r, m, s), 0) for _ in range(n)]


def batches_for(c, prop):
    out = []
    t = 10 if c.thorough else 1

    def add(fn, rep, pol, na, rows, **extra):
        key = f'{fn}|{rep}|{pol}'
        out.append((key, dict(dict(fn='ident' if fn == 'ident2' else fn, rep=rep, pol=pol, key=key,
                                   na=na), **extra),
                    [x if isinstance(x, str) else ' '.join(map(str, x)) for x in rows]))

    for rep in REPS:
        for pol in POLICIES + ['raw']:
            r = rng(prop, rep, pol, 'form')
            f = t * (3 if pol in MAIN + ('raw',) else 1)
            k = 6 if rep == 'int' else 4
            if prop == 'C07':
                add('forms', rep, pol, 2, components(r, rep, 300 * f, k * (2 if t > 1 else 1)))
            if prop == 'C08':
                add('queries', rep, pol, 2, components(r, rep, 300 * f, k * (2 if t > 1 else 1), 0.1))
                rows = []
                for a in components(r, rep, 120 * f, 2):
                    how = r.random()
                    b = (a if how < 0.4 else (a[0], r.choice([a[1], abs(a[1]) // 2])) if how < 0.6
                         else (abs(a[0]) // 2, a[1]) if how < 0.7 else a[::-1] if how < 0.8
                         else (sgn(r, rep, abs(a[0])), sgn(r, rep, abs(a[1]))))
                    rows.append((*a, *b))
                add('ident', rep, pol, 4, rows)
                if pol != 'raw':
                    add('ident2', rep, pol, 4, rows)
            if pol == 'raw':
                if prop == 'C03':
                    add('forms', rep, pol, 2, undefined_fracs(r, rep, 40 * t))
                continue
            if prop == 'C03':
                add('forms', rep, pol, 2, undefined_fracs(r, rep, 20 * t))
                add('abs', rep, pol, 2, undefined_fracs(r, rep, 20 * t))
                add('redenom', rep, pol, 3,
                    [(*u, d) for u in undefined_fracs(r, rep, 6 * t)
                     for d in [x for x in edge_ints(rep) if x] + list(grid(rep, 3))])
            if prop == 'C07':
                add('abs', rep, pol, 2, components(r, rep, 200 * f, k, 0))
            if prop == 'C09':
                add('round', rep, pol, 2, components(r, rep, 400 * f, 2 * k, 0)
                    + near_half(r, rep, 400 * f))
            if prop == 'C10':
                add('redenom', rep, pol, 3, redenom_rows(r, rep, 300 * f, (5 if rep == 'int' else 4) +
                                                         (3 if t > 1 else 0)))
            if prop == 'C11':
                add('pow', rep, pol, 2, pow_rows(rep))
                add('pow2', rep, pol, 1, [(e,) for e in range(-66, 67)])
            if prop == 'C13':
                add('hash', rep, pol, 4, equal_pairs(r, rep, 400 * f)
                    + [(a, b, a * j, b * j) for a in grid(rep, 5) for b in grid(rep, 5) if b
                       for j in ((-1, 2, 3) if rep in SIGNED else (2, 3, 10))])
                add('spread', rep, pol, 120, spread_rows(r, rep, 8), count=60)
            if prop == 'C15':
                add('fromfloat', rep, pol, 1, [(b,) for b in float_bits(r, 250 * f, False)])
                add('fromdouble', rep, pol, 1, [(b,) for b in float_bits(r, 250 * f, True)])
            if prop == 'C16':
                add('tofloat', rep, pol, 4, to_float_rows(r, rep, 150 * f))
    return out


def run(c):
    exe = c.build('form', [('form.cpp', [f'-DREP={t}']) for t in REPS.values()])
    if c.prop != 'C03':
        c.model('MC_Form')
    c.trace('TraceForm', exe, batches_for(c, c.prop))
    c.assumptions += ['components of magnitude up to the maximum of the representation']
