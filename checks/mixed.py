"""C12: mixed numbers (C03: of undefined parts; C13: their hashes)."""
from gen import *
from verif import REPS, MAX, SIGNED
from checks.mix import lines

POLS = {'safe_io': 'safe_reduced_io', 'safe': 'safe', 'fast': 'fast',
        'fast_o': 'fast_reduced_o', 'safe_i': 'safe_reduced_i'}
ALL = dict(POLS, fast_i='fast_reduced_i', safe_o='safe_reduced_o', fast_io='fast_reduced_io')


def part(r, rep, size, zero=0.1):
    return logint(r, min(MAX[rep], size), rep in SIGNED, zero)


def sizes(r, *reps):
    m = min(MAX[x] for x in reps)
    return r.choice([4, 12, 1000, int(m ** 0.25), int(m ** 0.5), m])


def parts(r, W, F, undefined=0.0):
    """Whole and fractional parts of a mixed number."""
    w = part(r, W, sizes(r, W), 0.2)
    if r.random() < undefined:
        return w, part(r, F, MAX[F], 0.3), 0
    s = sizes(r, F)
    d = part(r, F, s, 0)
    how = r.random()
    if how < 0.4:
        n = part(r, F, abs(d))                   # proper
    elif how < 0.5:
        n = d * r.choice([-1, 1]) if F in SIGNED else d
    elif how < 0.6:                              # a multiple, or next to one
        n = min(MAX[F], abs(d) * r.randint(0, 3) + r.randint(0, 1))
        n = sgn(r, F, n)
    else:
        n = part(r, F, s)
    if r.random() < 0.15 and abs(d) <= 1000 and abs(n) <= 1000:
        n, d = blown_up(r, F, n, d)
    return w, n, d


def small_parts(W, F, k):
    gw, gf = grid(W, k), grid(F, k + 1)
    return [(w, n, d) for w in gw for n in gf for d in gf]


def equal_parts(r, W, F):
    """Two mixed numbers of equal value, with different parts."""
    w, n, d = parts(r, W, F)
    n, d = part(r, F, 1000), part(r, F, 1000, 0)
    w = part(r, W, 10**6)
    k = r.randint(-5, 5)
    j = r.choice([1, 2, 3, -1, -2]) if F in SIGNED else r.choice([1, 2, 3])
    if r.random() < 0.3:
        k = 0
    x = (w + k, (n - k * d) * j, d * j)
    if (W not in SIGNED and x[0] < 0) or (F not in SIGNED and min(x[1:]) < 0):
        x = (w, n * abs(j), d * abs(j))
    if r.random() < 0.15:
        x = parts(r, W, F)
    return (w, n, d, *x)


def related(r, W, F, m, W2, F2):
    """A second mixed number in W2 and F2 that is the first one, its opposite,
    its complement to a whole number or a near miss of one of these, or that
    has a denominator in common with it."""
    w, n, d = m
    how = r.random()
    if how < 0.2:
        x = (w, n, d)
    elif how < 0.4:
        x = (-w, -n, d)
    elif how < 0.6:                              # fractional parts sum to a whole
        x = (r.choice([w, -w, 0, 1, -1, part(r, W2, sizes(r, W2))]),
             r.choice([d - n, -d - n, -n]), d)
    else:
        x = (r.choice([w, -w, part(r, W2, sizes(r, W2))]),
             part(r, F2, min(MAX[F2], abs(d) or 1)), d)
    if r.random() < 0.3:                         # next to it
        x = (x[0] + r.choice([-1, 0, 1]), x[1] + r.choice([-1, 1, 0]), x[2])
    if F2 in SIGNED and r.random() < 0.15:
        x = (x[0], -x[1], -x[2])
    elif r.random() < 0.15:                      # the same in other terms
        k = r.randint(2, 6)
        x = (x[0], x[1] * k, x[2] * k)

    def held(rep, v):
        v = v if rep in SIGNED else abs(v)
        return v if abs(v) <= MAX[rep] else v % (MAX[rep] + 1)
    return held(W2, x[0]), held(F2, x[1]), held(F2, x[2]) or (d and 1)


def batches_for(c, prop):
    out = []
    und = 1.0 if prop == 'C03' else 0.0
    t = 8 if c.thorough else 1
    pols = POLS if c.thorough else {p: POLS[p] for p in ('safe_io', 'safe', 'fast')}

    def add(fn, key, meta, na, rows):
        out.append((key, dict(meta, fn=fn, key=key, na=na), lines(rows)))

    def defined(rows):
        return [x for x in rows if (x[2] == 0) == (und == 1.0)]

    for W in REPS:
        for F in REPS:
            same = W == F
            for pol in (ALL if same else pols):
                r = rng(prop, 'mixed', W, F, pol)
                n = (60 if pol in ('safe_io', 'safe', 'fast') else 40) * t
                if prop == 'C03':
                    n = n // 3
                meta = dict(W=W, F=F, pol=pol)
                if prop == 'C13':
                    add('mhash', f'mhash|{W}|{F}|{pol}', meta, 6,
                        [equal_parts(r, W, F) for _ in range(n * 2)])
                    continue
                p = lambda u=und: parts(r, W, F, u)
                grid_rows = defined(small_parts(W, F, 2))
                if not same and not c.thorough:
                    grid_rows = r.sample(grid_rows, min(len(grid_rows), 60))
                rows = grid_rows + [p() for _ in range(n * 2)]
                e = edge_ints(F)
                if prop != 'C03':
                    rows += [(part(r, W, 3), r.choice(e), r.choice(e)) for _ in range(n // 2)]
                    rows = [x for x in rows if x[2]]
                add('build', f'build|{W}|{F}|{pol}', meta, 3, rows)
                if und == 0:
                    add('whole', f'whole|{W}|{F}|{pol}', meta, 1, [(x,) for x in edge_ints(W)])
                add('sign', f'sign|{W}|{F}|{pol}', meta, 3,
                    [p() for _ in range(n)] + r.sample(grid_rows, min(len(grid_rows), n)))
                def chain():
                    if r.random() < 0.3:         # three and three related ones
                        a = [p(und / 4) for _ in range(3)]
                        return sum((x + related(r, W, F, x, W, F) for x in a), ())
                    return sum((p(und / 4) if und or i % 2 else
                                (part(r, W, 20), part(r, F, 12), part(r, F, 12, 0))
                                for i in range(6)), ())
                add('sum', f'sum|{W}|{F}|{pol}', dict(meta, count=6), 18,
                    [chain() for _ in range(n // 3)])
                for G in ([F] if pol not in pols else REPS):
                    if not c.thorough and not same and G not in (W, F, 'int', 'ulong'):
                        continue
                    k = n * 3 // 5
                    m2 = dict(meta, F2=G)
                    rows = [parts(r, W, G, und)[1:] for _ in range(k)]
                    rows += [(x, y) for x in grid(G, 2) for y in grid(G, 2)
                             if (y == 0) == (und == 1.0)]
                    rows += [(r.choice(edge_ints(G)), 0 if und else r.choice(edge_ints(G)[-6:]))
                             for _ in range(k // 4)]
                    add('from', f'from|{W}|{F}|{G}|{pol}', m2, 2, rows)

                    def both(W2, F2):
                        how = r.random()
                        if how < 0.4:
                            return p(und / 2) + parts(r, W2, F2, und / 2)
                        if how < 0.75:
                            a = p(und / 2)
                            return a + related(r, W, F, a, W2, F2)
                        return (part(r, W, 30), part(r, F, 12),
                                0 if und and r.random() < 0.5 else part(r, F, 12, 0),
                                part(r, W2, 30), part(r, F2, 12), part(r, F2, 12, 0))

                    def to_int(W2):
                        a = p()
                        return a + (r.choice([-a[0], a[0], 1 - a[0], -1 - a[0]])
                                    if r.random() < 0.3 and W2 in SIGNED and abs(a[0]) < MAX[W2]
                                    else part(r, W2, sizes(r, W2)),)
                    add('addfrac', f'addfrac|{W}|{F}|{G}|{pol}', m2, 5,
                        [(lambda x: x[:3] + x[4:])(both(G, G)) for _ in range(k)])
                    add('addint', f'addint|{W}|{F}|{G}|{pol}', dict(meta, W2=G), 4,
                        [to_int(G) for _ in range(k)])
                    for name, W2, F2 in (('add', G, F), ('add2', W, G), ('add3', G, G)):
                        add('add', f'{name}|{W}|{F}|{G}|{pol}', dict(meta, W2=W2, F2=F2), 6,
                            [both(W2, F2) for _ in range(k)])
    return out


def build(c):
    pols = POLS if c.thorough else {p: POLS[p] for p in ('safe_io', 'safe', 'fast')}
    units = [('mixed.cpp', [f'-DREP={t}', f'-DPOL={p}']) for t in REPS.values()
             for p in pols.values()]
    units += [('mixed.cpp', [f'-DREP={t}', f'-DPOL={p}', '-DMIXED_ONE'])
              for t in REPS.values() for n, p in ALL.items() if n not in pols]
    return c.build('mixed', units)


def run(c):
    exe = build(c)
    c.model('MC_Mixed', 'MC_Mixed_deep.cfg' if c.thorough else None)
    c.trace('TraceMixed', exe, batches_for(c, c.prop))
    c.assumptions += [
        'whole and fractional parts of the six representations in all combinations',
        'calls for which the integers of Mixed.tla (Build, FromFrac, AddMixed) do not '
        'fit the representation are outside the contract']
