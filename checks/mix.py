"""C19, C20: operators, conversions and compound assignments between
representations."""
from gen import *
from verif import REPS, MAX, SIGNED

ARITH = ['plus', 'minus', 'times', 'divides', 'modulus']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
POLS = {'safe_io': 'safe_reduced_io', 'safe': 'safe', 'fast': 'fast',
        'fast_o': 'fast_reduced_o', 'safe_in': 'safe_in'}
NARROW = {'short': 2**15 - 1, 'ushort': 2**16 - 1, 'schar': 127}
MAXI = dict(MAX, **NARROW)
SGN = SIGNED | {'short', 'schar'}


def comp(r, rep, size, zero=0.03):
    return logint(r, min(MAXI[rep], size), rep in SGN, zero)


def pair(r, L, R, form):
    """A left and a right operand."""
    m = max(MAXI[L], MAXI[R])
    size = r.choice([9, 1000, int(m ** 0.25), int(m ** 0.5), int(m ** 0.5), m])
    a = [comp(r, L, size), comp(r, L, size, 0.02)]
    b = [comp(r, R, size), comp(r, R, size, 0.02)]
    how = r.random()
    if how < 0.3:                        # equal or nearly equal values
        k = r.randint(1, max(1, min(MAXI[R], 1000)))
        g = min(MAXI[L], MAXI[R]) // k
        a = [comp(r, L, max(1, g)), comp(r, L, max(1, g), 0)]
        s = -1 if R in SGN and r.random() < 0.4 else 1
        b = [a[0] * k * s, a[1] * k * s]
        if r.random() < 0.4:
            b[0] += r.choice([-1, 1])
        if R not in SGN:
            b = [abs(x) for x in b]
        b = [max(-MAXI[R], min(MAXI[R], x)) for x in b]
    if form == 'RF':
        a[1] = 1
    if form == 'FR':
        b[1] = 1
    return (*a, *b)


def grid_of(rep, k):
    return range(-k if rep in SGN else 0, k + 1)


def rows_for(r, L, R, form, n, k):
    ga, gb = grid_of(L, k), grid_of(R, k)
    rows = [(a, 1 if form == 'RF' else b, x, 1 if form == 'FR' else y)
            for a in ga for b in (ga if form != 'RF' else [1])
            for x in gb for y in (gb if form != 'FR' else [1])]
    if len(rows) > n:
        rows = r.sample(rows, n)
    rows += [pair(r, L, R, form) for _ in range(n)]
    e, f = sorted({0, 1, MAXI[L], MAXI[L] // 2, -MAXI[L] if L in SGN else 2}), \
        sorted({0, 1, MAXI[R], MAXI[R] // 2, -MAXI[R] if R in SGN else 2})
    for _ in range(n // 5):
        a = r.choice(e), 1 if form == 'RF' else r.choice(e)
        b = r.choice(f), 1 if form == 'FR' else r.choice(f)
        rows.append((*a, *b))
    return rows


def lines(rows):
    return [' '.join(map(str, x)) for x in rows]


def batches_for(c, ops, und, pols, fns=ARITH + CMP, conv=True, rate=1):
    """ops: operators and conversions, otherwise compound assignments."""
    def keep(rows):
        """C03 is about undefined operands and division by zero."""
        return [x for x in rows if not x[1] or not x[3] or not x[2]] if und else rows
    batches = []
    for L in REPS:
        for pol in pols:
            for R in list(REPS) + list(NARROW):
                r = rng('mix', L, R, pol)
                main = pol == 'safe_io'
                n = (400 if c.thorough else 60) if main else (200 if c.thorough else 24)
                n = int(n * rate)
                for op in fns:
                    if not ops and op in CMP:
                        continue
                    for form in ('FF', 'FR', 'RF') if ops else ('FF', 'FR'):
                        if form == 'FF' and R in NARROW:
                            continue
                        if und and R in NARROW:
                            continue
                        l, q = (R, L) if form == 'RF' else (L, R)
                        fn = ('arith' if op in ARITH else 'cmp') if ops else 'compound'
                        key = f'{op}{"" if ops else "a"}|{form}|{L}|{R}|{pol}'
                        batches.append((key, dict(fn=fn, op=op, form=form, L=l, R=q,
                                                  pol=pol, key=key, na=4),
                                        lines(keep(rows_for(r, l, q, form, n, 2)))))
                if ops and conv and R in REPS:
                    key = f'conv|{L}|{R}|{pol}'
                    small = min(MAX[L], MAX[R])
                    rows = [(a, b) for a in grid(L, 3) for b in grid(L, 3)]
                    for _ in range(n * 4):
                        m = r.choice([small, MAX[L]])
                        s = L in SIGNED and (R in SIGNED or r.random() < 0.2)
                        rows.append((logint(r, m, s), logint(r, m, s, 0.1)))
                    rows += [(x, y) for x in edge_ints(L) for y in edge_ints(L)]
                    batches.append((key, dict(fn='conv', L=L, R=R, pol=pol, key=key, na=2),
                                    lines(rows)))
            r = rng('mix1', L, pol)
            if not conv:
                pass
            elif ops:
                key = f'basics|{L}|{pol}'
                rows = [(x, y) for x in edge_ints(L) for y in edge_ints(L)]
                batches.append((key, dict(fn='basics', L=L, pol=pol, key=key, na=2), lines(rows)))
                ratios = [(1, 2), (4, 6), (0, 5), (1000, 1), (1, 10**9),
                          (2147483647, 2147483646), (18, 12)]
                if L in SIGNED:
                    ratios += [(-3, 9), (5, -15), (-7, -21)]
                else:
                    ratios += [None] * 3
                if MAX[L] > 2**32:
                    ratios += [(2**63 - 1, 2), (1, 2**63 - 2)]
                for k, x in enumerate(ratios):
                    if x:
                        key = f'ratio|{k}|{L}|{pol}'
                        batches.append((key, dict(fn='ratio', L=L, pol=pol, key=key, na=2),
                                        lines([x])))
            if not ops:
                for op in [x for x in fns if x in ARITH]:
                    for form in ('self', 'num', 'den'):
                        key = f'{op}a|{form}|{L}|{pol}'
                        rows = [(a, b) for a in grid(L, 4) for b in grid(L, 4)]
                        for _ in range(n * 3):
                            size = r.choice([100, int(MAX[L] ** 0.5), MAX[L]])
                            rows.append((comp(r, L, size), comp(r, L, size, 0.1)))
                        if und:
                            rows = [x for x in rows if not x[0] or not x[1]]
                        batches.append((key, dict(fn='compound', op=op, form=form, L=L, R=L,
                                                  pol=pol, key=key, na=2), lines(rows)))
    return batches


# What a property says of operands of different representations: operators,
# whether as compound assignments too.
SHARE = {'C01': (ARITH[:4], False), 'C02': (['modulus'], True), 'C03': (ARITH, True),
         'C04': (CMP, False), 'C05': (ARITH, True), 'C06': (ARITH + CMP, True)}


def share(c):
    """The part of C01 - C06 between representations."""
    fns, compound = SHARE[c.prop]
    pols = {p: POLS[p] for p in ('safe_io', 'fast')}
    part = {'C01': '-DMIX_ARITH', 'C02': '-DMIX_ARITH', 'C03': '-DMIX_ARITH',
            'C04': '-DMIX_CMP', 'C05': '-DMIX_ARITH'}.get(c.prop, '-DMIX_OPS')
    exe = c.build('mix', [('mix.cpp', [f'-DREP={t}', f'-DPOL={p}', x])
                          for x in [part] + ['-DMIX_COMPOUND'] * compound
                          for t in REPS.values() for p in pols.values()])
    und, rate = c.prop == 'C03', 6 if len(fns) == 1 else 1 if c.prop == 'C03' else 2
    batches = batches_for(c, True, und, pols, fns, False, rate)
    if compound:
        batches += batches_for(c, False, und, pols, fns, False, rate)
    c.trace('TraceMix', exe, batches)


def run(c):
    ops = c.prop == 'C19'
    pols = POLS if c.thorough else {p: POLS[p] for p in ('safe_io', 'safe', 'fast')}
    units = [('mix.cpp', [f'-DREP={t}', f'-DPOL={p}'] + (
        ['-DMIX_OPS', '-DMIX_CONV'] if ops else ['-DMIX_COMPOUND']))
        for t in REPS.values() for p in pols.values()]
    exe = c.build('mix', units)
    c.model('MC_Mix')
    c.assumptions += [
        'representations int, unsigned, long, unsigned long, long long, unsigned long '
        'long, and as integer operands also short, unsigned short and signed char',
        'a component that a conversion cannot represent is converted modulo 2^width']
    c.trace('TraceMix', exe, batches_for(c, ops, False, pols))
