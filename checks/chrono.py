"""C23: durations, time points and clocks."""
from gen import *
from verif import REPS, MAX, SIGNED

PERIODS = [(1, 1), (1, 1000), (60, 1), (7, 5), (1, 3), (1, 10**6), (3600, 1), (1, 10**9),
           (1001, 30000), (86400, 1)]
POLS = {'safe_io': 'safe_reduced_io', 'safe': 'safe', 'fast': 'fast'}
BINARY = {'plus': 'plus', 'minus': 'minus', 'modulus': 'modulus', 'divides': 'divides',
          'between': 'minus'}
MOVED = {'moved': 'plus'}
MIXED = {'mixplus': 'plus', 'mixminus': 'minus'}
SCALE = {'times': 'times', 'into_times': 'times', 'over': 'divides', 'rest': 'modulus', 'neg': 'neg'}


def batches_for(c, n, k):
    batches = []
    for rep in REPS:
        m = MAX[rep]
        signed = rep in SIGNED
        for pol in POLS:
            r = rng('chrono', rep, pol)

            def count(big=None):
                top = big or r.choice([5, 30, 1000, 10**6, m // 1000, m])
                if r.random() < 0.03:
                    return logint(r, 9, signed), 0
                return logint(r, top, signed), logint(r, r.choice([1, 5, 30, 1000]), signed, 0)

            def tick():
                return r.choice([r.randint(0, 9), logint(r, 10**5, signed), logint(r, m, signed), m, 0, 1])

            def add(f, fn, na, rows, i, j=None, **meta):
                key = f'{f}|{rep}|{pol}|{i}' + ('' if j is None else f'|{j}')
                batches.append((key, dict(meta, fn=fn, key=key, rep=rep, pol=pol, na=na, p=PERIODS[i],
                                          q=PERIODS[i if j is None else j]),
                                [' '.join(map(str, x)) for x in rows]))
            two = lambda h=2: [count(99 if h else None) + count(99 if h else None) for _ in range(k // 2)] \
                + [count() + count() for _ in range(k)]
            for i in range(n):
                for j in range(n):
                    if i == j and pol == 'safe_io':
                        add('from', 'from', 1, [(x,) for x in edge_ints(rep)]
                            + [(tick(),) for _ in range(k)], i, j)
                    add('into', 'into', 1, [(tick(),) for _ in range(k)] + [(0,), (1,), (7,)], i, j)
                    add('cast', 'cast', 2, [count() for _ in range(k)] + [count(99) for _ in range(k)], i, j)
                    # operands that are equal, or about as long, in different periods
                    near = []
                    for _ in range(k // 2):
                        a = count(50)
                        p, q = PERIODS[i], PERIODS[j]
                        b = (a[0] * p[0] * q[1], a[1] * p[1] * q[0])
                        g = gcd(*b) or 1
                        b = (b[0] // g + r.choice([0, 0, 0, 1, -1]), b[1] // g)
                        if max(map(abs, b)) <= m and (signed or min(b) >= 0):
                            near.append(a + b)
                    for f, op in BINARY.items():
                        add(f, 'binary', 4, two() + near[:4], i, j, op=op)
                    add('back', 'binary', 4, two() + near[:4], i, j, op='minus')
                    for f, op in MOVED.items():
                        add(f, 'moved', 4, two(), i, j, op=op)
                    for f, op in MIXED.items():
                        add(f, 'mixed', 3, [count(99) + (tick() % 1000,) for _ in range(k // 2)]
                            + [count() + (tick(),) for _ in range(k)], i, j, op=op)
                    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                        add(op, 'compare', 4, two()[:k] + near, i, j, op=op)
                    add('clock', 'clock', 4, [sorted(tick() for _ in range(4)) for _ in range(k // 2)]
                        + [[r.randint(0, 50) for _ in range(4)] for _ in range(k // 2)], i, j)
                for f, op in SCALE.items():
                    rows = [count(r.choice([9, 999])) + (logint(r, 99, signed),) for _ in range(k)]
                    rows += [count() + (logint(r, m, signed),) for _ in range(k)]
                    add(f, 'scale', 3, rows, i, op=op)
                add('compound', 'compound', 4, two(), i)
                add('own', 'own', 1, [(tick(),) for _ in range(k)], i)
    return batches


def run(c):
    n = 10 if c.thorough else 6
    exe = c.build('chrono', [('chrono.cpp', [f'-DREP={t}', f'-DPOL={p}'] + (['-DDEEP'] if c.thorough else []))
                             for t in REPS.values() for p in POLS.values()])
    c.model('MC_Chrono', 'MC_Chrono_deep.cfg' if c.thorough else None)
    batches = batches_for(c, n, 60 if c.thorough else 14)
    for x in ('steady', 'system', 'high'):
        batches.append((f'real|{x}', dict(fn='real', key=f'real|{x}', na=1), ['0'] * (2000 if c.thorough else 200)))
    for x in ('nanoseconds', 'microseconds', 'milliseconds', 'seconds', 'minutes', 'hours'):
        batches.append((f'alias|{x}', dict(fn='alias', key=f'alias|{x}', unit=x, na=1), ['0']))
    c.trace('TraceChrono', exe, batches)
    c.assumptions += [
        'durations of one representation and policy at a time (others do not combine)',
        'libstdc++\'s duration_cast and common type, whose integers are those of Chrono.tla']
