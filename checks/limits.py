"""C22: limits."""
from gen import *
from verif import REPS, MAX, SIGNED, POLICIES


def run(c):
    exe = c.build('limits', [('limits.cpp', [f'-DREP={x}']) for x in REPS.values()])
    c.model('MC_Limits', 'MC_Limits_deep.cfg' if c.thorough else None)
    batches = []
    for rep in REPS:
        m = MAX[rep]
        for pol in POLICIES:
            r = rng('limits', rep, pol)

            def add(fn, na, rows):
                key = f'{fn}|{rep}|{pol}'
                batches.append((key, dict(fn=fn, key=key, rep=rep, pol=pol, na=na), rows))
            add('values', 1, ['0'])
            add('traits', 1, ['0'])
            rows = grid_pairs(rep, 6)
            rows += [(a, b) for a in edge_ints(rep) for b in edge_ints(rep)]
            rows += [(a, b) for a in (1, m, m - 1) for b in (1, m, m - 1)]
            for _ in range(4000 if c.thorough else 200):
                big = r.random()
                x = logint(r, m, rep in SIGNED)
                y = logint(r, m, rep in SIGNED, 0)
                if big < 0.3:
                    x, y = sgn(r, rep, m - r.randint(0, 3)), sgn(r, rep, r.randint(1, 3))
                elif big < 0.6:
                    y, x = sgn(r, rep, m - r.randint(0, 3)), sgn(r, rep, r.randint(1, 3))
                rows.append((x, y))
            for op, lims in (('le', (1, 3)), ('gt', (1, 3)), ('ge', (2, 3)), ('lt', (2, 3))):
                key = f'within|{op}|{rep}|{pol}'
                batches.append((key, dict(fn='within', op=op, key=key, rep=rep, pol=pol, na=3),
                                ['%d %d %d' % (x + (r.choice(lims),)) for x in rows]))
    c.trace('TraceLimits', exe, batches)
    c.assumptions += ['fractions whose components can be negated or whose denominator is positive '
                      '(the least integer over -1 is outside the contract)']
