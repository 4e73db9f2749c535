"""C13: hashes of fractions and mixed numbers, unordered containers."""
from gen import *
from verif import POLICIES, REPS, MAX, SIGNED
from checks import form, mixed


def history(r, rep, n, is_map):
    """Operations on few values in many forms."""
    s = rep in SIGNED
    top = int(MAX[rep] ** 0.5) // 2
    values = []
    while len(values) < r.choice([2, 5, 12, 30]):
        size = r.choice([2, 6, 40])
        values.append((r.randint(-size if s else 0, size), r.randint(1, size)))
    rows = ['reset 0 1 0']
    ops = ['insert', 'insert', 'erase', 'find'] + (['put', 'get', 'get'] if is_map else ['find'])
    for i in range(n):
        a, b = r.choice(values)
        k = r.randint(1, r.choice([1, 3, top // max(abs(a), b)]))
        if s and r.random() < 0.5:
            k = -k
        x = (a * k, b * k)
        if r.random() < 0.1:
            y = neighbour(r, x, top, s)
            x = y if y[1] else x
        op = r.choice(ops)
        if r.random() < 0.04:
            x = (a, 0)
            op = r.choice(['insert', 'find', 'erase'])
        rows.append('%s %d %d %d' % (op, *x, i))
    return rows


def hashes(r, rep, n):
    """Values and neighbours of theirs, hashed again and again."""
    s = rep in SIGNED
    rows = ['reset 0 1 0']
    top = r.choice([100, int(MAX[rep] ** 0.5) // 2, MAX[rep]])
    x = frac(r, rep, r.choice([9, 1000, top]))
    met = [x]
    for i in range(n):
        rows.append('hash %d %d %d' % (*x, i))
        a, b = x
        how = r.random()
        if how < 0.45:
            x = neighbour(r, x, top, s)
        elif how < 0.6:
            k = r.randint(1, max(1, top // max(abs(a), abs(b), 1)))
            x = (a * k, b * k)
        elif how < 0.95:
            x = r.choice(met)
        else:
            x = frac(r, rep, r.choice([9, 1000, top]))
        met.append(x)
    return rows


def run(c):
    exe = c.build('form', [('form.cpp', [f'-DREP={t}']) for t in REPS.values()])
    box = c.build('contain', [('contain.cpp', [f'-DREP={t}']) for t in REPS.values()])
    mix = mixed.build(c)
    c.model('MC_Container', 'MC_Container_deep.cfg' if c.thorough else None)
    c.trace('TraceForm', exe, form.batches_for(c, 'C13'))
    c.trace('TraceMixed', mix, mixed.batches_for(c, 'C13'))
    batches = []
    for rep in REPS:
        for pol in POLICIES:
            r = rng('history', rep, pol)
            for i in range(60 if c.thorough else 8):
                kind = ('map', 'set')[i % 2]
                key = f'{kind}|{rep}|{pol}'
                batches.append((key, dict(fn='history', key=key, rep=rep, pol=pol, na=4,
                                          prog=len(batches)),
                                history(r, rep, 60, kind == 'map')))
            for i in range(40 if c.thorough else 6):
                key = f'set|{rep}|{pol}'
                batches.append((key, dict(fn='history', key=key, rep=rep, pol=pol, na=4,
                                          prog=len(batches)), hashes(r, rep, 120)))
    c.trace('TraceContainer', box, batches, whole=True)
    c.assumptions += ['components of magnitude up to the maximum of the representation; '
                      'keys of one container are pairwise comparable within the headroom']
